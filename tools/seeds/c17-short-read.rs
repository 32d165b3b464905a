use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let f = Folder::new("c17");
    let t = Tx::coinbase(0x01000000, &[(9, script(&key(1)))]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[t]);
    let mut v = file_entry(&chain[0]);
    v.truncate(v.len() - 1);
    std::fs::write(f.file("blk00000.dat"), v).unwrap();
    assert!(refuses(|| { IndexedStore::from_blocks(BlockFileReader::new(&f.path()).blocks(1, &Logger::new()), 1, 1, Logger::new()); }));
}
