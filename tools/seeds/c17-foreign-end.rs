use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let f = Folder::new("c17");
    let chain = plain_chain(3);
    let mut v = file_entry(&chain[0]);
    v.extend(vec![0x55; 100]);
    v.extend(file_entry(&chain[1]));
    std::fs::write(f.file("blk00000.dat"), v).unwrap();
    assert!(refuses(|| { BlockFileReader::new(&f.path()).blocks(1, &Logger::new()); }));
}
