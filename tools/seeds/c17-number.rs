use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let f = Folder::new("c17");
    let chain = plain_chain(3);
    for (k, n) in [(0, "blk00000.dat"), (1, "blk65535.dat"), (2, "blk70000.dat")] {
        std::fs::write(f.file(n), file_entry(&chain[k])).unwrap();
    }
    let found = BlockFileReader::new(&f.path()).blocks(1, &Logger::new());
    assert_eq!(found.len(), 3);
    assert_eq!(found[2].hash(), block_id(&chain[2]));
}
