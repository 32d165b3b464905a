use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let f = Folder::new("c17");
    let other = Folder::new("c17-other");
    let chain = plain_chain(2);
    std::fs::write(other.file("old.dat"), file_entry(&chain[0])).unwrap();
    std::os::unix::fs::symlink(other.file("old.dat"), f.file("blk00000.dat")).unwrap();
    std::fs::write(f.file("blk00001.dat"), file_entry(&chain[1])).unwrap();
    let found = BlockFileReader::new(&f.path()).blocks(1, &Logger::new());
    assert_eq!(found.len(), 2);
    assert_eq!(found[1].hash(), block_id(&chain[1]));
}
