use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let f = Folder::new("c17");
    let chain = plain_chain(2);
    std::fs::write(f.file("blk00000.dat"), chain.iter().flat_map(|b| file_entry(b)).collect::<Vec<u8>>()).unwrap();
    std::fs::write(f.file("blk00000-dat"), b"some notes about the file of that name, kept beside it, of a certain length............").unwrap();
    let found = std::panic::catch_unwind(|| BlockFileReader::new(&f.path()).blocks(1, &Logger::new())).expect("scanned");
    assert_eq!(found.len(), 2);
}
