use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let f = Folder::new("c09");
    let mut outputs = vec![(1, script(&key(2))); 258];
    outputs[257] = (3, vec![0x51]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[Tx::coinbase(1, &outputs)]);
    let s = index(&chain);
    let path = f.file("index");
    s.to_file(&path, &Logger::new());
    let l = std::panic::catch_unwind(|| IndexedStore::from_file(&path, &Logger::new())).expect("loaded").unwrap();
    assert_eq!(listed(&l, &key(2)), listed(&s, &key(2)));
}
