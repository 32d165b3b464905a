use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let f = Folder::new("c09");
    let v = 2_000_000_000_000_000 / 5 * 2; // 8 million coins
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[Tx::coinbase(1, &[(v, script(&key(2)))])]);
    let s = index(&chain);
    let path = f.file("index");
    s.to_file(&path, &Logger::new());
    let l = IndexedStore::from_file(&path, &Logger::new()).unwrap();
    assert_eq!(listed(&l, &key(2)), listed(&s, &key(2)));
}
