use super::zz_support::*;
#[test]
fn demo() {
    let mut t = Tx::new(&[([5; 32], 0)], &[(10, script(&key(1)))]);
    t.version = -2;
    assert_eq!(t.decoded().hash, t.id());
}
