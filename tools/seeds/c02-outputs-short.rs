use super::zz_support::*;
#[test]
fn demo() {
    let t = Tx::new(&[([5; 32], 0)], &vec![(10, script(&key(1))); 65_537]);
    let next = Tx::new(&[([6; 32], 1)], &[(11, script(&key(2)))]);
    let b = block([0; 32], 1, &[t.clone(), next.clone()]);
    let mut ids = Vec::new();
    crate::iterate_transactions(&b, &mut |t| ids.push(t.hash));
    assert_eq!(ids, vec![t.id(), next.id()]);
}
