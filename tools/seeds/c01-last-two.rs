use super::zz_support::*;
#[test]
fn demo() {
    let a = key(3);
    let t = Tx::coinbase(1, &[(77, script(&a)), (5, script(&a))]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[t.clone()]);
    extend(&mut chain, 2, &[Tx::coinbase(2, &[]), Tx::new(&[(t.id(), 0)], &[(70, script(&key(4)))])]);
    assert_eq!(listed(&index(&chain), &a), vec![(t.id(), 1, 5)]);
}
