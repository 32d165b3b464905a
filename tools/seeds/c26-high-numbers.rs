use super::zz_support::*;
#[test]
fn demo() {
    let mut chain = plain_chain(2);
    extend(&mut chain, 9, &[Tx::coinbase(9, &[]), Tx::new(&[([7; 32], u32::MAX)], &[(5, script(&key(1)))])]);
    assert!(refuses(|| { index(&chain); }));
}
