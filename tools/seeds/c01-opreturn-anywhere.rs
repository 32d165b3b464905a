use super::zz_support::*;
#[test]
fn demo() {
    let mut h = [1u8; 20];
    h[7] = 0x6a;
    let a = crate::Address::P2PKH(h);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[Tx::coinbase(1, &[(77, script(&a))])]);
    assert_eq!(balance(&index(&chain), &a), 77);
}
