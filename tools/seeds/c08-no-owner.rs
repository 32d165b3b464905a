use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let a = key(9);
    let first = Tx::coinbase(1, &[(50, vec![0x51])]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[first.clone()]);
    extend(&mut chain, 2, &[Tx::coinbase(2, &[]), Tx::new(&[(first.id(), 0)], &[(40, script(&a))])]);
    let b = blocks(&chain);
    let s = std::panic::catch_unwind(|| IndexedStore::from_blocks(b, 2, 1, Logger::new())).expect("built");
    assert_eq!(balance(&s, &a), 40);
    assert_eq!(balance(&index(&chain), &a), 40);
}
