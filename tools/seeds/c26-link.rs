use super::zz_support::*;
#[test]
fn demo() {
    let chain = plain_chain(2);
    let mut wrong = block_id(&chain[1]);
    wrong[30] ^= 1;
    let b = block(wrong, 9, &[Tx::coinbase(9, &[])]);
    let mut s = index(&chain);
    assert!(refuses(|| s.add_block(&crate::Block::new(&b, 2))));
}
