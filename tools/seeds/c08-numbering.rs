use super::zz_support::*;
use crate::*;
#[derive(Clone)]
struct Slow(Block, u64);
impl BlockTrait for Slow {
    fn header(&self) -> &BlockHeader {
        self.0.header()
    }
    fn height(&self) -> usize {
        self.0.height()
    }
    fn transactions<F: FnMut(&Transaction)>(&self, callback: &mut F) -> () {
        std::thread::sleep(std::time::Duration::from_millis(self.1));
        self.0.transactions(callback)
    }
}
#[test]
fn demo() {
    let a = key(9);
    let first = Tx::coinbase(1, &[(50, script(&a))]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[first.clone()]);
    extend(&mut chain, 2, &[Tx::coinbase(2, &[]), Tx::new(&[(first.id(), 0)], &[(40, script(&a))])]);
    extend(&mut chain, 3, &[Tx::coinbase(3, &[(1, script(&a))])]);
    let slow: Vec<Slow> = blocks(&chain).into_iter().map(|b| { let t = if b.height() == 0 { 600 } else { 0 }; Slow(b, t) }).collect();
    let s = std::panic::catch_unwind(|| IndexedStore::from_blocks(slow, 3, 1, Logger::new())).expect("built");
    assert_eq!(listed(&s, &a), listed(&index(&chain), &a));
    assert_eq!(s.last_block_hash(), Some(block_id(&chain[2])));
}
