use super::zz_support::*;
#[test]
fn demo() {
    let chain = plain_chain(45);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..2]), 44);
    let r = runtime();
    r.block_on(s.update());
    for c in 0..=44 {
        for k in 0..45 {
            let want = if c < 2 || k <= 45 - c { 1000 + k as u64 } else { 0 };
            assert_eq!(ask(&r, &s, &key(k as u8), c).0, want, "{} confirmations, block {}", c, k);
        }
    }
}
