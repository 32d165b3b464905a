use super::zz_support::*;
#[test]
fn demo() {
    let chain = plain_chain(40);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..5]), 2);
    let r = runtime();
    r.block_on(s.update());
    for k in 0..40 {
        assert_eq!(ask(&r, &s, &key(k), 0).0, 1000 + k as u64, "block {}", k);
    }
}
