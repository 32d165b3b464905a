use super::zz_support::*;
#[test]
fn demo() {
    let chain = plain_chain(6);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..4]), 3);
    let r = runtime();
    r.block_on(s.update());
    let mut other = chain[..5].to_vec();
    for k in 0..2 {
        extend(&mut other, 100 + k, &[Tx::coinbase(100 + k, &[(9, script(&key(99)))])]);
    }
    node.set(&other, &[]);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.block_on(s.update()))).is_ok());
    assert_eq!(ask(&r, &s, &key(99), 0).0, 18);
    assert_eq!(ask(&r, &s, &key(5), 0).0, 0);
}
