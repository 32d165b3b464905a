use super::zz_support::*;
#[test]
fn demo() {
    let a = key(9);
    let first = Tx::coinbase(1, &[(50, script(&a))]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[first.clone()]);
    let one = Tx::new(&[(first.id(), 0)], &[(40, script(&key(10)))]);
    let two = Tx::new(&[(first.id(), 0)], &[(41, script(&key(11)))]);
    let node = Server::start(chain.clone(), vec![one, two]);
    let s = node.state(index(&chain), 1);
    let r = runtime();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.block_on(s.update()))).is_ok());
    assert_eq!((ask(&r, &s, &a, 0).0, ask(&r, &s, &key(10), 0).0, ask(&r, &s, &key(11), 0).0), (0, 40, 0));
}
