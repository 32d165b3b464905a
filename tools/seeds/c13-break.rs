use super::zz_support::*;
#[test]
fn demo() {
    let a = key(9);
    let first = Tx::coinbase(1, &[(50, script(&a))]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[first.clone()]);
    extend(&mut chain, 2, &[Tx::coinbase(2, &[])]);
    let gone = Tx::new(&[([8; 32], 0)], &[(1, script(&a))]);
    let spend = Tx::new(&[(first.id(), 0)], &[(40, script(&key(10)))]);
    let node = Server::start(chain.clone(), vec![gone.clone(), spend]);
    // the first transaction leaves the pool just after it was announced
    let inner = node.node.clone();
    node.set_before(move |method, _| {
        if method == "getrawtransaction" {
            inner.lock().unwrap().pool.retain(|t| t.id() != gone.id());
        }
    });
    let s = node.state(index(&chain), 1);
    let r = runtime();
    r.block_on(s.update());
    assert_eq!(ask(&r, &s, &a, 0).0, 0);
    assert_eq!(ask(&r, &s, &key(10), 0).0, 40);
}
