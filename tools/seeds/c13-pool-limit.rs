use super::zz_support::*;
#[test]
fn demo() {
    let a = key(9);
    let first = Tx::coinbase(1, &vec![(50, script(&a)); 70]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[first.clone()]);
    let pool: Vec<Tx> = (0..70).map(|k| Tx::new(&[(first.id(), k)], &[(40, script(&key(10)))])).collect();
    let node = Server::start(chain.clone(), pool);
    let s = node.state(index(&chain), 1);
    let r = runtime();
    r.block_on(s.update());
    assert_eq!(ask(&r, &s, &key(10), 0).0, 70 * 40);
    assert_eq!(ask(&r, &s, &a, 0).0, 0);
}
