use super::zz_support::*;
#[test]
fn demo() {
    let a = key(9);
    let first = Tx::coinbase(1, &vec![(50, script(&a)); 30]);
    let mut chain = Vec::new();
    extend(&mut chain, 1, &[first.clone()]);
    let mut inputs: Vec<_> = (0..29).map(|k| (first.id(), k)).collect();
    inputs.push(([8; 32], 0));
    let pool = vec![Tx::new(&inputs, &[(40, script(&key(10)))])];
    let node = Server::start(chain.clone(), pool);
    let s = node.state(index(&chain), 1);
    let r = runtime();
    r.block_on(s.update());
    assert_eq!(ask(&r, &s, &key(10), 0).0, 0);
    assert_eq!(ask(&r, &s, &a, 0).0, 30 * 50);
}
