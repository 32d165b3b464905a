use super::zz_support::*;
#[test]
fn demo() {
    let chain = plain_chain(9);
    let node = Server::start(chain[..5].to_vec(), vec![]);
    let s = node.state(index(&chain[..3]), 3);
    let r = runtime();
    r.block_on(s.update());
    // three more blocks at once, then two of them are replaced
    node.set(&chain[..8], &[]);
    r.block_on(s.update());
    let mut other = chain[..6].to_vec();
    for k in 0..3 {
        extend(&mut other, 100 + k, &[Tx::coinbase(100 + k, &[(9, script(&key(99)))])]);
    }
    node.set(&other, &[]);
    r.block_on(s.update());
    assert_eq!(ask(&r, &s, &key(99), 0).0, 27);
    assert_eq!(ask(&r, &s, &key(7), 0).0, 0);
    assert_eq!(ask(&r, &s, &key(5), 3).0, 1005);
}
