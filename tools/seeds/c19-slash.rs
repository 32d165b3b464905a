use super::zz_support::*;
fn service(confirmations: usize) -> u16 {
    let chain = plain_chain(6);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..chain.len() + 1 - confirmations]), confirmations);
    runtime().block_on(s.update());
    serve(s)
}
#[test]
fn demo() {
    let p = service(2);
    let good = http(p, "GET", &format!("/addresses/{}/balance", key(1)), b"").unwrap();
    assert_eq!(good.0, 200);
    for path in [format!("/addresses/{}/balance/", key(1)), format!("/addresses/utxos/?addresses={}", key(1))] {
        assert_eq!(http(p, "GET", &path, b"").unwrap().0, 404, "{}", path);
    }
}
