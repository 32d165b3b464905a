use super::zz_support::*;
fn service(confirmations: usize) -> u16 {
    let chain = plain_chain(6);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..chain.len() + 1 - confirmations]), confirmations);
    runtime().block_on(s.update());
    serve(s)
}
#[test]
fn demo() {
    let p = service(2);
    for (c, want) in [("0", 200), ("2", 200), ("-1", 400), ("3", 400), ("x", 400)] {
        assert_eq!(http(p, "GET", &format!("/addresses/{}/balance?confirmations={}", key(1), c), b"").unwrap().0, want, "{}", c);
    }
}
