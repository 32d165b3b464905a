use super::zz_support::*;
#[test]
fn demo() {
    let chain = plain_chain(301);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..1]), 300);
    runtime().block_on(s.update());
    let p = serve(s);
    for (c, want) in [("0", 200), ("255", 200), ("256", 200), ("300", 200), ("301", 400)] {
        assert_eq!(http(p, "GET", &format!("/addresses/{}/balance?confirmations={}", key(1), c), b"").unwrap().0, want, "{}", c);
    }
}
