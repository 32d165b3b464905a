use super::zz_support::*;
fn service(confirmations: usize) -> u16 {
    let chain = plain_chain(6);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..chain.len() + 1 - confirmations]), confirmations);
    runtime().block_on(s.update());
    serve(s)
}
#[test]
fn demo() {
    let p = service(2);
    for (b, want) in [(format!("[\"{}\"]", key(1)), 200), (format!("[\"{}\", 5]", key(1)), 400), ("{}".to_string(), 400)] {
        assert_eq!(http(p, "POST", "/addresses/balance", b.as_bytes()).unwrap().0, want, "{}", b);
    }
}
