use super::zz_support::*;
#[test]
fn demo() {
    let chain = plain_chain(2);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..1]), 1);
    runtime().block_on(s.update());
    let p = serve(s);
    let body = format!("[{}\"{}\"]", " ".repeat(2_000_000), key(1));
    let a = http(p, "POST", "/addresses/balance", body.as_bytes()).expect("an answer");
    assert_eq!(a.0, 200, "{}", a.1);
}
