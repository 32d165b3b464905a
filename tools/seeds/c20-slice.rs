use super::zz_support::*;
#[test]
fn demo() {
    let chain = plain_chain(2);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..1]), 1);
    runtime().block_on(s.update());
    let p = serve(s);
    for n in 30..40 {
        let body = format!("[\"{}\u{e9}\"]", "1".repeat(n));
        let a = http(p, "POST", "/addresses/balance", body.as_bytes());
        assert_eq!(a.expect("an answer").0, 400, "{}", n);
    }
}
