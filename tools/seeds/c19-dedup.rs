use super::zz_support::*;
fn service(confirmations: usize) -> u16 {
    let chain = plain_chain(6);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..chain.len() + 1 - confirmations]), confirmations);
    runtime().block_on(s.update());
    serve(s)
}
#[test]
fn demo() {
    let p = service(2);
    let (s, b) = http(p, "GET", &format!("/addresses/balance?addresses={},{},{}", key(1), key(1), key(2)), b"").unwrap();
    assert_eq!(s, 200);
    let v: serde_json::Value = serde_json::from_str(&b).unwrap();
    let a: Vec<_> = v.as_array().unwrap().iter().map(|x| x["address"].as_str().unwrap().to_string()).collect();
    assert_eq!(a, vec![key(1).to_string(), key(1).to_string(), key(2).to_string()]);
}
