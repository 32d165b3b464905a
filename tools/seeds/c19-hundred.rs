use super::zz_support::*;
#[test]
fn demo() {
    let chain = plain_chain(6);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain[..5]), 2);
    runtime().block_on(s.update());
    let p = serve(s);
    let a: Vec<String> = (0..120).map(|k| key(k as u8).to_string()).collect();
    let (s, b) = http(p, "POST", "/addresses/balance", serde_json::json!(a).to_string().as_bytes()).unwrap();
    assert_eq!(s, 200);
    let v: serde_json::Value = serde_json::from_str(&b).unwrap();
    let got: Vec<_> = v.as_array().unwrap().iter().map(|x| x["address"].as_str().unwrap().to_string()).collect();
    assert_eq!(got, a);
}
