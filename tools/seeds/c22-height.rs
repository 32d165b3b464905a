use super::zz_support::*;
use super::zz_support::Server;
use crate::*;
#[test]
fn demo() {
    let node = Server::start(plain_chain(2), vec![]);
    let r = runtime();
    assert!(r.block_on(node.client().getblockhash(1, &Logger::new())).is_some());
    assert!(r.block_on(node.client().getblockhash(65537, &Logger::new())).is_none());
    assert!(node.calls.lock().unwrap().iter().any(|c| c.1 == "[65537]"));
}
