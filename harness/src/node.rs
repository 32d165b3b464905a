//! The node behind the RPC interface.
#![allow(static_mut_refs)]
use crate::model::*;
use app::client::Client;
use app::state::State;
use std::sync::Arc;
use vrt::*;

pub struct Node {
    /// the active chain
    pub chain: Chain,
    /// every block ever seen, with its serialization
    pub known: Vec<(Id, Vec<u8>)>,
    pub pool: Vec<Tx>,
    /// pool transactions that are listed but gone when asked for
    pub undeliverable: Vec<Id>,
    /// changes that arrive between two requests, in this order, at arbitrary moments
    pub events: Vec<Event>,
    pub requests: usize,
    pub limit: usize,
}
pub enum Event {
    Chain(Chain),
    Pool(Vec<Tx>),
}
static mut NODE: Option<Node> = None;
pub fn node() -> &'static mut Node {
    unsafe { NODE.as_mut().unwrap() }
}
pub fn start(chain: Chain) {
    unsafe {
        NODE = Some(Node { chain: Chain::new(), known: Vec::new(), pool: Vec::new(), undeliverable: Vec::new(), events: Vec::new(), requests: 0, limit: 1000 });
        hyper::TRANSPORT = Some(serve);
    }
    switch(chain);
}
/// The node's active chain becomes `c`.
pub fn switch(c: Chain) {
    let n = node();
    for b in &c.blocks {
        if !n.known.iter().any(|k| k.0 == b.id) {
            n.known.push((b.id, b.bytes()));
        }
    }
    n.chain = c;
}
const HEX: &[u8; 16] = b"0123456789abcdef";
pub fn hex(b: &[u8]) -> String {
    let mut s = Vec::with_capacity(2 * b.len());
    for x in b {
        s.push(HEX[(x >> 4) as usize]);
        s.push(HEX[(x & 15) as usize]);
    }
    unsafe { String::from_utf8_unchecked(s) }
}
pub fn rhex(b: &[u8]) -> String {
    let v: Vec<u8> = b.iter().rev().cloned().collect();
    hex(&v)
}
pub fn ok(result: &str) -> Option<(u16, Vec<Option<Vec<u8>>>)> {
    Some((200, vec![Some(format!("{{\"result\":{},\"error\":null,\"id\":\"indexer\"}}", result).into_bytes())]))
}
pub fn error(code: i64) -> Option<(u16, Vec<Option<Vec<u8>>>)> {
    Some((500, vec![Some(format!("{{\"result\":null,\"error\":{{\"code\":{},\"message\":\"no\"}},\"id\":\"indexer\"}}", code).into_bytes())]))
}
fn serve(r: hyper::Request<Vec<u8>>) -> Option<(u16, Vec<Option<Vec<u8>>>)> {
    let n = node();
    n.requests += 1;
    if n.requests > n.limit {
        fail("the number of requests to the node does not end");
    }
    while !n.events.is_empty() && choose_bool("node changes") {
        match n.events.remove(0) {
            Event::Chain(c) => switch(c),
            Event::Pool(p) => n.pool = p,
        }
    }
    let v: serde_json::Value = serde_json::from_slice(r.body()).unwrap();
    let p = &v["params"];
    match v["method"].as_str().unwrap() {
        "getrawmempool" => {
            let l: Vec<String> = n.pool.iter().map(|t| format!("\"{}\"", rhex(&t.id))).collect();
            ok(&format!("[{}]", l.join(",")))
        }
        "getrawtransaction" => {
            let id = p[0].as_str().unwrap();
            match n.pool.iter().find(|t| rhex(&t.id) == id && !n.undeliverable.contains(&t.id)) {
                Some(t) => ok(&format!("\"{}\"", hex(&t.bytes()))),
                None => error(-5),
            }
        }
        "getblockhash" => match n.chain.blocks.get(p[0].as_u64().unwrap() as usize) {
            Some(b) => ok(&format!("\"{}\"", rhex(&b.id))),
            None => error(-8),
        },
        "getblock" => {
            let id = p[0].as_str().unwrap();
            match n.known.iter().find(|b| rhex(&b.0) == id) {
                Some(b) => ok(&format!("\"{}\"", hex(&b.1))),
                None => error(-5),
            }
        }
        _ => error(-32601),
    }
}
pub fn client() -> Client {
    Client::new("127.0.0.1", 8332, "user", "secret")
}
pub fn state(store: app::store::IndexedStore, confirmations: usize) -> Arc<State> {
    Arc::new(State::new(store, client(), confirmations))
}
/// the first `n` blocks of a chain
pub fn prefix(c: &Chain, n: usize) -> Chain {
    Chain { blocks: c.blocks[..n].to_vec() }
}
/// the ledger a query with `c` confirmations has to answer from
pub fn ledger_at(chain: &Chain, pool: &[Tx], c: usize) -> Ledger {
    let n = chain.blocks.len() + 1 - c.max(1);
    let mut l = Ledger::of(&chain.blocks[..n]);
    if c == 0 {
        for t in pool {
            if l.can(t) {
                l.tx(t);
            }
        }
    }
    l
}
/// All four queries, for every depth.
pub fn check_answers(s: &Arc<State>, chain: &Chain, pool: &[Tx], owners: &[Addr], m: &str) {
    for c in 0..=s.confirmations() {
        check_depth(s, chain, pool, owners, c, m);
    }
}
pub fn check_depth(s: &Arc<State>, chain: &Chain, pool: &[Tx], owners: &[Addr], c: usize, m: &str) {
    let l = ledger_at(chain, pool, c);
    for a in owners {
        let q = a.app();
        let mut got = Vec::new();
        block_on(s.iterate_transaction_outputs(&q, c, |t, v| got.push((t.hash, t.index, v))));
        l.check_outputs(a, &got, m);
        l.check_balance(a, block_on(s.balance(&q, c)), m);
    }
    let ask: Vec<_> = owners.iter().map(|a| a.app()).collect();
    let b = block_on(s.balance_array(ask.clone(), c));
    let u = block_on(s.transaction_outputs_array(ask, c));
    check(b.len() == owners.len() && u.len() == owners.len(), m);
    for (k, a) in owners.iter().enumerate() {
        check(b[k].0.to_vec() == a.app().to_vec() && u[k].0.to_vec() == a.app().to_vec(), m);
        l.check_balance(a, b[k].1, m);
        let got: Vec<(Id, u32, u64)> = u[k].1.iter().map(|(t, v)| (t.hash, t.index, *v)).collect();
        l.check_outputs(a, &got, m);
    }
}
/// The permanent index, by way of its file.
pub fn permanent(s: &Arc<State>) -> app::store::IndexedStore {
    block_on(s.write("/vfs/probe"));
    app::store::IndexedStore::from_file("/vfs/probe", &app::logger::Logger::new()).unwrap()
}
