//! Requests to the HTTP interface of the service.
#![allow(static_mut_refs)]
use crate::model::*;
use app::state::State;
use hyper::{Body, Request, Response};
use serde_json::Value;
use std::sync::Arc;
use vrt::*;

pub struct Answer {
    pub status: u16,
    pub kind: Vec<u8>,
    pub body: Vec<u8>,
}
type Ask<'a> = &'a mut dyn FnMut(Request<Body>) -> Response<Body>;
static mut SESSION: Option<fn(Ask)> = None;

/// Serves `state` and runs `f` against it.
pub fn serve(state: Arc<State>, f: fn(Ask)) {
    unsafe {
        SESSION = Some(f);
        hyper::server::DRIVER = Some(|_, ask| SESSION.take().unwrap()(ask));
    }
    block_on(app::create_server::create_server(state).run(std::net::SocketAddr::from(([127, 0, 0, 1], 8000))));
    if unsafe { SESSION.is_some() } {
        fail("the server was not started");
    }
}
/// One request. None: no valid request.
pub fn ask(ask: Ask, method: &str, uri: &[u8], body: Vec<Vec<u8>>) -> Option<Answer> {
    let uri = match hyper::Uri::try_from(uri) {
        Ok(u) => u,
        Err(_) => return None,
    };
    let r = match Request::builder().method(method).uri(uri).body(Body::chunks(body.into_iter().map(Some).collect())) {
        Ok(r) => r,
        Err(_) => return None,
    };
    let mut a = match catch(|| ask(r)) {
        Ok(a) => a,
        Err(_) => {
            check(false, "no request crashes its handler");
            stop()
        }
    };
    let kind = a.headers().get("content-type").map(|v| v.as_bytes().to_vec()).unwrap_or_default();
    let status = a.status().as_u16();
    Some(Answer { status, kind, body: a.body_mut().take_all() })
}
impl Answer {
    pub fn json(&self) -> Value {
        match serde_json::from_slice(&self.body) {
            Ok(v) => v,
            Err(_) => {
                check(false, "a JSON answer");
                stop()
            }
        }
    }
    /// 400 with a JSON object that has a message
    pub fn is_refusal(&self) -> bool {
        if self.status != 400 {
            return false;
        }
        self.kind.starts_with(b"application/json") && self.json()["message"].is_string()
    }
    pub fn refused(&self, m: &str) {
        check(self.status == 400, m);
        check(self.kind.starts_with(b"application/json"), "a JSON answer");
        // the message may quote what was sent
        check(self.json()["message"].is_string(), "the error has a message");
    }
}
/// An amount of satoshis as the answers have it
pub fn same_amount(v: &Value, sat: u64) -> bool {
    match v.as_f64() {
        Some(f) => f == sat as f64 / 1e8,
        None => false,
    }
}
/// The answer for one address: every output.
pub fn same_utxos(v: &Value, l: &Ledger, a: &Addr) -> bool {
    let got = match v.as_array() {
        Some(g) => g,
        None => return false,
    };
    let mut n = 0;
    for c in l.coins.iter().filter(|c| a.paid_by(&c.script)) {
        n += 1;
        let id = crate::node::rhex(&c.op.0);
        if got.iter().filter(|g| g["hash"] == id[..] && g["vout"] == c.op.1 && same_amount(&g["value"], c.value)).count() != 1 {
            return false;
        }
    }
    n == got.len()
}
pub fn total(l: &Ledger, a: &Addr) -> u64 {
    l.coins.iter().filter(|c| a.paid_by(&c.script)).map(|c| c.value).sum()
}
