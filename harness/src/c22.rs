//! Talking to the node.
use crate::model::*;
use crate::node::{hex, rhex};
use app::client::Client;
use app::logger::Logger;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[
    ("c22_request", c22_request),
    ("c22_credentials", c22_credentials),
    ("c22_ids", c22_ids),
    ("c22_data", c22_data),
    ("c22_errors", c22_errors),
    ("c22_broken", c22_broken),
    ("c22_chunks", c22_chunks),("c22_large", c22_large)];
const T: bool = cfg!(feature = "thorough");

struct Seen {
    method: String,
    uri: String,
    auth: Vec<u8>,
    kind: Vec<u8>,
    body: Vec<u8>,
}
static mut SEEN: Vec<Seen> = Vec::new();
static mut REPLY: Option<(u16, Vec<Option<Vec<u8>>>)> = None;

fn transport(r: hyper::Request<Vec<u8>>) -> Option<(u16, Vec<Option<Vec<u8>>>)> {
    let h = |n: &str| r.headers().get(n).map(|v| v.as_bytes().to_vec()).unwrap_or_default();
    let s = Seen { method: r.method().as_str().to_string(), uri: r.uri().to_string(), auth: h("authorization"), kind: h("content-type"), body: r.body().clone() };
    unsafe {
        check(r.headers().get_all("authorization").iter().count() == 1, "one authorization");
        SEEN.push(s);
        REPLY.clone()
    }
}
fn reply(status: u16, body: &str) {
    unsafe {
        REPLY = Some((status, vec![Some(body.as_bytes().to_vec())]));
        hyper::TRANSPORT = Some(transport);
    }
}
fn result(json: &str) {
    reply(200, &format!("{{\"result\":{},\"error\":null,\"id\":\"indexer\"}}", json));
}
fn seen(method: &str, params: &str) {
    const M: &str = "one JSON-RPC request with the right method and parameters";
    let s = unsafe { &SEEN };
    check(s.len() == 1, M);
    check(s[0].method == "POST", "requests are posted");
    check(s[0].uri.trim_end_matches('/') == "http://node.example:8332", "to the configured node");
    let v: serde_json::Value = match serde_json::from_slice(&s[0].body) {
        Ok(v) => v,
        Err(_) => {
            check(false, M);
            stop()
        }
    };
    let p: serde_json::Value = serde_json::from_str(params).unwrap();
    check(v["method"] == method, M);
    check(v["params"] == p, M);
    check(v.get("id").is_some(), M);
}
fn client() -> Client {
    unsafe { SEEN = Vec::new() };
    Client::new("node.example", 8332, "alice", "s3cret")
}
fn log() -> Logger {
    Logger::new()
}
/// An id with two arbitrary bytes.
fn any_id() -> Id {
    let mut id: Id = [0; 32];
    for k in 0..32 {
        id[k] = (k as u8).wrapping_mul(37) ^ 0xa5;
    }
    let p = choose("position", 32);
    id[p] = any_u8("byte");
    id
}
/// The request of every call.
harness!(c22_request, {
    let id = any_id();
    // the text of the arbitrary byte
    let c = client();
    match choose("call", 4) {
        0 => {
            result("[]");
            check(block_on(c.getrawmempool(&log())).is_empty(), "an empty pool");
            seen("getrawmempool", "[false]");
        }
        1 => {
            let t = Tx::new(1, vec![NULL], vec![Out { value: 5, script: vec![0x51] }]);
            result(&format!("\"{}\"", hex(&t.bytes())));
            let _ = block_on(c.getrawtransaction(&id, &log()));
            seen_id("getrawtransaction", &id);
        }
        2 => {
            result(&format!("\"{}\"", rhex(&[7; 32])));
            let h = [0usize, 1, 9, 10, 255, 100_000, 840_000, 4_294_967_296, (1 << 53) + 1][choose("height", 9)];
            let _ = block_on(c.getblockhash(h, &log()));
            seen("getblockhash", &format!("[{}]", h));
        }
        _ => {
            result("\"00\"");
            let _ = block_on(c.getblock(id, &log()));
            seen_id("getblock", &id);
        }
    }
    check(unsafe { SEEN[0].auth == b"Basic YWxpY2U6czNjcmV0" }, "with the configured user and password");
    reach("request");
});
fn seen_id(method: &str, id: &Id) {
    // the id's digits are terms: they are taken out of the body before it is parsed
    let s = unsafe { &mut SEEN };
    check(s.len() == 1, "one request");
    let want = rhex_sym(id);
    let n = s[0].body.len();
    let mut at = None;
    // the quoted string of 64 digits
    for k in 0..n.saturating_sub(65) {
        if s[0].body[k] == b'"' && s[0].body[k + 65] == b'"' {
            at = Some(k + 1);
        }
    }
    match at {
        None => check(false, "the id is a parameter"),
        Some(k) => {
            check_eq(&s[0].body[k..k + 64], &want, "the id is sent in the node's reversed-hex form");
            for b in &mut s[0].body[k..k + 64] {
                *b = b'0';
            }
        }
    }
    let z = "0".repeat(64);
    seen(method, &if method == "getblock" { format!("[\"{}\",0]", z) } else { format!("[\"{}\"]", z) });
}
fn rhex_sym(id: &Id) -> Vec<u8> {
    let mut v = Vec::with_capacity(64);
    for b in id.iter().rev() {
        for d in [b >> 4, b & 15] {
            // '0' + d, and 39 more from ten on
            v.push(b'0' + d + 39 * ((d > 9) as u8));
        }
    }
    v
}
// User and password are those configured.
harness!(c22_credentials, {
    let mut u = any_vec("user", choose("user length", 4));
    let mut p = any_vec("password", choose("password length", 4));
    // long ones, with every kind of character
    match choose("more", 3) {
        0 => {}
        1 => u.extend((0..70usize).map(|k| b'!' + (k * 11 % 25) as u8)),
        _ => p.extend((0..200usize).map(|k| b' ' + (k * 7 % 95) as u8)),
    }
    for b in u.iter().chain(&p) {
        assume((*b >= 0x20) & (*b < 0x7f));
    }
    for b in &u {
        assume(*b != b':');
    }
    unsafe { SEEN = Vec::new() };
    let port = [8332u16, 1, 65535][choose("port", 3)];
    let host = ["127.0.0.1", "node.example"][choose("host", 2)];
    let c = Client::new(host, port, unsafe { std::str::from_utf8_unchecked(&u) }, unsafe { std::str::from_utf8_unchecked(&p) });
    result("[]");
    let _ = block_on(c.getrawmempool(&log()));
    let s = unsafe { &SEEN[0] };
    let mut plain = u.clone();
    plain.push(b':');
    plain.extend_from_slice(&p);
    let mut want = b"Basic ".to_vec();
    want.extend_from_slice(&base64(&plain));
    check_eq(&s.auth, &want, "basic authorization of the configured user and password");
    check(s.uri.trim_end_matches('/') == format!("http://{}:{}", host, port), "to the configured node");
    reach("credentials");
});
fn base64(b: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = Vec::new();
    for c in b.chunks(3) {
        let x = c[0] as u32;
        let y = if c.len() > 1 { c[1] as u32 } else { 0 };
        let z = if c.len() > 2 { c[2] as u32 } else { 0 };
        out.push(A[(x >> 2) as usize]);
        out.push(A[((x & 3) << 4 | y >> 4) as usize]);
        out.push(if c.len() > 1 { A[((y & 15) << 2 | z >> 6) as usize] } else { b'=' });
        out.push(if c.len() > 2 { A[(z & 63) as usize] } else { b'=' });
    }
    out
}
fn text(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
// Ids the node replies with.
harness!(c22_ids, {
    let id = any_id();
    let upper = choose_bool("upper case");
    let mut t = rhex_sym(&id);
    if upper {
        for c in t.iter_mut() {
            *c -= 32 * ((*c >= b'a') as u8);
        }
    }
    let t = text(&t);
    let c = client();
    if choose_bool("pool") {
        let n = choose("others", 3);
        let at = choose("position", n + 1);
        let mut l: Vec<String> = (0..n).map(|k| format!("\"{}\"", rhex(&[k as u8 + 1; 32]))).collect();
        l.insert(at, format!("\"{}\"", t));
        result(&format!("[{}]", l.join(",")));
        let got = block_on(c.getrawmempool(&log()));
        check(got.len() == n + 1, "every id of the pool");
        for (k, g) in got.iter().enumerate() {
            let w = if k == at { id } else { [(if k < at { k } else { k - 1 }) as u8 + 1; 32] };
            check_eq(g, &w, "ids in internal byte order, in the node's order");
        }
        reach("pool");
    } else {
        result(&format!("\"{}\"", t));
        match block_on(c.getblockhash(3, &log())) {
            Some(h) => check_eq(&h, &id, "the id in internal byte order"),
            None => check(false, "a hash that was replied"),
        }
        reach("hash");
    }
});
// Blocks and transactions the node replies with.
harness!(c22_data, {
    let c = client();
    if choose_bool("transaction") {
        let mut t = Tx::with(1, vec![([9; 32], any_u32("number") & 255)], vec![Out { value: any_u64("value") & 0xff00, script: vec![0x51; choose("script", 3)] }], choose_bool("segwit"));
        t.id = hash2(&{
            let mut x = t.clone();
            x.segwit = false;
            x.bytes()
        });
        result(&format!("\"{}\"", text(&hex_sym(&t.bytes()))));
        match block_on(c.getrawtransaction(&t.id, &log())) {
            None => check(false, "a transaction that was replied"),
            Some(g) => {
                check_eq(&g.hash, &t.id, "the transaction that was replied");
                check(g.inputs.len() == 1 && g.outputs.len() == 1, "the transaction that was replied");
                check(eq(&g.inputs[0].hash, &t.ins[0].0) & (g.inputs[0].index == t.ins[0].1) & (g.outputs[0].value == t.outs[0].value), "the transaction that was replied");
                check_eq(&g.outputs[0].script, &t.outs[0].script, "the transaction that was replied");
            }
        }
        reach("transaction");
    } else {
        let mut b = vec![3u8; choose("length", 300)];
        let n = b.len();
        if n > 0 {
            b[n / 2] = any_u8("byte");
            b[n - 1] = any_u8("last byte");
        }
        result(&format!("\"{}\"", text(&hex_sym(&b))));
        match block_on(c.getblock([1; 32], &log())) {
            None => check(false, "a block that was replied"),
            Some(g) => check_eq(&g, &b, "the bytes that were replied"),
        }
        reach("block");
    }
});
fn hex_sym(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(2 * b.len());
    for b in b {
        for d in [b >> 4, b & 15] {
            v.push(b'0' + d + 39 * ((d > 9) as u8));
        }
    }
    v
}
/// What a call makes of the current reply: 0 absent, 1 an answer, 2 the call fails
fn outcome(call: usize) -> usize {
    let c = client();
    let r = match call {
        0 => catch(|| {
            block_on(c.getrawmempool(&log()));
            1
        }),
        1 => catch(|| block_on(c.getrawtransaction(&[1; 32], &log())).is_some() as usize),
        2 => catch(|| block_on(c.getblockhash(7, &log())).is_some() as usize),
        _ => catch(|| block_on(c.getblock([2; 32], &log())).is_some() as usize),
    };
    r.unwrap_or(2)
}
const NAMES: [&str; 4] = ["pool", "transaction", "hash", "block"];
// Every error code.
harness!(c22_errors, {
    let call = choose("call", 4);
    let k = choose("code", if T { 2200 } else { 220 });
    let code: i64 = match k {
        0 => -32601,
        1 => -32700,
        2 => i64::MIN,
        3 => i64::MAX,
        4 => 65531,
        5 => -65541,
        6 => 4294967291,
        7 => -4294967301,
        _ => 100 - k as i64,
    };
    // what the node says to it does not matter
    let words = ["m", "", "Block height out of range", "No such mempool or blockchain transaction. Use gettransaction for wallet transactions.", "Block not found", "Loading block index..."];
    let m = words[if (-30..1).contains(&code) { choose("message", words.len()) } else { 0 }];
    reply(500, &format!("{{\"result\":null,\"error\":{{\"code\":{},\"message\":\"{}\"}},\"id\":\"indexer\"}}", code, m));
    let absent = call == 1 && code == -5 || call == 2 && code == -8;
    let o = outcome(call);
    check(o == if absent { 0 } else { 2 }, "only the documented not-found codes are taken for absence");
    reach(if absent { "absent" } else { "stopped" });
});
// Replies that are none.
harness!(c22_broken, {
    let call = choose("call", 4);
    let good = ["[]", "\"0200000001000000000000000000000000000000000000000000000000000000000000000000ffffffff0000000000000000000000\"", "\"0707070707070707070707070707070707070707070707070707070707070707\"", "\"00\""][call];
    let absent = [-5, -5, -8, -5][call];
    let err = format!("{{\"result\":null,\"error\":{{\"code\":{},\"message\":\"m\"}},\"id\":\"indexer\"}}", absent);
    let ok = format!("{{\"result\":{},\"error\":null,\"id\":\"indexer\"}}", good);
    unsafe { hyper::TRANSPORT = Some(transport) };
    match choose("fault", 9) {
        0 => unsafe { REPLY = None },
        // a status the node uses for refused or overloaded requests, whatever the body
        1 => {
            let s = [301u16, 400, 401, 403, 404, 405, 429, 502, 503, 204][choose("status", 10)];
            reply(s, [&err[..], &ok[..], ""][choose("body", 3)]);
        }
        2 => reply(500, ""),
        3 => reply(200, &ok[..choose("cut", ok.len())]),
        4 => reply(500, &err[..choose("cut", err.len())]),
        5 => reply(500, "{\"result\":null,\"error\":null,\"id\":\"indexer\"}"),
        6 => result(["null", "1", "{}", "true", "[1]", "[null]", "\"0\"", "\"0g\"", "[\"zz\"]", "\"\u{e9}\u{e9}\""][choose("result", 10)]),
        7 => unsafe {
            // the connection breaks in the middle
            let k = choose("cut", ok.len());
            REPLY = Some((200, vec![Some(ok.as_bytes()[..k].to_vec()), None]));
        },
        _ => unsafe {
            let k = choose("cut", err.len());
            REPLY = Some((500, vec![Some(err.as_bytes()[..k].to_vec()), None]));
        },
    }
    check(outcome(call) == 2, "what is no proper reply stops the update");
    reach(NAMES[call]);
});
// A reply arrives in pieces.
harness!(c22_chunks, {
    let body = format!("{{\"result\":[\"{}\",\"{}\"],\"error\":null,\"id\":\"indexer\"}}", rhex(&[5; 32]), rhex(&[6; 32]));
    let b = body.as_bytes();
    let i = choose("first cut", b.len() + 1);
    let j = i + choose("second piece", 4).min(b.len() - i);
    unsafe {
        REPLY = Some((200, vec![Some(b[..i].to_vec()), Some(b[i..j].to_vec()), Some(vec![]), Some(b[j..].to_vec())]));
        hyper::TRANSPORT = Some(transport);
    }
    let got = block_on(client().getrawmempool(&log()));
    check(got == vec![[5; 32], [6; 32]], "the reply is put together");
    reach("pieces");
});
// Large replies, in pieces of several sizes.
harness!(c22_large, {
    let c = client();
    let piece = [1000usize, 8192, 65_536, usize::MAX][choose("piece", 4)];
    let send = |s: String| unsafe {
        let b = format!("{{\"result\":{},\"error\":null,\"id\":\"indexer\"}}", s).into_bytes();
        REPLY = Some((200, b.chunks(piece.min(b.len())).map(|x| Some(x.to_vec())).collect()));
        hyper::TRANSPORT = Some(transport);
    };
    match choose("call", 3) {
        0 => {
            let n = [257usize, 1100][choose("ids", 2)];
            let id = |k: usize| {
                let mut x = [k as u8; 32];
                x[0] = (k >> 8) as u8;
                x[31] = (k * 7) as u8;
                x
            };
            let l: Vec<String> = (0..n).map(|k| format!("\"{}\"", rhex(&id(k)))).collect();
            send(format!("[{}]", l.join(",")));
            let got = block_on(c.getrawmempool(&log()));
            check(got.len() == n, "every id of the pool");
            for k in 0..n {
                check(got[k] == id(k), "ids in internal byte order, in the node's order");
            }
        }
        1 => {
            let n = [4096usize, 32_769, 65_536, 150_000][choose("length", 4)];
            let mut b: Vec<u8> = (0..n).map(|k| (k * 31 + k / 256) as u8).collect();
            b[n - 1] = any_u8("last byte");
            send(format!("\"{}\"", text(&hex_sym(&b))));
            match block_on(c.getblock([1; 32], &log())) {
                None => check(false, "a block that was replied"),
                Some(g) => check_eq(&g, &b, "the bytes that were replied"),
            }
        }
        _ => {
            let t = Tx::with(1, vec![([9; 32], 3)], vec![Out { value: 5, script: vec![0x51; [5000usize, 70_000][choose("script", 2)]] }; 2], true);
            send(format!("\"{}\"", hex(&t.bytes())));
            match block_on(c.getrawtransaction(&t.id, &log())) {
                None => check(false, "a transaction that was replied"),
                Some(g) => check(g.hash == t.id && g.outputs.len() == 2 && g.outputs[1].script == t.outs[1].script, "the transaction that was replied"),
            }
        }
    }
    reach("large");
});
