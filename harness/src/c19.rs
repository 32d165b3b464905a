//! Dispatch of HTTP requests.
use crate::http::*;
use crate::model::*;
use crate::node;
use hyper::{Body, Request, Response};
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c19_paths", c19_paths), ("c19_segments", c19_segments), ("c19_parameters", c19_parameters), ("c19_lists", c19_lists), ("c19_bodies", c19_bodies), ("c19_many", c19_many)];
const T: bool = cfg!(feature = "thorough");

fn owners() -> [Addr; 3] {
    [addr(0, 1), addr(5, 2), addr(0, 3)]
}
/// Owner 0 has three outputs, owner 1 one, owner 2 none; one output is unconfirmed.
fn chain() -> Chain {
    let o = owners();
    let mut c = Chain::new();
    c.push(1, vec![coinbase(1, vec![pay(&o[0], 5_000_000_000), pay(&o[1], 123_456_789)])]);
    c.push(2, vec![coinbase(2, vec![pay(&o[0], 1)])]);
    c.push(3, vec![coinbase(3, vec![pay(&o[0], 300_000_000)])]);
    c
}
fn go(f: fn(&mut dyn FnMut(Request<Body>) -> Response<Body>)) {
    let c = chain();
    node::start(c.clone());
    let s = node::state(node::prefix(&c, 2).store(), 2);
    block_on(s.update());
    serve(s, f);
}
const METHODS: [&str; 9] = ["GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "get", "GETS"];

#[derive(Clone, Copy, PartialEq)]
enum Endpoint {
    None,
    One(bool),
    List(bool),
}
/// The endpoint of a request and its path parameter
fn endpoint<'a>(method: &str, path: &'a [u8]) -> (Endpoint, &'a [u8]) {
    let seg: Vec<&[u8]> = path.split(|b| *b == b'/').collect();
    let is = |a: &[u8], b: &[u8]| a.len() == b.len() && eq(a, b);
    if seg.len() == 3 && seg[0].is_empty() && is(seg[1], b"addresses") && (method == "GET" || method == "POST") {
        if is(seg[2], b"balance") {
            return (Endpoint::List(false), b"");
        }
        if is(seg[2], b"utxos") {
            return (Endpoint::List(true), b"");
        }
    }
    if seg.len() == 4 && seg[0].is_empty() && is(seg[1], b"addresses") && method == "GET" {
        if is(seg[3], b"balance") {
            return (Endpoint::One(false), seg[2]);
        }
        if is(seg[3], b"utxos") {
            return (Endpoint::One(true), seg[2]);
        }
    }
    (Endpoint::None, b"")
}
/// the answer of a single-address endpoint for owner `k`
fn one(a: &Answer, utxos: bool, k: usize, l: &Ledger, m: &str) {
    check(a.status == 200, m);
    check(a.kind.starts_with(b"application/json"), m);
    let o = owners()[k];
    check(if utxos { same_utxos(&a.json(), l, &o) } else { same_amount(&a.json(), total(l, &o)) }, m);
}
fn list(a: &Answer, utxos: bool, ks: &[usize], l: &Ledger, m: &str) {
    check(a.status == 200, m);
    check(a.kind.starts_with(b"application/json"), m);
    let j = a.json();
    let v = match j.as_array() {
        Some(v) => v,
        None => {
            check(false, m);
            stop()
        }
    };
    check(v.len() == ks.len(), "one answer per requested address");
    for (x, k) in v.iter().zip(ks) {
        let o = owners()[*k];
        check(x["address"] == o.app().to_string()[..], "answers in the order of the request");
        check(if utxos { same_utxos(&x["utxos"], l, &o) } else { same_amount(&x["balance"], total(l, &o)) }, m);
    }
}
fn text(k: usize) -> String {
    owners()[k].app().to_string()
}
/// The requests of METHODS for a path: 404, 400 for a bad address, or the right endpoint's answer.
fn judge(a: &Answer, method: &str, path: &[u8], body_ok: bool) {
    const M: &str = "a request is answered by exactly the endpoint of its method and path";
    let l = node::ledger_at(&node::node().chain, &[], 0);
    let (e, p) = endpoint(method, path);
    match e {
        Endpoint::None => {
            check(a.status == 404, M);
            reach("no endpoint")
        }
        Endpoint::One(u) => {
            if eq_any(p, &text(0)) {
                one(a, u, 0, &l, M);
                reach("one")
            } else if eq_any(p, &text(1)) {
                one(a, u, 1, &l, M);
            } else {
                a.refused(M);
            }
        }
        Endpoint::List(u) => {
            if method == "POST" && body_ok {
                list(a, u, &[1, 0], &l, M)
            } else if method == "GET" && !body_ok {
                list(a, u, &[0], &l, M)
            } else {
                a.refused(M)
            }
            reach("list")
        }
    }
}
fn eq_any(p: &[u8], t: &str) -> bool {
    p.len() == t.len() && eq(p, t.as_bytes())
}
// One arbitrary byte anywhere in the fixed parts of a path, replaced or inserted, or one taken out.
harness!(c19_paths, {
    go(|ask_| {
        let a = text(0);
        let paths = [
            (String::from("/addresses/"), Some("/balance")),
            (String::from("/addresses/"), Some("/utxos")),
            (String::from("/addresses/balance"), None),
            (String::from("/addresses/utxos"), None),
        ];
        let (x, y) = &paths[choose("path", 4)];
        let mut path = x.as_bytes().to_vec();
        let head = path.len();
        if let Some(y) = y {
            path.extend_from_slice(a.as_bytes());
            path.extend_from_slice(y.as_bytes());
        }
        let alen = if y.is_some() { a.len() } else { 0 };
        let fixed = path.len() - alen;
        let at = |k: usize| if k < head { k } else { k + alen };
        match choose("change", 4) {
            0 => (),
            1 => path[at(choose("replaced", fixed))] = any_u8("byte"),
            2 => {
                let k = choose("inserted", fixed + 1);
                path.insert(if k < head { k } else { k + alen }, any_u8("byte"))
            }
            _ => {
                path.remove(at(choose("removed", fixed)));
            }
        }
        // where the path ends, or the host begins
        for b in &path {
            assume((*b != b'?') & (*b != b'#'));
        }
        assume(path.first() == Some(&b'/'));
        let method = METHODS[choose("method", if T { 9 } else { 4 })];
        let by_query = choose_bool("query");
        let mut uri = path.clone();
        if by_query {
            uri.extend_from_slice(format!("?addresses={}", a).as_bytes());
        }
        let body = format!("[\"{}\",\"{}\"]", text(1), text(0)).into_bytes();
        match ask(ask_, method, &uri, vec![if by_query { vec![] } else { body }]) {
            None => stop(),
            Some(r) => judge(&r, method, &path, !by_query),
        }
    })
});
// Segments in other numbers, orders and spellings.
harness!(c19_segments, {
    go(|ask_| {
        let a = text(0);
        let words = ["addresses", "balance", "utxos", &a, "", "Addresses", "BALANCE", "balance ", "*", ".."];
        let n = choose("segments", if T { 6 } else { 5 });
        let mut path = String::new();
        for k in 0..n {
            path.push('/');
            path.push_str(words[choose(["first", "second", "third", "fourth", "fifth"][k], if k == 3 { 6 } else if k == 0 { 6 } else { 5 })]);
        }
        if n == 0 {
            path.push_str(["/", "*"][choose("none", 2)]);
        }
        let method = METHODS[choose("method", METHODS.len())];
        let absolute = n > 0 && choose_bool("absolute");
        let uri = if absolute { format!("http://127.0.0.1:8000{}", path) } else { path.clone() };
        match ask(ask_, method, uri.as_bytes(), vec![]) {
            None => stop(),
            Some(r) => {
                let (e, _) = endpoint(method, path.as_bytes());
                if let Endpoint::List(_) = e {
                    r.refused("a list endpoint without addresses");
                    reach("list");
                } else {
                    judge(&r, method, path.as_bytes(), false)
                }
            }
        }
    })
});
// Other query parameters.
harness!(c19_parameters, {
    go(|ask_| {
        const M: &str = "the answer concerns the address of the path, whatever the query";
        let utxos = choose_bool("utxos");
        let mut q: Vec<u8> = Vec::new();
        let mut depth = 0;
        let other = text(1);
        let n = 1 + choose("parameters", 2);
        let mut given = false;
        for k in 0..n {
            q.push(if k == 0 { b'?' } else { b'&' });
            match choose(["first", "second"][k], 8) {
                0 => q.extend_from_slice(format!("address={}", other).as_bytes()),
                1 => q.extend_from_slice(format!("addresses={}", other).as_bytes()),
                2 => q.extend_from_slice(b"address="),
                3 => q.extend_from_slice(b"address=x&addresses=y"),
                4 if !given => {
                    given = true;
                    depth = choose("depth", 3);
                    q.extend_from_slice(format!("confirmations={}", depth).as_bytes())
                }
                5 => {
                    // any other name
                    let mut name = any_vec("name", 7);
                    for b in &name {
                        assume((*b >= b'a') & (*b <= b'z'));
                    }
                    q.append(&mut name);
                    q.extend_from_slice(format!("={}", other).as_bytes())
                }
                6 => {
                    let mut name = b"address".to_vec();
                    name[choose("letter", 7)] = any_u8("letter");
                    for b in &name {
                        assume((*b != b'&') & (*b != b'#'));
                    }
                    q.append(&mut name);
                    q.extend_from_slice(format!("={}", other).as_bytes())
                }
                _ => q.extend_from_slice(b"height=1&confirmation=2&Confirmations=2"),
            }
        }
        let mut uri = format!("/addresses/{}/{}", text(0), if utxos { "utxos" } else { "balance" }).into_bytes();
        uri.extend_from_slice(&q);
        let l = node::ledger_at(&node::node().chain, &[], depth);
        match ask(ask_, "GET", &uri, vec![format!("[\"{}\"]", other).into_bytes()]) {
            None => stop(),
            Some(r) => one(&r, utxos, 0, &l, M),
        }
        reach("parameters");
    })
});
// Lists: one answer per address in the order of the request.
harness!(c19_lists, {
    go(|ask_| {
        const M: &str = "a list is answered for exactly the requested addresses";
        let utxos = choose_bool("utxos");
        let post = choose_bool("post");
        let n = choose_in("addresses", if post { 0 } else { 1 }, if T { 4 } else { 3 });
        let ks: Vec<usize> = (0..n).map(|k| choose(["first", "second", "third", "fourth"][k], 3)).collect();
        let t: Vec<String> = ks.iter().map(|k| text(*k)).collect();
        let depth = choose("depth", 4);
        let mut uri = format!("/addresses/{}", if utxos { "utxos" } else { "balance" });
        let mut q = Vec::new();
        if depth < 3 {
            q.push(format!("confirmations={}", depth));
        }
        let mut body = Vec::new();
        if post {
            body = serde_json::to_vec(&t).unwrap();
            // of no meaning here
            if choose_bool("query") {
                q.push(format!("addresses={}", text(2)));
            }
        } else {
            q.insert(choose("position", q.len() + 1), format!("addresses={}", t.join(",")));
            if choose_bool("body") {
                body = format!("[\"{}\"]", text(2)).into_bytes();
            }
        }
        if !q.is_empty() {
            uri = format!("{}?{}", uri, q.join("&"));
        }
        let l = node::ledger_at(&node::node().chain, &[], if depth < 3 { depth } else { 0 });
        match ask(ask_, if post { "POST" } else { "GET" }, uri.as_bytes(), vec![body]) {
            None => check(false, "a valid request"),
            Some(r) => list(&r, utxos, &ks, &l, M),
        }
        reach(if post { "post" } else { "get" });
    })
});
// A body arrives in pieces and may be spelled in many ways.
harness!(c19_bodies, {
    go(|ask_| {
        const M: &str = "a list is answered for exactly the requested addresses";
        let (a, b) = (text(1), text(0));
        let body = match choose("spelling", 5) {
            0 => format!("[\"{}\",\"{}\"]", a, b),
            1 => format!(" [ \"{}\" ,\n\t\"{}\" ]\r\n", a, b),
            2 => {
                let e: String = a.bytes().map(|c| format!("\\u00{:02x}", c)).collect();
                format!("[\"{}\",\"{}\"]", e, b)
            }
            3 => format!("[\"{}\\u00{:02X}{}\",\"{}\"]", &a[..9], a.as_bytes()[9], &a[10..], b),
            _ => format!("\n[\"{}\",\"{}\"]", a, b),
        }
        .into_bytes();
        let i = choose("cut", body.len() + 1);
        let chunks = vec![body[..i].to_vec(), vec![], body[i..].to_vec()];
        let utxos = choose_bool("utxos");
        let l = node::ledger_at(&node::node().chain, &[], 0);
        match ask(ask_, "POST", if utxos { b"/addresses/utxos" } else { b"/addresses/balance" }, chunks) {
            None => check(false, "a valid request"),
            Some(r) => list(&r, utxos, &[1, 0], &l, M),
        }
        reach("bodies");
    })
});
// Long lists.
harness!(c19_many, {
    go(|ask_| {
        const M: &str = "a list is answered for exactly the requested addresses";
        let utxos = choose_bool("utxos");
        let post = choose_bool("post");
        let n = [10usize, 33, 65, 101, 260, 2100][choose("addresses", if post { 6 } else { 5 })];
        let o = owners();
        let unknown: Vec<Addr> = (0..n).map(|k| addr(if k % 2 == 0 { 0 } else { 5 }, (k % 200 + 20) as u8)).collect();
        // owners again and again among strangers
        let which: Vec<Addr> = (0..n).map(|k| if k % 3 == 0 { o[k % 2] } else { unknown[k] }).collect();
        let t: Vec<String> = which.iter().map(|a| a.app().to_string()).collect();
        let l = node::ledger_at(&node::node().chain, &[], 0);
        let path = format!("/addresses/{}", if utxos { "utxos" } else { "balance" });
        let r = if post {
            ask(ask_, "POST", path.as_bytes(), serde_json::to_vec(&t).unwrap().chunks(10_000).map(|c| c.to_vec()).collect())
        } else {
            ask(ask_, "GET", format!("{}?addresses={}", path, t.join(",")).as_bytes(), vec![])
        };
        match r {
            None => check(false, "a valid request"),
            Some(a) => {
                check(a.status == 200, M);
                let j = a.json();
                check(j.as_array().map(|v| v.len()) == Some(n), "one answer per requested address");
                for k in 0..n {
                    check(j[k]["address"] == t[k][..], "answers in the order of the request");
                    check(if utxos { same_utxos(&j[k]["utxos"], &l, &which[k]) } else { same_amount(&j[k]["balance"], total(&l, &which[k])) }, M);
                }
            }
        }
        reach("many");
    })
});
