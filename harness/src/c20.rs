//! Well-formed and malformed HTTP requests.
use crate::http::*;
use crate::model::*;
use crate::node;
use hyper::{Body, Request, Response};
use serde_json::Value;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[
    ("c20_confirmations", c20_confirmations),
    ("c20_numbers", c20_numbers),
    ("c20_queries", c20_queries),
    ("c20_addresses", c20_addresses),
    ("c20_edits", c20_edits),
    ("c20_lists", c20_lists),
    ("c20_json", c20_json),
    ("c20_shapes", c20_shapes),
    ("c20_far", c20_far),
    ("c20_long", c20_long),
    ("c20_large", c20_large),
];
const T: bool = cfg!(feature = "thorough");
/// configured confirmations
const MAX: usize = 2;

fn owners() -> [Addr; 2] {
    [addr(0, 1), addr(5, 2)]
}
fn text(k: usize) -> String {
    owners()[k].app().to_string()
}
fn go(f: fn(&mut dyn FnMut(Request<Body>) -> Response<Body>)) {
    let o = owners();
    let mut c = Chain::new();
    c.push(1, vec![coinbase(1, vec![pay(&o[0], 1000), pay(&o[1], 1)])]);
    c.push(2, vec![coinbase(2, vec![pay(&o[0], 200)])]);
    c.push(3, vec![coinbase(3, vec![pay(&o[0], 30)])]);
    node::start(c.clone());
    let t = Tx::new(9, vec![(c.blocks[0].txs[0].id, 1)], vec![pay(&o[0], 4), pay(&o[1], 5)]);
    node::node().pool = vec![t];
    let s = node::state(node::prefix(&c, 2).store(), MAX);
    block_on(s.update());
    serve(s, f);
}
fn ledger(depth: usize) -> Ledger {
    node::ledger_at(&node::node().chain, &node::node().pool, depth)
}
const M: &str = "a well-formed request is answered";
const R: &str = "a malformed request is refused with 400";
/// endpoints: single balance, single outputs, lists by query, lists by body
fn request(ask_: &mut dyn FnMut(Request<Body>) -> Response<Body>, kind: usize, query: &[u8]) -> Answer {
    let utxos = kind % 2 == 1;
    let what = if utxos { "utxos" } else { "balance" };
    let mut uri = match kind / 2 {
        0 => format!("/addresses/{}/{}?", text(0), what),
        1 => format!("/addresses/{}?addresses={}&", what, text(0)),
        _ => format!("/addresses/{}?", what),
    }
    .into_bytes();
    uri.extend_from_slice(query);
    let body = if kind / 2 == 2 { vec![format!("[\"{}\"]", text(0)).into_bytes()] } else { vec![] };
    match ask(ask_, if kind / 2 == 2 { "POST" } else { "GET" }, &uri, body) {
        Some(a) => a,
        None => stop(),
    }
}
fn answered(a: &Answer, kind: usize, depth: usize) {
    check(a.status == 200, M);
    check(a.kind.starts_with(b"application/json"), M);
    let j = a.json();
    let l = ledger(depth);
    let o = owners()[0];
    check(
        match kind {
            0 => same_amount(&j, total(&l, &o)),
            1 => same_utxos(&j, &l, &o),
            2 | 4 => same_amount(&j[0]["balance"], total(&l, &o)),
            _ => same_utxos(&j[0]["utxos"], &l, &o),
        },
        M,
    );
}
// Every short text for the number of confirmations.
harness!(c20_confirmations, {
    go(|ask_| {
        let mut t = any_vec("confirmations", choose("length", if T { 5 } else { 4 }));
        for b in &t {
            // the end of the parameter, escapes, and a sign that is also an escape
            assume((*b != b'&') & (*b != b'#') & (*b != b'%') & (*b != b'+'));
        }
        let kind = choose("endpoint", 6);
        let mut digits = !t.is_empty();
        let mut v = 0u64;
        for b in &t {
            digits &= (*b >= b'0') & (*b <= b'9');
            v = v.wrapping_mul(10).wrapping_add((*b).wrapping_sub(b'0') as u64);
        }
        let mut depth = MAX + 1;
        for d in 0..=MAX {
            if digits & (v == d as u64) {
                depth = d;
            }
        }
        let depth = vrt::concretize(depth as u64) as usize;
        if depth <= MAX {
            // amounts that depend on it are then printed in decimal
            for b in t.iter_mut() {
                *b = vrt::concretize(*b as u64) as u8;
            }
        }
        let mut q = b"confirmations=".to_vec();
        q.extend_from_slice(&t);
        let a = request(ask_, kind, &q);
        if depth <= MAX {
            answered(&a, kind, depth);
            reach("answered");
        } else {
            a.refused(R);
            reach("refused");
        }
    })
});
// Long numbers and other texts.
harness!(c20_numbers, {
    go(|ask_| {
        const T: &[(&str, Option<usize>)] = &[
            ("0", Some(0)),
            ("1", Some(1)),
            ("2", Some(2)),
            ("3", None),
            ("10", None),
            ("00", Some(0)),
            ("0000000000000000000000002", Some(2)),
            ("18446744073709551615", None),
            ("18446744073709551616", None),
            ("18446744073709551617", None),
            ("18446744073709551618", None),
            ("9223372036854775808", None),
            ("4294967296", None),
            ("4294967297", None),
            ("36893488147419103233", None),
            ("99999999999999999999999999999999999999999", None),
            ("-1", None),
            ("-0", None),
            ("1.0", None),
            ("1e0", None),
            ("0x1", None),
            ("one", None),
            ("1=", None),
            ("=1", None),
            ("1=1", None),
            ("true", None),
            ("1,2", None),
            ("\"1\"", None),
            ("1;", None),
            ("256", None),
            ("65536", None),
            ("65537", None),
        ];
        let (t, d) = T[choose("text", T.len())];
        let kind = choose("endpoint", 6);
        let q = format!("{}confirmations={}{}", ["", "a=b&", "&", "confirmation=1&"][choose("before", 4)], t, ["", "&a=b", "&", "&confirmations2=7"][choose("after", 4)]);
        let a = request(ask_, kind, q.as_bytes());
        match d {
            Some(d) => answered(&a, kind, d),
            None => a.refused(R),
        }
        reach(if d.is_some() { "answered" } else { "refused" });
    })
});
// Arbitrary queries.
harness!(c20_queries, {
    go(|ask_| {
        let kind = choose("endpoint", 6);
        match choose("query", 3) {
            0 => {
                // nothing about confirmations
                let q = any_vec("query", choose("length", if self::T { 7 } else { 5 }));
                for b in &q {
                    assume(*b != b'#');
                }
                let a = request(ask_, kind, &q);
                answered(&a, kind, 0);
                reach("none");
            }
            1 => {
                // a parameter without a value
                let q = ["confirmations", "confirmations&a=1", "a=1&confirmations"][choose("text", 3)];
                request(ask_, kind, q.as_bytes()).refused(R);
                reach("no value");
            }
            _ => {
                // a name one byte away from it
                let mut q = b"confirmations".to_vec();
                let k = choose("position", q.len());
                let old = q[k];
                q[k] = any_u8("byte");
                for b in &q {
                    assume((*b != b'#') & (*b != b'%') & (*b != b'+'));
                }
                // "&" there leaves a name that is none; "=" too
                assume(q[k] != old);
                q.extend_from_slice(b"=7");
                let a = request(ask_, kind, &q);
                answered(&a, kind, 0);
                reach("another name");
            }
        }
    })
});
fn place(ask_: &mut dyn FnMut(Request<Body>) -> Response<Body>, place: usize, a: &[u8]) -> Option<Answer> {
    let mut uri = Vec::new();
    let mut body = Vec::new();
    let what: &[u8] = if place % 2 == 1 { b"utxos" } else { b"balance" };
    match place / 2 {
        0 => {
            uri.extend_from_slice(b"/addresses/");
            uri.extend_from_slice(a);
            uri.push(b'/');
            uri.extend_from_slice(what);
        }
        k => {
            uri.extend_from_slice(b"/addresses/");
            uri.extend_from_slice(what);
            // first or second of the list
            if k < 3 {
                uri.extend_from_slice(b"?addresses=");
                if k == 2 {
                    uri.extend_from_slice(text(1).as_bytes());
                    uri.push(b',');
                }
                uri.extend_from_slice(a);
            } else {
                body.extend_from_slice(b"[\"");
                if k == 4 {
                    body.extend_from_slice(text(1).as_bytes());
                    body.extend_from_slice(b"\",\"");
                }
                body.extend_from_slice(a);
                body.extend_from_slice(b"\"]");
            }
        }
    }
    ask(ask_, if place / 2 < 3 { "GET" } else { "POST" }, &uri, vec![body])
}
// Texts that are no addresses of the two known kinds.
harness!(c20_addresses, {
    go(|ask_| {
        let p = choose("place", 10);
        let t: Vec<u8> = match choose("text", 6) {
            0 => {
                let v = any_vec("address", choose("length", 4));
                for b in &v {
                    assume((*b != b'/') & (*b != b'?') & (*b != b'#') & (*b != b'&') & (*b != b'='));
                    if p >= 6 {
                        assume((*b != b'"') & (*b != b'\\'));
                    }
                }
                v
            }
            1 => {
                // another kind, or another length
                let mut v = vec![0u8; 1 + [20, 19, 21, 0, 1, 24, 32][choose("bytes", 7)]];
                v[0] = [0u8, 5, 1, 4, 6, 0x6f, 0xc4, 0x80, 0xff][choose("version", 9)];
                let n = v.len();
                for k in 1..n {
                    v[k] = k as u8;
                }
                if n == 21 && (v[0] == 0 || v[0] == 5) {
                    stop()
                }
                app::base58_check::encode(&v).into_bytes()
            }
            2 => vec![b'1'; choose("ones", 60)],
            3 => vec![b'z'; choose("length", 60)],
            4 => ["bc1qar0srrr7xfkvy5l643lydnw9re59gtzzwf5mdq", "address", "null", "{address}", "balance", "0", "%31", "..", "*", "1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfN", " 1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa"][choose("words", 11)].into(),
            _ => {
                let mut v = "\u{e9}\u{1F600}\u{661}".as_bytes()[..choose("cut", 9)].to_vec();
                v.insert(0, b'1');
                v
            }
        };
        match place(ask_, p, &t) {
            None => stop(),
            Some(a) => a.refused(R),
        }
        reach(["path", "path", "query", "query", "query", "query", "body", "body", "body", "body"][p]);
    })
});
// One character away from an address.
harness!(c20_edits, {
    go(|ask_| {
        let p = choose("place", 5) * 2;
        let k = choose("owner", 2);
        let good = text(k);
        let mut t = good.clone().into_bytes();
        match choose("edit", 5) {
            0 => (),
            1 => t[choose("position", good.len())] = b"123ABCDEFGHabcxyzZ0OIl"[choose("character", 22)],
            2 => {
                // no character of the alphabet
                let i = choose("position", good.len());
                t[i] = any_u8("byte");
                let b = t[i];
                assume((b != b'/') & (b != b'?') & (b != b'#') & (b != b'&') & (b != b'=') & (b != b',') & (b != b'"') & (b != b'\\'));
                let in_alphabet = (b >= b'1') & (b <= b'9') | (b >= b'A') & (b <= b'Z') | (b >= b'a') & (b <= b'z');
                assume(!in_alphabet);
            }
            3 => {
                t.remove(choose("removed", good.len()));
            }
            _ => t.insert(choose("inserted", good.len() + 1), b"1zA 0"[choose("character", 5)]),
        }
        let same = t.len() == good.len() && eq(&t, good.as_bytes());
        match place(ask_, p, &t) {
            None => stop(),
            Some(a) => {
                if same {
                    check(a.status == 200, M);
                    let l = ledger(0);
                    let o = owners()[k];
                    let j = a.json();
                    let n = [0, 0, 1, 0, 1][p / 2];
                    check(same_amount(if p == 0 { &j } else { &j[n]["balance"] }, total(&l, &o)), M);
                    reach("same")
                } else {
                    a.refused(R);
                    reach("other")
                }
            }
        }
    })
});
// Lists in the query.
harness!(c20_lists, {
    go(|ask_| {
        let (a, b) = (text(0), text(1));
        let lists: [(String, bool); 16] = [
            (format!("?addresses={},{}", a, b), true),
            (format!("?addresses={}&", a), true),
            (format!("?x=1&addresses={}", a), true),
            (format!(""), false),
            (format!("?"), false),
            (format!("?addresses"), false),
            (format!("?addresses="), false),
            (format!("?addresses=,"), false),
            (format!("?addresses={},", a), false),
            (format!("?addresses=,{}", a), false),
            (format!("?addresses={},,{}", a, b), false),
            (format!("?addresses={};{}", a, b), false),
            (format!("?address={}", a), false),
            (format!("?Addresses={}", a), false),
            (format!("?addresses={}{}", a, b), false),
            (format!("?addresses=%22{}%22", a), false),
        ];
        let (q, ok) = &lists[choose("query", 16)];
        let what = ["balance", "utxos"][choose("endpoint", 2)];
        match ask(ask_, "GET", format!("/addresses/{}{}", what, q).as_bytes(), vec![]) {
            None => check(false, "a valid request"),
            Some(r) => {
                if *ok {
                    check(r.status == 200, M);
                    reach("answered")
                } else {
                    r.refused(R);
                    reach("refused")
                }
            }
        }
    })
});
/// What a body asks for: owners, or nothing.
fn wanted(body: &[u8]) -> Option<Vec<usize>> {
    let s = std::str::from_utf8(body).ok()?;
    let v: Value = serde_json::from_str(s).ok()?;
    let mut k = Vec::new();
    for x in v.as_array()? {
        let x = x.as_str()?;
        k.push((0..2).find(|k| text(*k) == x)?);
    }
    Some(k)
}
fn post(ask_: &mut dyn FnMut(Request<Body>) -> Response<Body>, body: Vec<u8>) {
    let w = wanted(&body);
    let utxos = choose_bool("utxos");
    let a = match ask(ask_, "POST", if utxos { b"/addresses/utxos" } else { b"/addresses/balance" }, vec![body]) {
        None => stop(),
        Some(a) => a,
    };
    match w {
        None => {
            a.refused(R);
            reach("refused")
        }
        Some(ks) => {
            check(a.status == 200, M);
            let j = a.json();
            let n = j.as_array().map(|v| v.len());
            check(n == Some(ks.len()), M);
            let l = ledger(0);
            for (i, k) in ks.iter().enumerate() {
                let o = owners()[*k];
                check(j[i]["address"] == text(*k)[..], M);
                check(if utxos { same_utxos(&j[i]["utxos"], &l, &o) } else { same_amount(&j[i]["balance"], total(&l, &o)) }, M);
            }
            reach("answered")
        }
    }
}
// A body with one byte changed, inserted or removed, or cut.
harness!(c20_json, {
    go(|ask_| {
        let (a, b) = (text(0), text(1));
        let mut body = format!("[\"{}\", \"{}\"]", a, b).into_bytes();
        let n = body.len();
        // the bytes around the addresses
        let outside: Vec<usize> = (0..n + 1).filter(|k| *k <= 2 || *k >= 1 + a.len() && *k <= a.len() + 6 || *k >= n - 3).collect();
        match choose("edit", 4) {
            0 => {
                let k = outside[choose("position", outside.len() - 1)];
                assume(k < n);
                // a character of an address: only non-alphabet there
                let old = body[k];
                body[k] = any_u8("byte");
                if old.is_ascii_alphanumeric() {
                    assume((body[k] < b'0') | (body[k] > b'z'));
                }
            }
            1 => {
                let k = outside[choose("position", outside.len())];
                let x = any_u8("byte");
                let inside = k == 2 || k == 1 + a.len() || k == a.len() + 6 || k == n - 3;
                if inside {
                    assume((x < b'0') | (x > b'z'));
                }
                body.insert(k, x);
            }
            2 => {
                body.remove(choose("removed", n));
            }
            _ => body.truncate(choose("cut", n + 1)),
        }
        post(ask_, body);
    })
});
// Other JSON, and no JSON.
harness!(c20_shapes, {
    go(|ask_| {
        let (a, b) = (text(0), text(1));
        let k = choose("body", 36);
        let body: Vec<u8> = match k {
            0 => format!("[\"{}\"]", a).into(),
            1 => "[]".into(),
            2 => "{}".into(),
            3 => "null".into(),
            4 => "".into(),
            5 => format!("\"{}\"", a).into(),
            6 => a.clone().into(),
            7 => "[1]".into(),
            8 => "[null]".into(),
            9 => format!("[[\"{}\"]]", a).into(),
            10 => format!("[{{\"address\":\"{}\"}}]", a).into(),
            11 => format!("[\"{}\",1]", a).into(),
            12 => format!("[\"{}\",null]", a).into(),
            13 => format!("{{\"0\":\"{}\"}}", a).into(),
            14 => format!("[\"{}\",]", a).into(),
            15 => format!("['{}']", a).into(),
            16 => format!("[{}]", a).into(),
            17 => format!("[\"{}\"][]", a).into(),
            18 => format!("[\"{}\"] x", a).into(),
            19 => format!("\u{feff}[\"{}\"]", a).into(),
            20 => format!("[\"{}\" \"{}\"]", a, b).into(),
            21 => "[1e999]".into(),
            22 => "[18446744073709551616]".into(),
            23 => "[".repeat(1 + choose("depth", 200)).into(),
            24 => format!("{}{}", "[".repeat(150), "]".repeat(150)).into(),
            25 => format!("[\"{}\\u0000\"]", a).into(),
            26 => format!("[\"{}\\ud800\"]", a).into(),
            27 => format!("[\"\\ud83d\\ude00\"]").into(),
            28 => format!("[\"{}\",\"{}\"]", a, "x").into(),
            29 => format!("[\"{}\",\"\"]", a).into(),
            30 => format!("[\"\"]").into(),
            31 => vec![0xff],
            32 => vec![b'[', b'"', 0xc3, b'"', b']'],
            33 => format!("[\"{}\",\"{}\",\"{}\"]", b, a, b).into(),
            34 => "true".into(),
            _ => format!("addresses={}", a).into(),
        };
        post(ask_, body);
    })
});

// Many confirmations are allowed.
harness!(c20_far, {
    let o = owners();
    let conf = [12usize, 300][choose("allowed", 2)];
    let mut c = Chain::new();
    for h in 0..conf as u32 + 1 {
        c.push(h, vec![coinbase(h, if h % 3 == 0 { vec![pay(&o[0], 1 + h as u64)] } else { vec![] })]);
    }
    node::start(c.clone());
    let s = node::state(node::prefix(&c, 1).store(), conf);
    block_on(s.update());
    serve(s, |ask_| {
        let conf = node::node().chain.blocks.len() - 1;
        let kind = choose("endpoint", 6);
        let n = [0usize, 1, 9, 10, 11, 12, 13, 99, 100, 101, 127, 128, 255, 256, 257, 299, 300, 301, 1000, 65536, 65537][choose("confirmations", 21)];
        let a = request(ask_, kind, format!("confirmations={}", n).as_bytes());
        if n <= conf {
            answered(&a, kind, n);
            reach("answered");
        } else {
            a.refused(R);
            reach("refused");
        }
    });
});

// Long texts with a character of several bytes anywhere.
harness!(c20_long, {
    go(|ask_| {
        let p = choose("place", 5) * 2;
        let mut t = vec![b'1'; choose("before", 140)];
        t.extend_from_slice(["\u{e9}", "\u{20ac}", "\u{1F600}"][choose("character", 3)].as_bytes());
        t.resize(t.len() + [0, 100][choose("after", 2)], b'a');
        match place(ask_, p, &t) {
            None => stop(),
            Some(a) => a.refused(R),
        }
        reach(["path", "query", "query", "body", "body"][p / 2]);
    })
});
// Bodies of many kilobytes, in pieces of any size.
harness!(c20_large, {
    go(|ask_| {
        let (a, b) = (text(0), text(1));
        let n = [5_000usize, 16_500, 66_000, 140_000][choose("bytes", 4)];
        let good = choose_bool("well-formed");
        let mut body = format!("[\"{}\",", a).into_bytes();
        match choose("filler", 2) {
            0 => body.resize(n, b' '),
            _ => {
                while body.len() < n {
                    body.extend_from_slice(format!("\"{}\",", b).as_bytes());
                }
            }
        }
        let more = body.iter().filter(|c| **c == b',').count();
        body.extend_from_slice(format!("\"{}\"{}", a, if good { "]" } else { "" }).as_bytes());
        let piece = [1_000usize, 16_384, 1 << 20][choose("piece", 3)];
        let chunks: Vec<Vec<u8>> = body.chunks(piece).map(|c| c.to_vec()).collect();
        match ask(ask_, "POST", b"/addresses/balance", chunks) {
            None => stop(),
            Some(r) if good => {
                check(r.status == 200, M);
                let j = r.json();
                check(j.as_array().map(|v| v.len()) == Some(more + 1), M);
                let l = ledger(0);
                check(same_amount(&j[0]["balance"], total(&l, &owners()[0])) && same_amount(&j[more]["balance"], total(&l, &owners()[0])), M);
                reach("answered");
            }
            Some(r) => {
                r.refused(R);
                reach("refused");
            }
        }
    })
});
