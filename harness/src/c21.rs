//! Amounts in the answers.
use crate::http::*;
use crate::model::*;
use crate::node;
use hyper::{Body, Request, Response};
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c21_values", c21_values), ("c21_sums", c21_sums), ("c21_text", c21_text)];
const T: bool = cfg!(feature = "thorough");
const SUPPLY: u64 = 21_000_000 * 100_000_000;
const M: &str = "an amount in an answer is the stored amount of satoshis divided by 100,000,000";

/// expected amounts of every owner: outputs in creation order
struct Want {
    depth: usize,
    owners: Vec<(Addr, Vec<((Id, u32), u64)>)>,
}
static mut WANT: Option<Want> = None;
fn want() -> &'static Want {
    unsafe { WANT.as_ref().unwrap() }
}
/// Is the text of an amount exactly `v` satoshis?
fn check_amount(t: &[u8], v: u64) {
    if t.len() == 17 && t[0] == b'F' {
        // A floating point number, by its bits. Up to the supply the doubles nearest to different
        // multiples of 10^-8 differ, and the shortest decimal that reads as such a double is the
        // multiple itself: the text is exact if and only if the double is the nearest one.
        let b = (v as f64 / 1e8).to_bits();
        let mut w = Vec::with_capacity(16);
        for i in 0..16 {
            let n = ((b >> (60 - 4 * i)) & 15) as u8;
            w.push(n + b'0' + ((n > 9) as u8) * 39);
        }
        check_eq(&t[1..], &w, M);
        return;
    }
    // decimal: digits, fraction, exponent
    let mut k = 0;
    let mut m = 0u128;
    let mut scale = 0i64;
    let mut any = false;
    let digit = |b: u8| (b >= b'0') & (b <= b'9');
    while k < t.len() && digit(t[k]) {
        m = m * 10 + (t[k] - b'0') as u128;
        k += 1;
        any = true;
        if k > 30 {
            check(false, M);
            stop()
        }
    }
    if k < t.len() && t[k] == b'.' {
        k += 1;
        while k < t.len() && digit(t[k]) {
            m = m * 10 + (t[k] - b'0') as u128;
            scale += 1;
            k += 1;
            if k > 30 {
                check(false, M);
                stop()
            }
        }
    }
    if k < t.len() && (t[k] == b'e' || t[k] == b'E') {
        k += 1;
        let neg = k < t.len() && t[k] == b'-';
        if k < t.len() && (t[k] == b'-' || t[k] == b'+') {
            k += 1;
        }
        let mut e = 0i64;
        while k < t.len() && digit(t[k]) {
            e = e * 10 + (t[k] - b'0') as i64;
            k += 1;
        }
        scale -= if neg { -e } else { e };
    }
    check(any && k == t.len() && scale <= 20 && scale >= -20, M);
    // m / 10^scale == v / 10^8
    let s = scale - 8;
    let (l, r) = if s > 0 { (m, v as u128 * 10u128.pow(s as u32)) } else { (m * 10u128.pow(-s as u32), v as u128) };
    check(l == r, M);
}
/// The text of the number after the first `"name":` at or after `from`
fn number_after<'a>(b: &'a [u8], name: &str, from: usize) -> (&'a [u8], usize) {
    let n = format!("\"{}\":", name);
    let mut i = from;
    while i + n.len() < b.len() && &b[i..i + n.len()] != n.as_bytes() {
        i += 1;
    }
    if i + n.len() >= b.len() {
        check(false, "the amount is there");
        stop()
    }
    i += n.len();
    while b[i] == b' ' {
        i += 1;
    }
    let mut j = i;
    if b[i] == b'F' {
        j = i + 17;
    } else {
        while j < b.len() && b[j] != b',' && b[j] != b'}' && b[j] != b' ' {
            j += 1;
        }
    }
    (&b[i..j], j)
}
/// the answer without its amounts, which are replaced by 0
fn others(b: &[u8], names: &[&str]) -> serde_json::Value {
    let mut o = b.to_vec();
    for n in names {
        let mut from = 0;
        let q = format!("\"{}\":", n);
        loop {
            let found = (from..o.len()).find(|i| o[*i..].starts_with(q.as_bytes()));
            match found {
                None => break,
                Some(_) => {
                    let (t, end) = number_after(&o, n, from);
                    let start = end - t.len();
                    o.splice(start..end, [b'0']);
                    from = start + 1;
                }
            }
        }
    }
    match serde_json::from_slice(&o) {
        Ok(v) => v,
        Err(_) => {
            check(false, "a JSON answer");
            stop()
        }
    }
}
fn outputs(b: &[u8], list: &[((Id, u32), u64)], v: &serde_json::Value, mut from: usize) -> usize {
    let a = v.as_array().unwrap();
    check(a.len() == list.len(), "every output is there");
    // in the order of the answer
    for g in a {
        let (t, end) = number_after(b, "value", from);
        from = end;
        match list.iter().find(|o| g["hash"] == node::rhex(&o.0 .0)[..] && g["vout"] == o.0 .1) {
            None => check(false, "every output is there"),
            Some(o) => check_amount(t, o.1),
        }
    }
    from
}
fn session(ask_: &mut dyn FnMut(Request<Body>) -> Response<Body>) {
    let w = want();
    let k = choose("endpoint", 4);
    let list: Vec<String> = w.owners.iter().map(|o| o.0.app().to_string()).collect();
    let who = if k < 2 { choose("owner", list.len()) } else { 0 };
    let path = match k {
        0 => format!("/addresses/{}/balance?confirmations={}", list[who], w.depth),
        1 => format!("/addresses/{}/utxos?confirmations={}", list[who], w.depth),
        2 => format!("/addresses/balance?confirmations={}&addresses={}", w.depth, list.join(",")),
        _ => format!("/addresses/utxos?confirmations={}&addresses={}", w.depth, list.join(",")),
    };
    let a = match ask(ask_, "GET", path.as_bytes(), vec![]) {
        Some(a) => a,
        None => stop(),
    };
    check(a.status == 200, "an answer");
    let b = &a.body;
    let sum = |l: &[((Id, u32), u64)]| l.iter().fold(0u64, |s, o| s.wrapping_add(o.1));
    match k {
        0 => {
            check_amount(b, sum(&w.owners[who].1));
            reach("balance");
        }
        1 => {
            let v = others(b, &["value"]);
            outputs(b, &w.owners[who].1, &v, 0);
            reach("outputs");
        }
        2 => {
            let mut from = 0;
            let v = others(b, &["balance"]);
            check(v.as_array().map(|a| a.len()) == Some(list.len()), "an answer per address");
            for (i, o) in w.owners.iter().enumerate() {
                check(v[i]["address"] == list[i][..], "an answer per address");
                let (t, end) = number_after(b, "balance", from);
                from = end;
                check_amount(t, sum(&o.1));
            }
            reach("balances");
        }
        _ => {
            let v = others(b, &["value"]);
            check(v.as_array().map(|a| a.len()) == Some(list.len()), "an answer per address");
            let mut from = 0;
            for (i, o) in w.owners.iter().enumerate() {
                check(v[i]["address"] == list[i][..], "an answer per address");
                from = outputs(b, &o.1, &v[i]["utxos"], from);
            }
            reach("lists of outputs");
        }
    }
}
/// Outputs with the given amounts, spread over the permanent index, the recent blocks and the pool
fn run(amounts: &[(usize, usize, u64)], depth: usize) {
    let o = [addr(0, 1), addr(5, 2)];
    let mut c = Chain::new();
    let mut w: Vec<(Addr, Vec<((Id, u32), u64)>)> = o.iter().map(|a| (*a, Vec::new())).collect();
    let at = |place: usize| -> Vec<Out> { amounts.iter().filter(|a| a.0 == place).map(|a| pay(&o[a.1], a.2)).collect() };
    let mut note = |place: usize, id: Id| {
        for (k, a) in amounts.iter().filter(|a| a.0 == place).enumerate() {
            w[a.1].1.push(((id, k as u32), a.2));
        }
    };
    for place in 0..3 {
        let mut outs = at(place);
        // something for the pool to spend
        if place == 0 {
            outs.push(Out { value: 7, script: vec![0x51] });
        }
        c.push(place as u32, vec![coinbase(place as u32, outs)]);
        // the last block has one confirmation, the one before it two
        if depth == 0 || place + depth <= 3 {
            note(place, c.blocks[place].txs[0].id);
        }
    }
    node::start(c.clone());
    let n = amounts.iter().filter(|a| a.0 == 0).count() as u32;
    let t = Tx::new(9, vec![(c.blocks[0].txs[0].id, n)], at(3));
    if depth == 0 {
        note(3, t.id);
    }
    node::node().pool = vec![t];
    let s = node::state(node::prefix(&c, 1).store(), 2);
    block_on(s.update());
    unsafe { WANT = Some(Want { depth, owners: w }) };
    serve(s, session);
}
fn any_amount(name: &str) -> u64 {
    let v = any_u64(name);
    assume(v <= SUPPLY);
    v
}
/// An amount that comes through the node's hexadecimal replies: some bytes are arbitrary.
fn some_amount(name: &str, bytes: usize) -> u64 {
    let mut b = [0x1234_5678_9abc_deu64 >> 3, 0, 2_099_999_999_999_999][choose("base", 3)].to_le_bytes();
    let k = choose("position", 8 - bytes);
    for (i, x) in any_vec(name, bytes).into_iter().enumerate() {
        b[k + i] = x;
    }
    let v = u64::from_le_bytes(b);
    assume(v <= SUPPLY);
    v
}
// One output of any amount, wherever it is kept.
harness!(c21_values, {
    let place = choose("place", 4);
    let depth = choose("depth", 3);
    let v = if place == 0 { any_amount("amount") } else { some_amount("amount", if T { 2 } else { 1 }) };
    run(&[(place, choose("pays", 2), v)], depth);
});
// Sums.
harness!(c21_sums, {
    let (a, b) = (any_amount("first"), any_amount("second"));
    let p = choose("place", 4);
    let c = if p == 0 { any_amount("third") } else { some_amount("third", 1) };
    assume((a + b <= SUPPLY) & (a + b + c <= SUPPLY));
    let places = [0, 0, p];
    let who = [[0, 0, 0], [0, 1, 0], [1, 1, 0]][choose("owners", 3)];
    let amounts: Vec<(usize, usize, u64)> = (0..3).map(|k| (places[k], who[k], [a, b, c][k])).collect();
    run(&amounts, choose("depth", 3));
});
// The digits of particular amounts.
harness!(c21_text, {
    let k = choose("power", 16) as u32;
    let p = 10u64.pow(k);
    let v = match choose("amount", if T { 64 } else { 12 }) {
        0 => p,
        1 => p - 1,
        2 => p + 1,
        3 => SUPPLY.saturating_sub(p),
        4 => 2 * p + 99_999_999 % p.max(2),
        5 => (1 << (k * 3).min(50)) + 1,
        6 => (1 << (k * 3 + 2).min(50)) - 1,
        7 => p * 9 / 7,
        8 => 123_456_789_012_345 % p.max(3),
        9 => 5 * p / 10,
        10 => 3 * p,
        11 => SUPPLY - 1 - k as u64,
        n => (p + 1).wrapping_mul(n as u64 * 0x9e37_79b9_7f4a_7c15) % (SUPPLY + 1),
    };
    if v > SUPPLY {
        stop()
    }
    run(&[(0, 0, v)], 1);
});
