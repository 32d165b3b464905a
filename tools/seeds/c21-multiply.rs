use super::zz_support::*;
use super::zz_support::Server;
use crate::*;
/// the decimal number in a text, in units of 1e-8; more digits are kept behind
fn satoshis(t: &str) -> (u64, String) {
    let (m, e) = match t.split_once(|c| c == 'e' || c == 'E') {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().unwrap()),
        None => (t.to_string(), 0),
    };
    let (a, b) = m.split_once('.').unwrap_or((&m, ""));
    let digits = format!("{}{}", a, b);
    let point = a.len() as i32 + e + 8;
    let mut all = digits.clone();
    let mut point = point;
    while point < 0 {
        all.insert(0, '0');
        point += 1;
    }
    while (all.len() as i32) < point {
        all.push('0');
    }
    let (whole, rest) = all.split_at(point as usize);
    (if whole.is_empty() { 0 } else { whole.parse().unwrap() }, rest.trim_end_matches('0').to_string())
}
#[test]
fn demo() {
    let amounts = [1u64, 3, 7, 123_456_789, 2_099_999_999_999_999, 100_000_000, 17];
    let mut chain = Vec::new();
    let outputs: Vec<_> = amounts.iter().enumerate().map(|(k, v)| (*v, script(&key(k as u8)))).collect();
    extend(&mut chain, 1, &[Tx::coinbase(1, &outputs)]);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain), 1);
    runtime().block_on(s.update());
    let p = serve(s);
    for (k, v) in amounts.iter().enumerate() {
        let (_, b) = http(p, "GET", &format!("/addresses/{}/balance", key(k as u8)), b"").unwrap();
        assert_eq!(satoshis(b.trim()), (*v, String::new()), "{}", b);
        let (_, b) = http(p, "GET", &format!("/addresses/balance?addresses={}", key(k as u8)), b"").unwrap();
        let n = b.split("\"balance\":").nth(1).unwrap().trim_end_matches("}]");
        assert_eq!(satoshis(n), (*v, String::new()), "{}", b);
    }
}
