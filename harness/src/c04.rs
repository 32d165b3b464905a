//! Address text: a checked bijection.
use app::address::Address;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[
    ("c04_roundtrip", c04_roundtrip),
    ("c04_checksum", c04_checksum),
    ("c04_mutated", c04_mutated),
    ("c04_short", c04_short),
    ("c04_payload", c04_payload),
    ("c04_versions", c04_versions),
    ("c04_slices", c04_slices),
];
const T: bool = cfg!(feature = "thorough");
const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

fn inv(c: u8) -> Option<u8> {
    A.iter().position(|x| *x == c).map(|k| k as u8)
}
/// the text of a concrete byte string
fn text(b: &[u8]) -> Vec<u8> {
    let mut n: Vec<u32> = b.iter().map(|x| *x as u32).collect();
    let mut out = Vec::new();
    while n.iter().any(|x| *x != 0) {
        let mut rem = 0u32;
        for x in n.iter_mut() {
            let v = rem * 256 + *x;
            *x = v / 58;
            rem = v % 58;
        }
        out.push(A[rem as usize]);
    }
    for x in b {
        if *x != 0 {
            break;
        }
        out.push(b'1');
    }
    out.reverse();
    out
}
fn pattern(k: usize) -> [u8; 20] {
    let mut h = [0u8; 20];
    for i in 0..20 {
        h[i] = match k {
            0 => 0,
            1 => 0xff,
            2 => (i * 37 + 11) as u8,
            _ => {
                if i < 7 {
                    0
                } else {
                    (i * 91 + 5) as u8
                }
            }
        }
    }
    h
}
fn bytes(a: &Address) -> (u8, [u8; 20]) {
    match a {
        Address::P2PKH(h) => (0, *h),
        Address::P2SH(h) => (5, *h),
    }
}
fn make(kind: usize, h: [u8; 20]) -> Address {
    if kind == 0 {
        Address::P2PKH(h)
    } else {
        Address::P2SH(h)
    }
}

/// one hash byte arbitrary: format, compare with the reference value, parse
harness!(c04_roundtrip, {
    let kind = choose("kind", 2);
    let mut h = pattern(choose("pattern", if T { 4 } else { 3 }));
    let p = if T { choose("position", 20) } else { [0, 1, 10, 19][choose("position", 4)] };
    h[p] = any_u8("byte");
    let a = make(kind, h);
    let t = a.to_string();
    let d = format!("{}", a);
    check_eq(d.as_bytes(), t.as_bytes(), "both ways of formatting agree");
    observe("text", t.as_bytes());
    match Address::from_string(&t) {
        Ok(b) => {
            let (v, g) = bytes(&b);
            check(v == [0u8, 5][kind], "the version byte tells the kind");
            check_eq(&g, &h, "parsing the text gives back the address");
            reach("same");
        }
        Err(_) => check(false, "the text of an address is accepted"),
    }
    // and the text carries version, hash and checksum
    match app::base58::decode(&t) {
        Ok(raw) => {
            check(raw.len() == 25, "version, hash and checksum");
            check(raw[0] == [0u8, 5][kind], "version byte");
            check_eq(&raw[1..21], &h, "hash bytes");
            check_eq(&raw[21..], &hash2(&raw[..21])[..4], "checksum");
        }
        Err(_) => check(false, "the text is base58"),
    }
});

/// a fixed text against every possible hash function value
harness!(c04_checksum, {
    unsafe { SYM_HASH = true };
    let kind = choose("kind", 3);
    let mut raw = vec![[0u8, 5, 6][kind]];
    raw.extend_from_slice(&pattern(choose("pattern", 3)));
    raw.extend_from_slice(&[[0u8; 4], [0xff; 4], [1, 2, 3, 4]][choose("tail", 3)]);
    let t = text(&raw);
    let r = Address::from_string(std::str::from_utf8(&t).unwrap());
    let good = eq(&hash2(&raw[..21])[..4], &raw[21..]);
    match r {
        Ok(a) => {
            check(kind < 2, "an unknown version is refused");
            check(good, "a wrong checksum is refused");
            let (v, h) = bytes(&a);
            check(v == raw[0], "the version byte tells the kind");
            check(h == raw[1..21], "the hash bytes of the text");
            reach("accepted");
        }
        Err(_) => {
            check(!good || kind == 2, "a right checksum is accepted");
            reach("refused");
        }
    }
});

/// value of a text as 25 bytes: None if it does not have exactly 25
fn value(t: &[u8]) -> Option<Vec<u8>> {
    let mut n: Vec<u32> = Vec::new(); // little endian
    for c in t {
        let mut carry = inv(*c)? as u32;
        for x in n.iter_mut() {
            let v = *x * 58 + carry;
            *x = v & 255;
            carry = v >> 8;
        }
        while carry > 0 {
            n.push(carry & 255);
            carry >>= 8;
        }
    }
    let mut out: Vec<u8> = t.iter().take_while(|c| **c == b'1').map(|_| 0u8).collect();
    out.extend(n.iter().rev().map(|x| *x as u8));
    if out.len() == 25 {
        Some(out)
    } else {
        None
    }
}

/// the text of an address with one character replaced, removed or inserted
harness!(c04_mutated, {
    let kind = choose("kind", 2);
    let h = pattern([2, 0, 3, 1][choose("pattern", if T { 4 } else { 2 })]);
    let t = make(kind, h).to_string().into_bytes();
    let n = t.len();
    let p = if T { choose("position", n) } else { [0, 1, n / 2, n - 2, n - 1][choose("position", 5)] };
    let c = any_u8("character");
    assume(c < 128);
    let mut m = t.clone();
    let mutation = choose("mutation", 4);
    match mutation {
        0 => m[p] = c,
        1 => m.insert(p, c),
        2 => m.push(c),
        _ => {
            m.remove(p);
        }
    }
    let r = Address::from_string(std::str::from_utf8(&m).unwrap());
    let want = value(&m).filter(|v| v[0] == 0 || v[0] == 5).filter(|v| eq(&hash2(&v[..21])[..4], &v[21..]));
    match (r, want) {
        (Ok(a), Some(v)) => {
            let (k, g) = bytes(&a);
            check(k == v[0], "the version byte tells the kind");
            check_eq(&g, &v[1..21], "the hash bytes of the text");
            reach("accepted");
        }
        (Err(_), None) => reach("refused"),
        (Ok(_), None) => check(false, "a text that is no address is refused"),
        (Err(_), Some(_)) => check(false, "the text of an address is accepted"),
    }
});

/// short texts of any characters, and multi-byte ones
harness!(c04_short, {
    let n = choose("len", if T { 6 } else { 4 });
    let b = any_vec("text", n);
    for c in &b {
        assume(*c < 128);
    }
    let mut t = String::from(["", "é", "1é"][choose("prefix", 3)]);
    t.push_str(std::str::from_utf8(&b).unwrap());
    // too short for version, hash and checksum: whatever the checksum is
    check(Address::from_string(&t).is_err(), "a short text is refused");
    reach("refused");
});

/// payloads of other lengths with a right checksum
harness!(c04_payload, {
    let n = choose("len", if T { 60 } else { 34 });
    let v = [0u8, 5, 1, 111][choose("version", 4)];
    let fill = [0u8, 0xff, 0x5a][choose("fill", 3)];
    let mut raw = vec![fill; n];
    if n > 0 {
        raw[0] = v;
    }
    let c = hash2(&raw);
    let k = choose("checksum", 3);
    raw.extend_from_slice(&c[..4]);
    if k > 0 {
        let i = raw.len() - [1, 4][k - 1];
        let d = any_u8("difference");
        raw[i] ^= concretize(d as u64 & 0x81) as u8;
    }
    let good = eq(&hash2(&raw[..n])[..4], &raw[n..]);
    let t = text(&raw);
    let r = Address::from_string(std::str::from_utf8(&t).unwrap());
    let want = good && n == 21 && (v == 0 || v == 5);
    check(r.is_ok() == want, "an address is exactly 21 payload bytes of a known version with their checksum");
    if let Ok(a) = r {
        let (k, g) = bytes(&a);
        check(k == v && g == raw[1..21], "the address of the text");
        reach("accepted");
    } else {
        reach("refused");
    }
});

/// every version byte, with the right checksum, through the text
harness!(c04_versions, {
    let v = any_u8("version");
    let mut raw = vec![v];
    raw.extend_from_slice(&pattern(choose("pattern", 3)));
    let c = hash2(&raw);
    raw.extend_from_slice(&c[..4]);
    let t = app::base58::encode(&raw);
    match Address::from_string(&t) {
        Ok(a) => {
            let (k, g) = bytes(&a);
            check(k == v, "an unknown version is refused");
            check_eq(&g, &raw[1..21], "the hash bytes of the text");
            reach("accepted");
        }
        Err(_) => {
            check(v != 0 && v != 5, "the text of an address is accepted");
            reach("refused");
        }
    }
});

/// every payload of every length, as it is found in a saved index
harness!(c04_slices, {
    let n = choose("len", if T { 40 } else { 30 });
    let b = any_vec("payload", n);
    match Address::from_slice(&b) {
        Ok(a) => {
            let (k, g) = bytes(&a);
            check(n == 21, "a payload of another length is refused");
            check(k == b[0], "an unknown version is refused");
            check_eq(&g, &b[1..], "the hash bytes of the payload");
            check_eq(&a.to_vec(), &b, "and back");
            reach("accepted");
        }
        Err(_) => {
            check(n != 21 || (b[0] != 0 && b[0] != 5), "the payload of an address is accepted");
            reach("refused");
        }
    }
});
