//! Base58: exact positional encoding, reversible, total.
use app::base58;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[
    ("c05_encode", c05_encode),
    ("c05_roundtrip", c05_roundtrip),
    ("c05_decode", c05_decode),
    ("c05_encode_into", c05_encode_into),
    ("c05_decode_into", c05_decode_into),
    ("c05_long", c05_long),
    ("c05_sizes", c05_sizes),
    ("c05_ones", c05_ones),
];

pub const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
const fn inverse() -> [u8; 256] {
    let mut t = [255u8; 256];
    let mut i = 0;
    while i < 58 {
        t[A[i] as usize] = i as u8;
        i += 1;
    }
    t
}
pub static INV: [u8; 256] = inverse();

const T: bool = cfg!(feature = "thorough");

/// text is the base58 form of b (b has at most 7 bytes)
fn judge_encoding(b: &[u8], text: &[u8]) {
    let mut zeros = 0;
    while zeros < b.len() && b[zeros] == 0 {
        zeros += 1;
    }
    check(text.len() >= zeros, "one leading '1' per leading zero byte");
    check(eq(&text[..zeros], &b"11111111"[..zeros]), "one leading '1' per leading zero byte");
    let rest = &text[zeros..];
    let mut want: u64 = 0;
    for x in &b[zeros..] {
        want = want << 8 | *x as u64;
    }
    let mut got: u64 = 0;
    let mut valid = true;
    for c in rest {
        let d = INV[*c as usize];
        valid &= d < 58;
        got = got.wrapping_mul(58).wrapping_add(d as u64);
    }
    check(valid, "only characters of the alphabet");
    check(rest.len() <= 10, "no more digits than needed");
    if rest.len() > 0 {
        check(rest[0] != b'1', "no superfluous leading digit");
    }
    check(got == want, "the digits are the number's base-58 digits");
}

harness!(c05_encode, {
    let n = choose("len", if T { 5 } else { 4 });
    let b = any_vec("bytes", n);
    let t = base58::encode(&b);
    observe("text", t.as_bytes());
    judge_encoding(&b, t.as_bytes());
    reach("encoded");
});

harness!(c05_roundtrip, {
    let n = choose("len", 4);
    let b = any_vec("bytes", n);
    let t = base58::encode(&b);
    match base58::decode(&t) {
        Ok(d) => check_eq(&d, &b, "decoding returns the encoded bytes"),
        Err(_) => check(false, "the encoded text is decodable"),
    }
    reach("roundtrip");
});

fn judge_decoding(t: &[u8], r: &Result<Vec<u8>, base58::decode::Error>) {
    use base58::decode::Error;
    let mut bad = None;
    for i in 0..t.len() {
        if INV[t[i] as usize] == 255 {
            bad = Some(i);
            break;
        }
    }
    match (r, bad) {
        (Ok(d), None) => {
            let mut ones = 0;
            while ones < t.len() && t[ones] == b'1' {
                ones += 1;
            }
            let mut v: u64 = 0;
            for c in t {
                v = v * 58 + INV[*c as usize] as u64;
            }
            check(d.len() >= ones && d.len() <= ones + 7, "decoded length");
            check(eq(&d[..ones], &[0u8; 8][..ones]), "one zero byte per leading '1'");
            let mut w: u64 = 0;
            for x in &d[ones..] {
                w = w << 8 | *x as u64;
            }
            if d.len() > ones {
                check(d[ones] != 0, "no superfluous leading byte");
            }
            check(v == w, "the bytes are the number written in base 58");
            observe("bytes", d);
            reach("decoded");
        }
        (Err(Error::InvalidCharacter { character, index }), Some(i)) => {
            check(*index == i, "the first bad character is named");
            check(t[i] < 128 && *character as u32 == t[i] as u32, "the bad character is named");
            reach("invalid");
        }
        (Err(Error::NonAsciiCharacter { character, index }), Some(i)) => {
            check(*index == i, "the first bad character is named");
            check(t[i] >= 128 && *character == t[i], "the bad character is named");
            reach("non-ascii");
        }
        _ => check(false, "texts are accepted exactly when every character is in the alphabet"),
    }
}

harness!(c05_decode, {
    let n = choose("len", if T { 5 } else { 4 });
    let t = any_vec("text", n);
    judge_decoding(&t, &base58::decode(&t));
});

harness!(c05_encode_into, {
    let n = choose("len", if T { 4 } else { 3 });
    let b = any_vec("bytes", n);
    let room = choose("room", 7);
    let mut o = any_vec("old", room);
    let t = base58::encode(&b);
    match base58::encode_into(&b, &mut o) {
        Ok(k) => {
            check(k == t.len() && k <= room, "the reported length is the length of the text");
            check_eq(&o[..k], t.as_bytes(), "the buffer's earlier content has no influence");
            reach("fits");
        }
        Err(_) => {
            check(room < t.len(), "an error only when the buffer is too small");
            reach("small");
        }
    }
});

harness!(c05_decode_into, {
    let n = choose("len", 4);
    let t = any_vec("text", n);
    for c in &t {
        assume(INV[*c as usize] != 255);
    }
    let room = choose("room", 5);
    let mut o = any_vec("old", room);
    let d = base58::decode(&t);
    check(d.is_ok(), "text over the alphabet is accepted");
    let d = d.unwrap();
    match base58::decode_into(&t, &mut o) {
        Ok(k) => {
            check(k == d.len() && k <= room, "the reported length is the number of bytes");
            check_eq(&o[..k], &d, "the buffer's earlier content has no influence");
            reach("fits");
        }
        Err(e) => {
            check(e == base58::decode::Error::BufferTooSmall, "the buffer is reported as too small");
            check(room < d.len(), "an error only when the buffer is too small");
            reach("small");
        }
    }
});

/// value of a base-58 text as bytes, most significant first: a number in 16-bit limbs
fn value(t: &[u8], n: usize) -> Vec<u8> {
    let mut limbs = vec![0u64; n / 2 + 2];
    for c in t {
        let mut carry = INV[*c as usize] as u64;
        for l in limbs.iter_mut() {
            let v = *l * 58 + carry;
            *l = v & 0xffff;
            carry = v >> 16;
        }
        check(carry == 0, "the text is no longer than needed");
    }
    let mut out = Vec::new();
    for l in limbs.iter().rev() {
        out.push((*l >> 8) as u8);
        out.push(*l as u8);
    }
    out
}

/// strings as long as those of the service, one or two bytes arbitrary
harness!(c05_long, {
    let n = if T { [8, 21, 25, 33][choose("len", 4)] } else { 25 };
    let mut b: Vec<u8> = match choose("pattern", 3) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => (0..n).map(|i| (i * 37 + 11) as u8).collect(),
    };
    let p = if T { choose("position", n) } else { [0, 1, 12, 24][choose("position", 4)] };
    b[p] = any_u8("byte");
    let t = base58::encode(&b);
    let mut zeros = 0;
    while zeros < n && b[zeros] == 0 {
        zeros += 1;
    }
    let t = t.as_bytes();
    check(t.len() >= zeros && (t.len() == zeros || t[zeros] != b'1'), "one leading '1' per leading zero byte");
    check(eq(&t[..zeros], &b"111111111111111111111111111111111111"[..zeros]), "one leading '1' per leading zero byte");
    let v = value(t, n);
    let k = v.len() - n;
    check(eq(&v[..k], &[0u8; 8][..k]), "the digits are the number's base-58 digits");
    check(eq(&v[k..], &b), "the digits are the number's base-58 digits");
    match base58::decode(t) {
        Ok(d) => check_eq(&d, &b, "decoding returns the encoded bytes"),
        Err(_) => check(false, "the encoded text is decodable"),
    }
    reach("long");
});

/// long strings: nothing panics, nothing is lost
harness!(c05_sizes, {
    let n = [34, 40, 64, 100, 200, 500, 700, 1000][choose("len", if T { 8 } else { 7 })];
    let zeros = [0, 1, 20, n / 2, n][choose("zeros", 5)];
    let mut b = vec![0u8; n];
    for i in zeros..n {
        b[i] = 0xff;
    }
    let symbolic = n <= 64 && zeros < n;
    if symbolic {
        b[n - 1] = any_u8("byte");
    }
    let t = base58::encode(&b);
    let text = t.as_bytes();
    check(text.iter().take_while(|c| **c == b'1').count() == zeros, "one leading '1' per leading zero byte");
    let mut room = vec![0x55; text.len()];
    check(base58::encode_into(&b, &mut room) == Ok(text.len()), "a buffer of the length of the text is enough");
    check_eq(&room, text, "the same text in a caller's buffer");
    match base58::decode(&t) {
        Ok(d) => check_eq(&d, &b, "decoding returns the encoded bytes"),
        Err(_) => check(false, "the encoded text is decodable"),
    }
    reach("sizes");
});

/// leading ones before one arbitrary character
harness!(c05_ones, {
    let n = choose("ones", if T { 120 } else { 60 });
    let mut t = vec![b'1'; n];
    t.push(any_u8("character"));
    let m = choose("more", 2);
    t.extend_from_slice(&b"z"[..m]);
    let d = base58::decode(&t);
    let c = INV[t[n] as usize];
    if c == 255 {
        check(matches!(d, Err(base58::decode::Error::InvalidCharacter { index, .. } | base58::decode::Error::NonAsciiCharacter { index, .. }) if index == n), "the first bad character is named");
        reach("refused");
        return;
    }
    let mut v = c as usize;
    if m > 0 {
        v = v * 58 + INV[b'z' as usize] as usize;
    }
    let mut w = vec![0u8; n + (c == 0) as usize];
    if v > 255 {
        w.push((v >> 8) as u8);
    }
    if v > 0 {
        w.push(v as u8);
    }
    match d {
        Ok(d) => check_eq(&d, &w, "one zero byte per leading '1', then the number"),
        Err(_) => check(false, "text over the alphabet is accepted"),
    }
    let mut o = vec![0x33; w.len() + choose("room", 2)];
    match base58::decode_into(&t, &mut o) {
        Ok(k) => check_eq(&o[..k], &w, "the same bytes in a caller's buffer"),
        Err(_) => check(false, "the buffer is large enough"),
    }
    reach("ones");
});
