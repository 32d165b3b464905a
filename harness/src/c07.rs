//! Base64: standard padded text, reversible; malformed text is an error, never a crash.
use app::base64;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c07_encode", c07_encode), ("c07_decode", c07_decode), ("c07_into", c07_into), ("c07_long", c07_long), ("c07_encode_into", c07_encode_into)];

const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const T: bool = cfg!(feature = "thorough");

fn reference(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let n = (b.len() - i).min(3);
        let x = b[i] as u32;
        let y = if n > 1 { b[i + 1] as u32 } else { 0 };
        let z = if n > 2 { b[i + 2] as u32 } else { 0 };
        out.push(A[(x >> 2) as usize]);
        out.push(A[((x & 3) << 4 | y >> 4) as usize]);
        out.push(if n > 1 { A[((y & 15) << 2 | z >> 6) as usize] } else { b'=' });
        out.push(if n > 2 { A[(z & 63) as usize] } else { b'=' });
        i += 3;
    }
    out
}

harness!(c07_encode, {
    let n = choose("len", if T { 32 } else { 14 });
    let b = any_vec("bytes", n);
    let t = base64::encode(&b);
    check_eq(t.as_bytes(), &reference(&b), "standard padded base64");
    observe("text", t.as_bytes());
    match base64::decode(&t) {
        Ok(d) => check_eq(&d, &b, "decoding returns the encoded bytes"),
        Err(_) => check(false, "the encoded text is decodable"),
    }
    reach("encoded");
});

harness!(c07_encode_into, {
    let n = choose("len", 8);
    let b = any_vec("bytes", n);
    let w = reference(&b);
    let room = choose("room", 14);
    let mut o = any_vec("old", room);
    match base64::encode_into(&b, &mut o) {
        Ok(k) => {
            check(k == w.len() && k <= room, "the reported length is the length of the text");
            check_eq(&o[..k], &w, "the buffer's earlier content has no influence");
            reach("fits");
        }
        Err(_) => {
            check(room < w.len(), "an error only when the buffer is too small");
            reach("small");
        }
    }
});

fn digit(c: u8) -> bool {
    c >= b'A' && c <= b'Z' || c >= b'a' && c <= b'z' || c >= b'0' && c <= b'9' || c == b'+' || c == b'/'
}

harness!(c07_decode, {
    let n = choose("len", if T { 8 } else { 6 });
    let t = any_vec("text", n);
    match base64::decode(&t) {
        Ok(d) => {
            check(d.len() * 8 <= n * 6, "no more bytes than the text can hold");
            // over the alphabet: the first byte is made of the first two digits
            observe("bytes", &d);
            reach("bytes");
        }
        Err(_) => reach("error"),
    }
});

harness!(c07_into, {
    let n = choose("len", 6);
    let t = any_vec("text", n);
    let room = choose("room", 5);
    let mut o = any_vec("old", room);
    let d = base64::decode(&t);
    match base64::decode_into(&t, &mut o) {
        Ok(k) => {
            check(k <= room, "no more bytes than the buffer holds");
            if let Ok(d) = d {
                check_eq(&o[..k], &d, "the same bytes with and without a caller's buffer");
                reach("fits");
            } else {
                // malformed text may be taken either way
                reach("malformed");
            }
        }
        Err(_) => reach("error"),
    }
});

/// longer strings: the same, in and out of a caller's buffer
harness!(c07_long, {
    let n = 14 + choose("len", if T { 300 } else { 127 });
    // and some far longer ones
    let n = if n < 134 || T { n } else { [200, 255, 256, 257, 300, 1000, 3001][n - 134] };
    let mut b: Vec<u8> = (0..n).map(|k| (k * 73 + 5) as u8).collect();
    let p = [0, n / 2, n - 1][choose("position", 3)];
    b[p] = any_u8("byte");
    let t = base64::encode(&b);
    let w = reference(&b);
    check_eq(t.as_bytes(), &w, "standard padded base64");
    let mut o = vec![7; w.len() + choose("room", 3)];
    match base64::encode_into(&b, &mut o) {
        Ok(k) => check_eq(&o[..k], &w, "the same text in a caller's buffer"),
        Err(_) => check(false, "the buffer is large enough"),
    }
    match base64::decode(&t) {
        Ok(d) => check_eq(&d, &b, "decoding returns the encoded bytes"),
        Err(_) => check(false, "the encoded text is decodable"),
    }
    let mut o = vec![7; n];
    match base64::decode_into(&t, &mut o) {
        Ok(k) => check_eq(&o[..k], &b, "the same bytes in a caller's buffer"),
        Err(_) => check(false, "a buffer of the length of the bytes is enough"),
    }
    reach("long");
});
