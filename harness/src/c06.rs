//! Hexadecimal text: exact inverse, exact acceptance, reversed order.
use app::{hex, reverse_hex};
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c06_encode", c06_encode), ("c06_decode", c06_decode), ("c06_into", c06_into), ("c06_long", c06_long)];
const T: bool = cfg!(feature = "thorough");

fn digit(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }
}

harness!(c06_encode, {
    let n = choose("len", 9);
    let b = any_vec("bytes", n);
    let t = hex::encode(&b);
    let r = reverse_hex::encode(&b);
    check(t.len() == 2 * n, "hex text has two digits per byte");
    check(r.len() == 2 * n, "reversed hex text has two digits per byte");
    const D: &[u8; 16] = b"0123456789abcdef";
    for i in 0..n {
        let w = [D[(b[i] >> 4) as usize], D[(b[i] & 15) as usize]];
        check(eq(&t.as_bytes()[2 * i..2 * i + 2], &w), "hex text of a byte");
        let j = n - 1 - i;
        check(eq(&r.as_bytes()[2 * j..2 * j + 2], &w), "reversed hex text of a byte");
    }
    observe("hex", t.as_bytes());
    observe("rev", r.as_bytes());
    reach("encode");
});

/// what decoding has to say: the bytes, or the first character that is no digit, or an odd length
enum Want {
    Bytes(Vec<u8>),
    Bad(usize),
    Odd,
}
fn want(t: &[u8]) -> Want {
    if t.len() % 2 != 0 {
        return Want::Odd;
    }
    let mut v = Vec::new();
    let mut high = 0;
    for (k, c) in t.iter().enumerate() {
        match digit(*c) {
            None => return Want::Bad(k),
            Some(d) if k % 2 == 0 => high = d,
            Some(d) => v.push(high << 4 | d),
        }
    }
    Want::Bytes(v)
}
fn refusal(e: hex::Error, t: &[u8], small: bool) {
    match (e, want(t)) {
        (hex::Error::OddLength, Want::Odd) => reach("odd"),
        (hex::Error::BufferTooSmall, _) => {
            check(small, "a buffer that is large enough is not called too small");
            reach("small");
        }
        (hex::Error::InvalidHexCharacter { character, index }, Want::Bad(k)) => {
            check(index == k, "the position of the first character that is no digit");
            check(character as u32 == t[k] as u32, "the first character that is no digit");
            reach("refused");
        }
        // more than one thing is wrong: any of them may be named
        (hex::Error::OddLength, _) => check(t.len() % 2 != 0, "an even number of digits is not called odd"),
        (hex::Error::InvalidHexCharacter { index, .. }, Want::Odd) => {
            let first = t.iter().position(|c| digit(*c).is_none());
            check(first == Some(index), "the position of the first character that is no digit");
        }
        (hex::Error::InvalidHexCharacter { .. }, Want::Bytes(_)) => check(false, "hex text is accepted"),
    }
}

harness!(c06_decode, {
    let n = choose("len", if T { 9 } else { 7 });
    let t = any_vec("text", n);
    let reversed = choose_bool("reversed");
    let d = if reversed { reverse_hex::decode(&t) } else { hex::decode(&t) };
    match (d, want(&t)) {
        (Ok(d), Want::Bytes(mut w)) => {
            if reversed {
                w.reverse();
            }
            check_eq(&d, &w, "hex decoding");
            observe("bytes", &d);
            reach("accepted");
        }
        (Ok(_), _) => check(false, "text with a character that is no digit, or of odd length, is refused"),
        (Err(e), _) => refusal(e, &t, false),
    }
});

harness!(c06_into, {
    let n = choose("len", if T { 7 } else { 5 });
    let t = any_vec("text", n);
    let m = choose("buffer", if T { 6 } else { 5 });
    let mut o = any_vec("content", m);
    let reversed = choose_bool("reversed");
    let d = if reversed { reverse_hex::decode_into(&t, &mut o) } else { hex::decode_into(&t, &mut o) };
    match (d, want(&t)) {
        (Ok(k), Want::Bytes(mut w)) => {
            if reversed {
                w.reverse();
            }
            check(k == w.len(), "the length of the bytes");
            check(k <= m, "no more than the buffer holds");
            check_eq(&o[..k], &w, "hex decoding into a buffer");
            reach("into");
        }
        (Ok(_), _) => check(false, "text with a character that is no digit, or of odd length, is refused"),
        (Err(e), _) => refusal(e, &t, m < (n + 1) / 2),
    }
});

/// longer texts with one arbitrary character
harness!(c06_long, {
    let n = [2, 20, 32, 64, 80][choose("len", 5)];
    let b: Vec<u8> = (0..n).map(|k| (k * 73 + 5) as u8).collect();
    let reversed = choose_bool("reversed");
    let mut t = if reversed { reverse_hex::encode(&b) } else { hex::encode(&b) }.into_bytes();
    check(t.len() == 2 * n, "two digits per byte");
    let p = [0, 1, n, 2 * n - 2, 2 * n - 1][choose("position", 5)];
    t[p] = any_u8("character");
    let mut o = vec![any_u8("content"); [n, n + 3, n + 40][choose("buffer", 3)]];
    let d = if reversed { reverse_hex::decode_into(&t, &mut o) } else { hex::decode_into(&t, &mut o) };
    let v = if reversed { reverse_hex::decode(&t) } else { hex::decode(&t) };
    match (d, v, want(&t)) {
        (Ok(k), Ok(v), Want::Bytes(mut w)) => {
            if reversed {
                w.reverse();
            }
            check_eq(&o[..k], &w, "hex decoding into a buffer");
            check_eq(&v, &w, "hex decoding");
            reach("long");
        }
        (Err(a), Err(b), _) => {
            refusal(a, &t, false);
            refusal(b, &t, false);
        }
        _ => check(false, "both ways of decoding agree, and with the digits"),
    }
});
