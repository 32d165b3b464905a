//! Output scripts and addresses: exactly the two standard templates.
use app::address::Address;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c03_script", c03_script), ("c03_long", c03_long), ("c03_huge", c03_huge)];

fn judge(s: &[u8]) {
    let n = s.len();
    // the templates, written as one condition each
    let kh = n == 25 && eq(&s[..3], &[0x76, 0xa9, 20]) && eq(&s[23..], &[0x88, 0xac]);
    let sh = n == 23 && eq(&s[..2], &[0xa9, 20]) && eq(&s[22..], &[0x87]);
    match Address::from_script(s) {
        Ok(Address::P2PKH(h)) => {
            check(kh, "only the exact pay-to-public-key-hash script is a key-hash address");
            check(h.len() == 20 && eq(&h, &s[3..23]), "the address carries the 20 hash bytes of the script");
            observe("hash", &h);
            reach("p2pkh");
        }
        Ok(Address::P2SH(h)) => {
            check(sh, "only the exact pay-to-script-hash script is a script-hash address");
            check(h.len() == 20 && eq(&h, &s[2..22]), "the address carries the 20 hash bytes of the script");
            observe("hash", &h);
            reach("p2sh");
        }
        Err(_) => {
            check(!kh, "a pay-to-public-key-hash script has an address");
            check(!sh, "a pay-to-script-hash script has an address");
            reach("none");
        }
    }
}

harness!(c03_script, {
    let n = choose("len", if cfg!(feature = "thorough") { 80 } else { 41 });
    let s = any_vec("script", n);
    judge(&s);
});

/// longer scripts that begin or end like a template
harness!(c03_long, {
    let n = choose_in("len", 41, if cfg!(feature = "thorough") { 600 } else { 110 });
    let mut s = any_vec("script", n);
    match choose("shape", 4) {
        0 => s[..3].copy_from_slice(&[0x76, 0xa9, 20]),
        1 => s[n - 2..].copy_from_slice(&[0x88, 0xac]),
        2 => {
            s[..2].copy_from_slice(&[0xa9, 20]);
            s[22] = 0x87
        }
        _ => {}
    }
    judge(&s);
});

/// lengths that are those of a template plus a power of two
harness!(c03_huge, {
    let n = [256usize, 512, 65_536, 131_072][choose("more", 4)] + [23usize, 25][choose("len", 2)];
    let p2sh = choose_bool("shape");
    let mut s: Vec<u8> = (0..n).map(|k| (k * 7 + 1) as u8).collect();
    let m = if p2sh { 23 } else { 25 };
    any_bytes("first", &mut s[..30]);
    any_bytes("last", &mut s[n - 30..]);
    let (b, e): (&[u8], &[u8]) = if p2sh { (&[0xa9, 20], &[0x87]) } else { (&[0x76, 0xa9, 20], &[0x88, 0xac]) };
    // like a template at one or at both ends
    if choose_bool("begins") {
        s[..b.len()].copy_from_slice(b);
        s[m - e.len()..m].copy_from_slice(e);
    }
    if choose_bool("ends") {
        s[n - m..n - m + b.len()].copy_from_slice(b);
        s[n - e.len()..].copy_from_slice(e);
    }
    judge(&s);
});
