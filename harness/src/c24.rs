//! Settings from the environment.
use app::configuration::Configuration;
use std::net::IpAddr;
use vrt::*;

pub const TABLE: &[(&str, fn())] = &[("c24_values", c24_values), ("c24_missing", c24_missing), ("c24_numbers", c24_numbers), ("c24_limits", c24_limits), ("c24_host", c24_host), ("c24_encoding", c24_encoding), ("c24_others", c24_others)];
const T: bool = cfg!(feature = "thorough");

const ALL: [&str; 12] = [
    "HOST", "PORT", "THREADS", "BATCH_SIZE", "STORE_FILE_PATH", "BLOCK_FILES_PATH", "UPDATE_INTERVAL", "CONFIRMATIONS", "RPC_SERVER_HOST", "RPC_SERVER_PORT",
    "RPC_SERVER_USER", "RPC_SERVER_PASSWORD",
];
const VALUES: [&str; 12] = ["10.1.2.3", "8123", "7", "1234", "/data/store", "/data/blocks", "2500", "9", "node.example", "8332", "alice", "s3cret"];
/// numeric settings: name, largest value
const NUMBERS: [(&str, u64); 6] =
    [("PORT", 65535), ("THREADS", u64::MAX), ("BATCH_SIZE", u64::MAX), ("UPDATE_INTERVAL", u64::MAX), ("CONFIRMATIONS", u64::MAX), ("RPC_SERVER_PORT", 65535)];

fn set_all() {
    for (n, v) in ALL.iter().zip(&VALUES) {
        set_env(n, Some(v.as_bytes()));
    }
}
fn number(c: &Configuration, name: &str) -> u64 {
    match name {
        "PORT" => c.port() as u64,
        "THREADS" => c.threads() as u64,
        "BATCH_SIZE" => c.batch_size() as u64,
        "UPDATE_INTERVAL" => c.update_interval(),
        "CONFIRMATIONS" => c.confirmations() as u64,
        _ => c.rpc_server_port() as u64,
    }
}
fn text<'a>(c: &'a Configuration, name: &str) -> &'a str {
    match name {
        "STORE_FILE_PATH" => c.store_file_path(),
        "BLOCK_FILES_PATH" => c.block_files_path(),
        "RPC_SERVER_HOST" => c.rpc_server_host(),
        "RPC_SERVER_USER" => c.rpc_server_user(),
        _ => c.rpc_server_password(),
    }
}
/// Every setting but one has the value of VALUES.
fn others(c: &Configuration, but: &str) {
    const M: &str = "every setting takes the value of its own variable";
    for (n, v) in ALL.iter().zip(&VALUES) {
        if *n == but {
        } else if *n == "HOST" {
            check(c.host() == v.parse::<IpAddr>().unwrap(), M);
        } else if NUMBERS.iter().any(|x| x.0 == *n) {
            check(number(c, n) == v.parse::<u64>().unwrap(), M);
        } else {
            check(text(c, n) == *v, M);
        }
    }
}
// Text settings with arbitrary content.
harness!(c24_values, {
    set_all();
    let names = ["STORE_FILE_PATH", "BLOCK_FILES_PATH", "RPC_SERVER_HOST", "RPC_SERVER_USER", "RPC_SERVER_PASSWORD"];
    let n = names[choose("setting", 5)];
    let v = any_vec("value", choose("length", if T { 7 } else { 5 }));
    for b in &v {
        assume((*b != 0) & (*b < 128));
    }
    set_env(n, Some(&v));
    let c = Configuration::new();
    check_eq(text(&c, n).as_bytes(), &v, "the value is exactly that of the variable");
    others(&c, n);
    reach("text");
});
// Any one, two or three settings missing.
harness!(c24_missing, {
    set_all();
    let mut gone = Vec::new();
    for _ in 0..if T { 3 } else { 2 } {
        gone.push(ALL[choose("missing", 12)]);
    }
    for g in &gone {
        set_env(g, None);
    }
    check_missing(&gone);
});
fn check_missing(gone: &[&str]) {
    let optional = ["HOST", "PORT", "UPDATE_INTERVAL", "CONFIRMATIONS"];
    let must = gone.iter().any(|g| !optional.contains(g));
    match catch(|| Configuration::new()) {
        Err(_) => {
            check(must, "only mandatory settings are needed");
            reach("refused");
        }
        Ok(c) => {
            check(!must, "a missing mandatory setting stops the start");
            let is = |n: &str| gone.contains(&n);
            check(c.host() == if is("HOST") { "127.0.0.1" } else { VALUES[0] }.parse::<IpAddr>().unwrap(), "default host 127.0.0.1");
            check(c.port() == if is("PORT") { 8000 } else { 8123 }, "default port 8000");
            check(c.update_interval() == if is("UPDATE_INTERVAL") { 1000 } else { 2500 }, "default interval 1000 ms");
            check(c.confirmations() == if is("CONFIRMATIONS") { 6 } else { 9 }, "default of 6 confirmations");
            check(c.threads() == 7 && c.batch_size() == 1234 && c.rpc_server_port() == 8332, "the others keep their values");
            for n in ["STORE_FILE_PATH", "BLOCK_FILES_PATH", "RPC_SERVER_HOST", "RPC_SERVER_USER", "RPC_SERVER_PASSWORD"] {
                check(text(&c, n) == VALUES[ALL.iter().position(|x| *x == n).unwrap()], "the others keep their values");
            }
            reach("defaults");
        }
    }
}
// Variables of any other name do not matter.
harness!(c24_others, {
    set_all();
    let k = choose("missing", 13);
    let mut gone = Vec::new();
    if k < 12 {
        gone.push(ALL[k]);
        set_env(ALL[k], None);
    }
    others_env(&ALL, [&b"5\0"[..], b"6.7.8.9\0", b"\0"][choose("value", 3)]);
    check_missing(&gone);
});
/// decimal digits with an optional plus sign
fn reference(v: &[u8], max: u64) -> Option<u64> {
    let d = if v.first() == Some(&b'+') { &v[1..] } else { v };
    if d.is_empty() {
        return None;
    }
    let mut x: u128 = 0;
    for b in d {
        if *b < b'0' || *b > b'9' {
            return None;
        }
        x = x * 10 + (*b - b'0') as u128;
        if x > max as u128 {
            return None;
        }
    }
    Some(x as u64)
}
fn check_number(name: &str, max: u64, v: &[u8]) {
    set_env(name, Some(v));
    let want = reference(v, max);
    match catch(|| Configuration::new()) {
        Ok(c) => {
            match want {
                Some(w) => check(number(&c, name) == w, "the number is that of the variable"),
                None => check(false, "what is no number in range stops the start"),
            }
            others(&c, name);
            observe_u64("number", number(&c, name));
            reach("number");
        }
        Err(_) => {
            check(want.is_none(), "every number in range is accepted");
            reach("refused");
        }
    }
}
// Numbers from any text.
harness!(c24_numbers, {
    set_all();
    let (name, max) = NUMBERS[choose("setting", 6)];
    let v = any_vec("value", choose("length", if T { 7 } else { 6 }));
    for b in &v {
        assume((*b != 0) & (*b < 128));
    }
    check_number(name, max, &v);
});
harness!(c24_limits, {
    set_all();
    let (name, max) = NUMBERS[choose("setting", 6)];
    let v = [
        "65535", "65536", "+65535", "065535", "99999", "100000", "4294967295", "4294967296", "9223372036854775808", "18446744073709551615", "18446744073709551616",
        "018446744073709551615", "99999999999999999999", "184467440737095516150", "1e3", "0x10", "1 ", " 1", "-0", "1.0", "1_000", "\u{0661}", "",
    ];
    check_number(name, max, v[choose("value", v.len())].as_bytes());
});
// The address to listen on: any text one character away from some addresses.
harness!(c24_host, {
    set_all();
    let texts = ["0.0.0.0", "255.1.20.3", "::1", "fe80::1", "localhost", "", "1.2.3", "256.1.1.1", "::ffff:1.2.3.4"];
    let mut v = texts[choose("text", texts.len())].as_bytes().to_vec();
    if choose_bool("changed") {
        let p = choose("position", v.len() + 1);
        let c = b"0159.:afgx/ -"[choose("character", 13)];
        if p < v.len() && choose_bool("replaced") {
            v[p] = c;
        } else {
            v.insert(p, c);
        }
    }
    set_env("HOST", Some(&v));
    let want = std::str::from_utf8(&v).unwrap().parse::<IpAddr>();
    match catch(|| Configuration::new()) {
        Ok(c) => {
            check(want == Ok(c.host()), "the host is that of the variable");
            others(&c, "HOST");
            reach("host");
        }
        Err(_) => {
            check(want.is_err(), "every address is accepted");
            reach("refused");
        }
    }
});
// A value that is not text is present but cannot be taken: it stops the start.
harness!(c24_encoding, {
    set_all();
    let k = choose("setting", 12);
    let mut v = VALUES[k].as_bytes().to_vec();
    let x = any_u8("byte");
    assume(x >= 0x80);
    let p = choose("position", v.len() + 1);
    v.insert(p, x);
    set_env(ALL[k], Some(&v));
    check(catch(|| Configuration::new()).is_err(), "an unusable value is not replaced by a default");
    reach("refused");
});
