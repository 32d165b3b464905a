//! Native side: inputs come from a model file, the verdict goes to stdout and the exit code.
use std::sync::{Arc, Condvar, Mutex};

struct Run {
    model: Vec<(String, Vec<u8>)>,
    pos: usize,
    hashes: Option<std::collections::HashMap<Vec<u8>, u64>>,
    fibers: Vec<Arc<(Mutex<bool>, Condvar)>>,
    cur: usize,
}
static mut RUN: Run = Run { model: Vec::new(), pos: 0, hashes: None, fibers: Vec::new(), cur: 0 };
fn run() -> &'static mut Run {
    unsafe { &mut RUN }
}
fn out(s: &str) {
    // straight to the kernel: the interposed functions may be in use
    let s = format!("{}\n", s);
    unsafe {
        extern "C" {
            fn write(d: i32, p: *const u8, n: usize) -> isize;
        }
        write(1, s.as_ptr(), s.len());
    }
}
fn bye(code: i32) -> ! {
    unsafe {
        extern "C" {
            fn _exit(c: i32) -> !;
        }
        _exit(code)
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// The model file has one line per input: `name<TAB>hex`.
pub fn main(table: &[(&str, fn())]) {
    let args: Vec<String> = std::env::args().collect();
    let f = match table.iter().find(|x| x.0 == args[1]) {
        Some(x) => x.1,
        None => {
            out("VRT no such harness");
            bye(2)
        }
    };
    let text = std::fs::read_to_string(&args[2]).expect("model file");
    for l in text.lines() {
        if let Some((n, h)) = l.split_once('\t') {
            run().model.push((n.to_string(), unhex(h)));
        }
    }
    run().fibers.push(Arc::new((Mutex::new(false), Condvar::new())));
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        out(&format!("VRT-PANIC {} at {}", m.replace('\n', " "), l));
    }));
    // the stack of a program's first thread
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        match std::panic::catch_unwind(f) {
            Ok(()) => {
                out("VRT-OK");
                bye(0)
            }
            Err(_) => {
                out("VRT-VIOLATION uncaught panic");
                bye(3)
            }
        }
    });
    let _ = h.unwrap().join();
    bye(5)
}

pub fn any_bytes(name: &str, b: &mut [u8]) {
    let r = run();
    if r.pos < r.model.len() {
        let (n, v) = &r.model[r.pos];
        if n != name || v.len() != b.len() {
            out(&format!("VRT-DIVERGED input {} is {} ({} bytes), expected {} ({} bytes)", r.pos, name, b.len(), n, v.len()));
            bye(6);
        }
        b.copy_from_slice(v);
    } else {
        b.fill(0);
    }
    r.pos += 1;
}
pub fn assume(b: bool) {
    if !b {
        out("VRT-ASSUME");
        bye(4)
    }
}
pub fn check(b: bool, m: &str) {
    if !b {
        out(&format!("VRT-VIOLATION {}", m));
        bye(3)
    }
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a == b
}
pub fn observe(t: &str, b: &[u8]) {
    out(&format!("VRT-OBS {}\t{}", t, hex(b)));
}
pub fn reach(t: &str) {
    out(&format!("VRT-REACH {}", t));
}
pub fn is_sym(_b: &[u8]) -> bool {
    false
}
pub fn hash(b: &[u8]) -> [u8; 32] {
    let r = run();
    let hashes = r.hashes.get_or_insert_with(Default::default);
    let n = hashes.len() as u64;
    let k = *hashes.entry(b.to_vec()).or_insert(n);
    fresh_hash(k)
}
fn fresh_hash(k: u64) -> [u8; 32] {
    let mut o = [0u8; 32];
    let mut x = k.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF1);
    for i in 0..4 {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        o[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    o
}
pub fn fail(m: &str) -> ! {
    out(&format!("VRT-VIOLATION {}", m));
    bye(3)
}
pub fn stop() -> ! {
    out("VRT-OK");
    bye(0)
}
pub fn concretize(x: u64) -> u64 {
    x
}
pub fn debug(m: &str) {
    out(&format!("VRT-DEBUG {}", m));
}

// fibers: one OS thread each, exactly one of them runs
fn park(k: usize) {
    let s = run().fibers[k].clone();
    let mut g = s.0.lock().unwrap();
    while !*g {
        g = s.1.wait(g).unwrap();
    }
    *g = false;
}
fn unpark(k: usize) {
    let s = run().fibers[k].clone();
    *s.0.lock().unwrap() = true;
    s.1.notify_one();
}
pub fn fiber_new(f: extern "C-unwind" fn(usize), a: usize) -> u64 {
    let r = run();
    r.fibers.push(Arc::new((Mutex::new(false), Condvar::new())));
    let k = r.fibers.len() - 1;
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            park(k);
            if std::panic::catch_unwind(|| f(a)).is_err() {
                out("VRT-VIOLATION uncaught panic in a task");
                bye(3)
            }
        })
        .unwrap();
    k as u64
}
pub fn fiber_switch(id: u64) {
    let me = run().cur;
    if me == id as usize {
        return;
    }
    run().cur = id as usize;
    unpark(id as usize);
    park(me);
}
pub fn fiber_cur() -> u64 {
    run().cur as u64
}
