//! Runtime of the harnesses. With cfg(vrt_sym) the primitives are intrinsics of the symbolic
//! executor; otherwise the same harness runs natively, taking its inputs from a model file.
#![allow(static_mut_refs)]
pub mod fs;
pub mod posix;
pub mod sched;

#[cfg(not(vrt_sym))]
pub mod native;
#[cfg(not(vrt_sym))]
use native as imp;

#[cfg(vrt_sym)]
mod imp {
    extern "C" {
        fn vrt_any(p: *mut u8, n: usize, name: *const u8, nl: usize);
        fn vrt_assume(b: bool);
        fn vrt_assert(b: bool, m: *const u8, ml: usize);
        fn vrt_eq(p: *const u8, q: *const u8, n: usize) -> bool;
        fn vrt_observe(t: *const u8, tl: usize, p: *const u8, n: usize);
        fn vrt_reach(t: *const u8, tl: usize);
        fn vrt_is_sym(p: *const u8, n: usize) -> bool;
        fn vrt_hash(p: *const u8, n: usize, out: *mut u8);
        fn vrt_fail(m: *const u8, ml: usize);
        fn vrt_stop();
        fn vrt_fiber_new(f: extern "C-unwind" fn(usize), a: usize) -> u64;
        fn vrt_fiber_switch(id: u64);
        fn vrt_fiber_cur() -> u64;
        fn vrt_concretize(x: u64) -> u64;
        fn vrt_debug(m: *const u8, ml: usize);
    }
    pub fn any_bytes(name: &str, b: &mut [u8]) {
        unsafe { vrt_any(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
    pub fn assume(b: bool) {
        unsafe { vrt_assume(b) }
    }
    pub fn check(b: bool, m: &str) {
        unsafe { vrt_assert(b, m.as_ptr(), m.len()) }
    }
    pub fn eq(a: &[u8], b: &[u8]) -> bool {
        a.len() == b.len() && unsafe { vrt_eq(a.as_ptr(), b.as_ptr(), a.len()) }
    }
    pub fn observe(t: &str, b: &[u8]) {
        unsafe { vrt_observe(t.as_ptr(), t.len(), b.as_ptr(), b.len()) }
    }
    pub fn reach(t: &str) {
        unsafe { vrt_reach(t.as_ptr(), t.len()) }
    }
    pub fn is_sym(b: &[u8]) -> bool {
        unsafe { vrt_is_sym(b.as_ptr(), b.len()) }
    }
    pub fn hash(b: &[u8]) -> [u8; 32] {
        let mut o = [0u8; 32];
        unsafe { vrt_hash(b.as_ptr(), b.len(), o.as_mut_ptr()) };
        o
    }
    pub fn fail(m: &str) -> ! {
        unsafe { vrt_fail(m.as_ptr(), m.len()) };
        loop {}
    }
    pub fn stop() -> ! {
        unsafe { vrt_stop() };
        loop {}
    }
    pub fn fiber_new(f: extern "C-unwind" fn(usize), a: usize) -> u64 {
        unsafe { vrt_fiber_new(f, a) }
    }
    pub fn fiber_switch(id: u64) {
        unsafe { vrt_fiber_switch(id) }
    }
    pub fn fiber_cur() -> u64 {
        unsafe { vrt_fiber_cur() }
    }
    pub fn concretize(x: u64) -> u64 {
        unsafe { vrt_concretize(x) }
    }
    pub fn debug(m: &str) {
        unsafe { vrt_debug(m.as_ptr(), m.len()) }
    }
}

/// Fill `b` with arbitrary bytes.
pub use imp::any_bytes;
/// Restrict the inputs.
pub use imp::assume;
/// The property: must hold on every path for every value.
pub use imp::check;
/// Byte-wise equality as one solver term (no fork).
pub use imp::eq;
/// Record an observable result (compared between the symbolic run and the native one).
pub use imp::observe;
/// Coverage witness.
pub use imp::reach;
pub use imp::{concretize, debug, fail, fiber_cur, fiber_new, fiber_switch, is_sym, stop};

/// Ideal hash: equal inputs give equal outputs, different inputs different ones. By default the
/// k-th distinct input of a path gets a fixed constant; with SYM_HASH it gets arbitrary bytes
/// that differ from all earlier ones.
pub fn hash(b: &[u8]) -> [u8; 32] {
    unsafe {
        if !SYM_HASH {
            return imp::hash(b);
        }
        for (i, o) in SYM_HASHES.iter() {
            if i.len() == b.len() && eq(i, b) {
                return *o;
            }
        }
        let o: [u8; 32] = any_array("hash");
        for (_, p) in SYM_HASHES.iter() {
            assume(!eq(p, &o));
        }
        SYM_HASHES.push((b.to_vec(), o));
        o
    }
}
pub static mut SYM_HASH: bool = false;
static mut SYM_HASHES: Vec<(Vec<u8>, [u8; 32])> = Vec::new();

pub const SYMBOLIC: bool = cfg!(vrt_sym);

pub fn hash2(b: &[u8]) -> [u8; 32] {
    hash(&hash(b))
}
pub fn any_u8(name: &str) -> u8 {
    let mut b = [0u8; 1];
    any_bytes(name, &mut b);
    b[0]
}
pub fn any_u16(name: &str) -> u16 {
    let mut b = [0u8; 2];
    any_bytes(name, &mut b);
    u16::from_le_bytes(b)
}
pub fn any_u32(name: &str) -> u32 {
    let mut b = [0u8; 4];
    any_bytes(name, &mut b);
    u32::from_le_bytes(b)
}
pub fn any_u64(name: &str) -> u64 {
    let mut b = [0u8; 8];
    any_bytes(name, &mut b);
    u64::from_le_bytes(b)
}
pub fn any_i64(name: &str) -> i64 {
    any_u64(name) as i64
}
pub fn any_array<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    any_bytes(name, &mut b);
    b
}
pub fn any_vec(name: &str, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    if n > 0 {
        any_bytes(name, &mut b);
    }
    b
}
/// A number below `n`, explored exhaustively (one path per feasible value).
pub fn choose(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    if n <= 256 {
        let x = any_u8(name);
        assume((x as usize) < n);
        concretize(x as u64) as usize
    } else {
        let x = any_u32(name);
        assume((x as usize) < n);
        concretize(x as u64) as usize
    }
}
/// lo..=hi
pub fn choose_in(name: &str, lo: usize, hi: usize) -> usize {
    lo + choose(name, hi - lo + 1)
}
pub fn choose_bool(name: &str) -> bool {
    choose(name, 2) == 1
}
pub fn check_eq(a: &[u8], b: &[u8], m: &str) {
    check(a.len() == b.len(), m);
    check(eq(a, b), m);
}
pub fn observe_u64(t: &str, x: u64) {
    observe(t, &x.to_le_bytes())
}
/// Run `f`; Err if it panicked.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            std::mem::forget(e);
            Err(())
        }
    }
}
/// Poll a future of the modelled runtime to completion on the current fiber.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = noop_waker();
    let mut cx = std::task::Context::from_waker(&w);
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        sched::yield_now();
    }
}
pub fn noop_waker() -> std::task::Waker {
    use std::task::{RawWaker, RawWakerVTable, Waker};
    static VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// Called first by every harness.
pub fn init() {
    if SYMBOLIC {
        std::panic::set_hook(Box::new(|_| {}));
    }
    sched::init();
    fs::init();
}

/// The order in which the association-list HashMap stores new keys: 0 = append, 1 = prepend.
pub static mut MAP_ORDER: u8 = 0;

/// An environment variable of the process under test.
pub fn set_env(name: &str, value: Option<&[u8]>) {
    posix::set_env(name, value)
}

/// From here on every variable but those set and these missing ones has this value (which ends with a zero byte).
pub fn others_env(missing: &'static [&'static str], value: &'static [u8]) {
    posix::others_env(missing, value)
}

/// harness entry: `harness!(name, { body })`
#[macro_export]
macro_rules! harness {
    ($name:ident, $body:block) => {
        #[cfg(vrt_sym)]
        #[no_mangle]
        pub fn $name() {
            $crate::init();
            $body
        }
        #[cfg(not(vrt_sym))]
        pub fn $name() {
            $crate::init();
            $body
        }
    };
}
