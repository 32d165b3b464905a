//! libc entry points over the models. In the symbolic build the functions are named
//! vrt_posix_NAME and the executor redirects calls of NAME to them; in the native build they
//! are interposed under their own names and fall through to the kernel for everything else.
#![allow(clippy::missing_safety_doc, unknown_lints, invalid_runtime_symbol_definitions)]
use crate::fs;

extern "C" {
    fn __errno_location() -> *mut i32;
    fn strlen(p: *const u8) -> usize;
    fn malloc(n: usize) -> *mut u8;
}
unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    std::slice::from_raw_parts(p, strlen(p))
}
unsafe fn err(e: i32) -> i64 {
    *__errno_location() = e;
    -1
}
unsafe fn ret<T>(r: Result<T, i32>, f: impl FnOnce(T) -> i64) -> i64 {
    match r {
        Ok(v) => f(v),
        Err(e) => err(e),
    }
}

#[cfg(not(vrt_sym))]
unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") 0i64, in("r9") 0i64,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        return err(-r as i32);
    }
    r
}
fn model_fd(n: i32) -> bool {
    n >= fs::FD0 && fs::active()
}

macro_rules! posix {
    ($(fn $name:ident / $sym:ident ($($a:ident : $t:ty),*) -> $r:ty { if $cond:expr => $body:expr ; else $other:expr })*) => {
        $(
            #[cfg(vrt_sym)]
            #[no_mangle]
            pub unsafe extern "C-unwind" fn $sym($($a: $t),*) -> $r {
                ($body) as $r
            }
            #[cfg(not(vrt_sym))]
            #[no_mangle]
            pub unsafe extern "C-unwind" fn $name($($a: $t),*) -> $r {
                if $cond { ($body) as $r } else { ($other) as $r }
            }
        )*
    };
}

pub struct Dir {
    names: Vec<Vec<u8>>,
    pos: usize,
    ent: [u64; 35],
    model: bool,
    fd: i32,
}
/// 0: the listing order is the order of creation, 1: reversed
pub static mut DIR_REVERSED: bool = false;

unsafe fn fill_stat(x: fs::St, p: *mut u8) -> i64 {
    std::ptr::write_bytes(p, 0, 144);
    *(p as *mut u64) = 1;
    *(p.add(8) as *mut u64) = x.2 as u64;
    *(p.add(16) as *mut u64) = 1;
    *(p.add(24) as *mut u32) = x.0;
    *(p.add(48) as *mut i64) = x.1 as i64;
    *(p.add(56) as *mut i64) = 4096;
    0
}
unsafe fn fill_statx(x: fs::St, p: *mut u8) -> i64 {
    std::ptr::write_bytes(p, 0, 256);
    *(p as *mut u32) = 0x7ff;
    *(p.add(4) as *mut u32) = 4096;
    *(p.add(16) as *mut u32) = 1;
    *(p.add(28) as *mut u16) = x.0 as u16;
    *(p.add(32) as *mut u64) = x.2 as u64;
    *(p.add(40) as *mut u64) = x.1 as u64;
    0
}
unsafe fn iov<'a>(v: *const usize, n: i32, k: i32) -> &'a mut [u8] {
    let _ = n;
    let p = *v.add(2 * k as usize);
    let l = *v.add(2 * k as usize + 1);
    if l == 0 {
        return &mut [];
    }
    std::slice::from_raw_parts_mut(p as *mut u8, l)
}
unsafe fn buf<'a>(p: *mut u8, n: usize) -> &'a mut [u8] {
    if n == 0 {
        &mut []
    } else {
        std::slice::from_raw_parts_mut(p, n)
    }
}

posix! {
    fn open64 / vrt_posix_open64(p: *const u8, fl: i32, mode: u32) -> i32 {
        if fs::owns(cstr(p)) => { let _ = mode; ret(fs::open(cstr(p), fl), |x| x as i64) };
        else sys(2, p as i64, fl as i64, mode as i64, 0)
    }
    fn open / vrt_posix_open(p: *const u8, fl: i32, mode: u32) -> i32 {
        if fs::owns(cstr(p)) => { let _ = mode; ret(fs::open(cstr(p), fl), |x| x as i64) };
        else sys(2, p as i64, fl as i64, mode as i64, 0)
    }
    fn read / vrt_posix_read(d: i32, p: *mut u8, n: usize) -> isize {
        if model_fd(d) => ret(fs::read(d, buf(p, n), None), |x| x as i64);
        else sys(0, d as i64, p as i64, n as i64, 0)
    }
    fn pread64 / vrt_posix_pread64(d: i32, p: *mut u8, n: usize, o: i64) -> isize {
        if model_fd(d) => ret(fs::read(d, buf(p, n), Some(o as usize)), |x| x as i64);
        else sys(17, d as i64, p as i64, n as i64, o)
    }
    fn readv / vrt_posix_readv(d: i32, v: *const usize, n: i32) -> isize {
        if model_fd(d) => { let mut t = 0; let mut e = 0; for k in 0..n { let b = iov(v, n, k); let l = b.len();
            match fs::read(d, b, None) { Ok(x) => { t += x as i64; if x < l { break } } Err(x) => { e = x; break } } }
            if e != 0 && t == 0 { err(e) } else { t } };
        else sys(19, d as i64, v as i64, n as i64, 0)
    }
    fn write / vrt_posix_write(d: i32, p: *mut u8, n: usize) -> isize {
        if model_fd(d) => if d < fs::FD0 { n as i64 } else { ret(fs::write(d, buf(p, n), None), |x| x as i64) };
        else sys(1, d as i64, p as i64, n as i64, 0)
    }
    fn pwrite64 / vrt_posix_pwrite64(d: i32, p: *mut u8, n: usize, o: i64) -> isize {
        if model_fd(d) => ret(fs::write(d, buf(p, n), Some(o as usize)), |x| x as i64);
        else sys(18, d as i64, p as i64, n as i64, o)
    }
    fn writev / vrt_posix_writev(d: i32, v: *const usize, n: i32) -> isize {
        if model_fd(d) => { let mut t = 0; let mut e = 0; for k in 0..n { let b = iov(v, n, k);
            if d < fs::FD0 { t += b.len() as i64; continue }
            match fs::write(d, b, None) { Ok(x) => { t += x as i64; if x < b.len() { break } } Err(x) => { e = x; break } } }
            if e != 0 && t == 0 { err(e) } else { t } };
        else sys(20, d as i64, v as i64, n as i64, 0)
    }
    fn lseek64 / vrt_posix_lseek64(d: i32, o: i64, w: i32) -> i64 {
        if model_fd(d) => ret(fs::lseek(d, o, w), |x| x);
        else sys(8, d as i64, o, w as i64, 0)
    }
    fn close / vrt_posix_close(d: i32) -> i32 {
        if model_fd(d) => ret(fs::close(d), |_| 0);
        else sys(3, d as i64, 0, 0, 0)
    }
    fn fsync / vrt_posix_fsync(d: i32) -> i32 {
        if model_fd(d) => ret(fs::fsync(d), |_| 0);
        else sys(74, d as i64, 0, 0, 0)
    }
    fn fdatasync / vrt_posix_fdatasync(d: i32) -> i32 {
        if model_fd(d) => ret(fs::fsync(d), |_| 0);
        else sys(75, d as i64, 0, 0, 0)
    }
    fn ftruncate64 / vrt_posix_ftruncate64(d: i32, n: i64) -> i32 {
        if model_fd(d) => ret(fs::ftruncate(d, n as usize), |_| 0);
        else sys(77, d as i64, n, 0, 0)
    }
    fn rename / vrt_posix_rename(a: *const u8, b: *const u8) -> i32 {
        if fs::owns(cstr(a)) => ret(fs::rename(cstr(a), cstr(b)), |_| 0);
        else sys(82, a as i64, b as i64, 0, 0)
    }
    fn link / vrt_posix_link(a: *const u8, b: *const u8) -> i32 {
        if fs::owns(cstr(a)) => ret(fs::link(cstr(a), cstr(b)), |_| 0);
        else sys(86, a as i64, b as i64, 0, 0)
    }
    fn linkat / vrt_posix_linkat(x: i32, a: *const u8, y: i32, b: *const u8, f: i32) -> i32 {
        if fs::owns(cstr(a)) => { let _ = (x, y, f); ret(fs::link(cstr(a), cstr(b)), |_| 0) };
        else err(38)
    }
    fn unlink / vrt_posix_unlink(a: *const u8) -> i32 {
        if fs::owns(cstr(a)) => ret(fs::unlink(cstr(a)), |_| 0);
        else sys(87, a as i64, 0, 0, 0)
    }
    fn mkdir / vrt_posix_mkdir(a: *const u8, m: u32) -> i32 {
        if fs::owns(cstr(a)) => { let _ = m; ret(fs::make_dir(cstr(a)), |_| 0) };
        else sys(83, a as i64, m as i64, 0, 0)
    }
    fn access / vrt_posix_access(a: *const u8, m: i32) -> i32 {
        if fs::owns(cstr(a)) => { let _ = m; ret(fs::stat(cstr(a)), |_| 0) };
        else sys(21, a as i64, m as i64, 0, 0)
    }
    fn stat64 / vrt_posix_stat64(a: *const u8, s: *mut u8) -> i32 {
        if fs::owns(cstr(a)) => ret(fs::stat(cstr(a)), |x| fill_stat(x, s));
        else sys(4, a as i64, s as i64, 0, 0)
    }
    fn lstat64 / vrt_posix_lstat64(a: *const u8, s: *mut u8) -> i32 {
        if fs::owns(cstr(a)) => ret(fs::lstat(cstr(a)), |x| fill_stat(x, s));
        else sys(6, a as i64, s as i64, 0, 0)
    }
    fn fstat64 / vrt_posix_fstat64(d: i32, s: *mut u8) -> i32 {
        if model_fd(d) => ret(fs::fstat(d), |x| fill_stat(x, s));
        else sys(5, d as i64, s as i64, 0, 0)
    }
    fn statx / vrt_posix_statx(d: i32, a: *const u8, f: i32, m: u32, s: *mut u8) -> i32 {
        if model_fd(d) || (!a.is_null() && fs::owns(cstr(a))) => { let _ = m;
            if !a.is_null() && strlen(a) > 0 { let a = below(d, cstr(a));
                ret(if f & 0x100 != 0 { fs::lstat(&a) } else { fs::stat(&a) }, |x| fill_statx(x, s)) }
            else if f & 0x1000 != 0 { ret(fs::fstat(d), |x| fill_statx(x, s)) } else { err(14) } };
        else { let r: i64; std::arch::asm!("syscall", inlateout("rax") 332i64 => r, in("rdi") d as i64, in("rsi") a, in("rdx") f as i64, in("r10") m as i64, in("r8") s,
                lateout("rcx") _, lateout("r11") _, options(nostack)); if r < 0 { err(-r as i32) } else { r } }
    }
    fn flock / vrt_posix_flock(d: i32, o: i32) -> i32 {
        if model_fd(d) => { let _ = o; 0 };
        else sys(73, d as i64, o as i64, 0, 0)
    }
    fn readlink / vrt_posix_readlink(a: *const u8, p: *mut u8, n: usize) -> isize {
        if fs::owns(cstr(a)) => ret(fs::readlink(cstr(a)), |x| { let k = x.len().min(n); buf(p, n)[..k].copy_from_slice(&x[..k]); k as i64 });
        else sys(89, a as i64, p as i64, n as i64, 0)
    }
    fn realpath / vrt_posix_realpath(a: *const u8, p: *mut u8) -> *mut u8 {
        if fs::owns(cstr(a)) => { match fs::realpath(cstr(a)) {
            Ok(x) => { let q = if p.is_null() { malloc(x.len() + 1) } else { p }; buf(q, x.len()).copy_from_slice(&x); *q.add(x.len()) = 0; q }
            Err(e) => { err(e); std::ptr::null_mut() } } };
        else { err(38); std::ptr::null_mut::<u8>() }
    }
    fn chmod / vrt_posix_chmod(a: *const u8, m: u32) -> i32 {
        if fs::owns(cstr(a)) => { let _ = m; ret(fs::stat(cstr(a)), |_| 0) };
        else sys(90, a as i64, m as i64, 0, 0)
    }
    fn fchmod / vrt_posix_fchmod(d: i32, m: u32) -> i32 {
        if model_fd(d) => { let _ = m; ret(fs::fstat(d), |_| 0) };
        else sys(91, d as i64, m as i64, 0, 0)
    }
    // not supported between files of the model: the standard library copies with read and write
    fn copy_file_range / vrt_posix_copy_file_range(a: i32, x: *mut i64, b: i32, y: *mut i64, n: usize, f: u32) -> isize {
        if model_fd(a) || model_fd(b) => { let _ = (x, y, n, f); err(38) };
        else { let _ = (x, y, n, f); err(38) }
    }
    fn sendfile64 / vrt_posix_sendfile64(a: i32, b: i32, x: *mut i64, n: usize) -> isize {
        if model_fd(a) || model_fd(b) => { let _ = (x, n); err(38) };
        else sys(40, a as i64, b as i64, x as i64, n as i64)
    }
    fn splice / vrt_posix_splice(a: i32, x: *mut i64, b: i32, y: *mut i64, n: usize, f: u32) -> isize {
        if model_fd(a) || model_fd(b) => { let _ = (x, y, n, f); err(38) };
        else { let _ = (x, y, n, f); err(38) }
    }
    fn clock_gettime / vrt_posix_clock_gettime(c: i32, t: *mut i64) -> i32 {
        if clock_modelled() => read_clock(c, t);
        else sys(228, c as i64, t as i64, 0, 0)
    }
}

/// the directories opened so far, by the number of their stream's descriptor
static mut DIRS: Vec<Vec<u8>> = Vec::new();
/// the path a call relative to a directory's descriptor names
unsafe fn below(d: i32, p: &[u8]) -> Vec<u8> {
    let k = (d - fs::FD0 - 100000) as usize;
    if p.first() == Some(&b'/') || d < fs::FD0 + 100000 || k >= DIRS.len() {
        return p.to_vec();
    }
    let mut r = DIRS[k].clone();
    r.push(b'/');
    r.extend_from_slice(p);
    r
}
// directory streams: in the native build only directories of the model are handled here, the
// harness never lists others
#[cfg_attr(vrt_sym, export_name = "vrt_posix_opendir")]
#[cfg_attr(not(vrt_sym), no_mangle)]
pub unsafe extern "C-unwind" fn opendir(p: *const u8) -> *mut Dir {
    let path = cstr(p);
    if !fs::owns(path) || !fs::is_dir(path) {
        err(fs::ENOENT);
        return std::ptr::null_mut();
    }
    let mut names = fs::dir_names(path);
    if DIR_REVERSED {
        names.reverse();
    }
    names.insert(0, b"..".to_vec());
    names.insert(0, b".".to_vec());
    DIRS.push(path.to_vec());
    Box::into_raw(Box::new(Dir { names, pos: 0, ent: [0; 35], model: true, fd: fs::FD0 + 100000 + DIRS.len() as i32 - 1 }))
}
#[cfg_attr(vrt_sym, export_name = "vrt_posix_readdir64")]
#[cfg_attr(not(vrt_sym), no_mangle)]
pub unsafe extern "C-unwind" fn readdir64(d: *mut Dir) -> *mut u8 {
    let d = &mut *d;
    let _ = d.model;
    if d.pos >= d.names.len() {
        return std::ptr::null_mut();
    }
    let n = &d.names[d.pos];
    d.pos += 1;
    let p = d.ent.as_mut_ptr() as *mut u8;
    *(p as *mut u64) = d.pos as u64;
    *(p.add(8) as *mut i64) = d.pos as i64;
    *(p.add(16) as *mut u16) = 280;
    *p.add(18) = 0;
    std::ptr::copy_nonoverlapping(n.as_ptr(), p.add(19), n.len());
    *p.add(19 + n.len()) = 0;
    p
}
#[cfg_attr(vrt_sym, export_name = "vrt_posix_closedir")]
#[cfg_attr(not(vrt_sym), no_mangle)]
pub unsafe extern "C-unwind" fn closedir(d: *mut Dir) -> i32 {
    drop(Box::from_raw(d));
    0
}
#[cfg_attr(vrt_sym, export_name = "vrt_posix_dirfd")]
#[cfg_attr(not(vrt_sym), no_mangle)]
pub unsafe extern "C-unwind" fn dirfd(d: *mut Dir) -> i32 {
    (*d).fd
}

// ---- clock ------------------------------------------------------------------
/// Some: called for every reading (clock id, number of the reading) -> (seconds, nanoseconds)
pub static mut CLOCK: Option<fn(i32, usize) -> (i64, i64)> = None;
static mut READINGS: usize = 0;
fn clock_modelled() -> bool {
    unsafe { CLOCK.is_some() }
}
unsafe fn read_clock(c: i32, t: *mut i64) -> i64 {
    let k = READINGS;
    READINGS += 1;
    let (s, n) = match CLOCK {
        Some(f) => f(c, k),
        None => (1_700_000_000, 1_000_000 * (k as i64 % 900)),
    };
    *t = s;
    *t.add(1) = n;
    0
}

// ---- environment ------------------------------------------------------------
/// What any variable has that is neither set nor known to be missing (those of Rust itself apart).
static mut OTHER: Option<(&'static [&'static str], &'static [u8])> = None;
pub fn others_env(missing: &'static [&'static str], value: &'static [u8]) {
    unsafe { OTHER = Some((missing, value)) }
}
unsafe fn other_env(n: &[u8]) -> *const u8 {
    match OTHER {
        Some((missing, value)) if !n.starts_with(b"RUST") && !missing.iter().any(|m| m.as_bytes() == n) => value.as_ptr(),
        _ => std::ptr::null(),
    }
}
#[cfg(not(vrt_sym))]
#[no_mangle]
pub unsafe extern "C" fn getenv(p: *const u8) -> *const u8 {
    extern "C" {
        static environ: *const *const u8;
    }
    let n = cstr(p);
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let x = cstr(*e);
        if x.len() > n.len() && x[n.len()] == b'=' && x.starts_with(n) {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    other_env(n)
}
#[cfg(vrt_sym)]
mod env {
    static mut ENV: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    pub fn set_env(name: &str, value: Option<&[u8]>) {
        unsafe {
            ENV.retain(|x| x.0 != name.as_bytes());
            if let Some(v) = value {
                let mut z = v.to_vec();
                z.push(0);
                ENV.push((name.as_bytes().to_vec(), z));
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn vrt_posix_getenv(p: *const u8) -> *const u8 {
        let n = super::cstr(p);
        for x in ENV.iter() {
            if x.0 == n {
                return x.1.as_ptr();
            }
        }
        super::other_env(n)
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn vrt_posix___xpg_strerror_r(_e: i32, p: *mut u8, n: usize) -> i32 {
        let t = b"error\0";
        std::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len().min(n));
        0
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn vrt_posix_getpid() -> i32 {
        42
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn vrt_posix_exit(code: i32) {
        if let Some(f) = super::EXIT {
            f(code);
        }
        crate::stop();
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn vrt_posix_sched_yield() -> i32 {
        crate::sched::yield_now();
        0
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn vrt_posix___cxa_thread_atexit_impl(_f: usize, _a: usize, _d: usize) -> i32 {
        0
    }
    #[no_mangle]
    pub unsafe extern "C-unwind" fn vrt_posix_getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
        std::ptr::write_bytes(p, 7, n);
        n as isize
    }
}
#[cfg(not(vrt_sym))]
mod env {
    pub fn set_env(name: &str, value: Option<&[u8]>) {
        use std::os::unix::ffi::OsStrExt;
        match value {
            Some(v) => std::env::set_var(name, std::ffi::OsStr::from_bytes(v)),
            None => std::env::remove_var(name),
        }
    }
}
pub use env::set_env;
/// called when the process under test exits by itself
pub static mut EXIT: Option<fn(i32)> = None;
