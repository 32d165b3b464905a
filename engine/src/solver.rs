// Z3 back end: expressions -> Z3 terms, sliced queries with a cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;
use std::time::{Duration, Instant};

enum Opq {}
type Z = *mut Opq;
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_inc_ref(c: Z, a: Z);
    fn Z3_dec_ref(c: Z, a: Z);
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_mk_solver(c: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_to_string(c: Z, s: Z) -> *const c_char;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, comp: bool, out: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, a: Z, out: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvnot(c: Z, a: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_fpa_sort_32(c: Z) -> Z;
    fn Z3_mk_fpa_sort_64(c: Z) -> Z;
    fn Z3_mk_fpa_rne(c: Z) -> Z;
    fn Z3_mk_fpa_rtz(c: Z) -> Z;
    fn Z3_mk_fpa_rna(c: Z) -> Z;
    fn Z3_mk_fpa_rtp(c: Z) -> Z;
    fn Z3_mk_fpa_rtn(c: Z) -> Z;
    fn Z3_mk_fpa_round_to_integral(c: Z, rm: Z, t: Z) -> Z;
    fn Z3_mk_fpa_sqrt(c: Z, rm: Z, t: Z) -> Z;
    fn Z3_mk_fpa_to_fp_bv(c: Z, b: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_ieee_bv(c: Z, f: Z) -> Z;
    fn Z3_mk_fpa_to_fp_unsigned(c: Z, rm: Z, t: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_fp_signed(c: Z, rm: Z, t: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_fp_float(c: Z, rm: Z, t: Z, s: Z) -> Z;
    fn Z3_mk_fpa_to_ubv(c: Z, rm: Z, t: Z, n: c_uint) -> Z;
    fn Z3_mk_fpa_to_sbv(c: Z, rm: Z, t: Z, n: c_uint) -> Z;
    fn Z3_mk_fpa_add(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_sub(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_mul(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_div(c: Z, rm: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_lt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_leq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_fpa_is_nan(c: Z, a: Z) -> Z;
    fn Z3_mk_int_sort(c: Z) -> Z;
    fn Z3_mk_bool_sort(c: Z) -> Z;
    fn Z3_mk_add(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_sub(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_mul(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_le(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_lt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_get_error_code(c: Z) -> c_int;
    fn Z3_set_error_handler(c: Z, h: Option<extern "C" fn(Z, c_int)>);
}

// Translation of bit-vector terms to linear integer arithmetic, exact (wrap-around, division
// and remainder by constants become equations with bounded quotients). None: not expressible.
struct IntEnc {
    ctx: Z,
    ints: HashMap<E, Z>,
    bools: HashMap<E, Z>,
    divs: HashMap<(E, u128), (Z, Z)>,
    side: Vec<Z>,
    vars: HashMap<u32, Z>,
    fresh: u32,
}
impl IntEnc {
    fn num(&self, v: u128) -> Z {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            self.keep(Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_int_sort(self.ctx)))
        }
    }
    fn pow2(&self, k: u32) -> Z {
        if k < 128 {
            self.num(1u128 << k)
        } else {
            let a = self.num(1u128 << 127);
            let b = self.pow2(k - 127);
            self.mul(a, b)
        }
    }
    fn keep(&self, z: Z) -> Z {
        unsafe { Z3_inc_ref(self.ctx, z) };
        z
    }
    fn add(&self, a: Z, b: Z) -> Z {
        unsafe { self.keep(Z3_mk_add(self.ctx, 2, [a, b].as_ptr())) }
    }
    fn sub(&self, a: Z, b: Z) -> Z {
        unsafe { self.keep(Z3_mk_sub(self.ctx, 2, [a, b].as_ptr())) }
    }
    fn mul(&self, a: Z, b: Z) -> Z {
        unsafe { self.keep(Z3_mk_mul(self.ctx, 2, [a, b].as_ptr())) }
    }
    fn le(&self, a: Z, b: Z) -> Z {
        unsafe { self.keep(Z3_mk_le(self.ctx, a, b)) }
    }
    fn lt(&self, a: Z, b: Z) -> Z {
        unsafe { self.keep(Z3_mk_lt(self.ctx, a, b)) }
    }
    fn eq(&self, a: Z, b: Z) -> Z {
        unsafe { self.keep(Z3_mk_eq(self.ctx, a, b)) }
    }
    fn ite(&self, c: Z, a: Z, b: Z) -> Z {
        unsafe { self.keep(Z3_mk_ite(self.ctx, c, a, b)) }
    }
    fn and(&self, v: &[Z]) -> Z {
        unsafe { self.keep(Z3_mk_and(self.ctx, v.len() as c_uint, v.as_ptr())) }
    }
    fn fresh(&mut self, hi: u128) -> Z {
        self.fresh += 1;
        let z = unsafe {
            let s = CString::new(format!("k{}", self.fresh)).unwrap();
            self.keep(Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), Z3_mk_int_sort(self.ctx)))
        };
        let (a, b) = (self.le(self.num(0), z), self.le(z, self.num(hi)));
        self.side.push(a);
        self.side.push(b);
        z
    }
    // quotient and remainder of the value x (term e, at most ub) by c
    fn divmod(&mut self, key: E, x: Z, ub: u128, c: u128) -> (Z, Z) {
        if c == 1 {
            return (x, self.num(0));
        }
        if ub < c {
            return (self.num(0), x);
        }
        if let Some(r) = self.divs.get(&(key, c)) {
            return *r;
        }
        let q = self.fresh(ub / c);
        let r = self.fresh(c - 1);
        let cq = self.mul(self.num(c), q);
        let s = self.add(cq, r);
        let d = self.eq(x, s);
        self.side.push(d);
        self.divs.insert((key, c), (q, r));
        (q, r)
    }
    // x reduced modulo 2^w, x within -neg*2^w .. (pos+1)*2^w
    fn wrap(&mut self, x: Z, w: u32, neg: bool, pos: u128) -> Z {
        let r = self.fresh(mask(w));
        let k = self.fresh(pos + neg as u128);
        let m = self.mul(self.pow2(w), k);
        let mut s = self.add(r, m);
        if neg {
            s = self.sub(s, self.pow2(w));
        }
        let d = self.eq(x, s);
        self.side.push(d);
        r
    }
    fn int(&mut self, ex: &Exprs, e: E) -> Option<Z> {
        if let Some(z) = self.ints.get(&e) {
            return Some(*z);
        }
        let w = ex.w(e);
        if w > 128 {
            return None;
        }
        let m = mask(w);
        let z = match ex.n(e).clone() {
            Node::Const(c) => self.num(c),
            Node::Var(v) => {
                let z = unsafe {
                    let s = CString::new(format!("v{}", v)).unwrap();
                    self.keep(Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, s.as_ptr()), Z3_mk_int_sort(self.ctx)))
                };
                let (a, b) = (self.le(self.num(0), z), self.le(z, self.num(m)));
                self.side.push(a);
                self.side.push(b);
                self.vars.insert(v, z);
                z
            }
            Node::ZExt(a) => self.int(ex, a)?,
            Node::Concat(h, l) => {
                let (x, y) = (self.int(ex, h)?, self.int(ex, l)?);
                let s = self.mul(x, self.pow2(ex.w(l)));
                self.add(s, y)
            }
            Node::SExt(a) => {
                let wa = ex.w(a);
                let x = self.int(ex, a)?;
                if ex.ub(a) < 1 << (wa - 1) {
                    x
                } else {
                    let neg = self.le(self.pow2(wa - 1), x);
                    let y = self.add(x, self.num(m - mask(wa)));
                    self.ite(neg, y, x)
                }
            }
            Node::Extract(lo, a) => {
                if ex.w(a) > 128 {
                    return None;
                }
                let x = self.int(ex, a)?;
                let ub = ex.ub(a);
                if lo + w >= 128 || ub < 1 << (lo + w) {
                    self.divmod(a, x, ub, 1 << lo).0
                } else {
                    let r = self.divmod(a, x, ub, 1 << (lo + w)).1;
                    if lo == 0 {
                        r
                    } else {
                        // the remainder has its own quotient by 2^lo
                        let key = u32::MAX - e;
                        self.divmod(key, r, (1 << (lo + w)) - 1, 1 << lo).0
                    }
                }
            }
            Node::Lookup(t, i) if w > 1 => {
                // pieces with constant difference to the index
                let x = self.int(ex, i)?;
                let top = (ex.ub(i) as usize).min(t.len() - 1);
                let mut pieces: Vec<(usize, usize)> = vec![(0, 1)]; // start, kind: 0 const, 1 affine
                let mut k = 0;
                let mut segs: Vec<(usize, i128, bool)> = vec![]; // end (inclusive), value or offset, affine
                while k <= top {
                    let mut j = k;
                    while j + 1 <= top && t[j + 1] == t[k] {
                        j += 1;
                    }
                    let mut l = k;
                    while l + 1 <= top && t[l + 1] == t[l] + 1 {
                        l += 1;
                    }
                    if l > j {
                        segs.push((l, t[k] as i128 - k as i128, true));
                        k = l + 1;
                    } else {
                        segs.push((j, t[k] as i128, false));
                        k = j + 1;
                    }
                    if segs.len() > 300 {
                        return None;
                    }
                }
                pieces.clear();
                let val = |s: &Self, g: &(usize, i128, bool)| {
                    if g.2 {
                        if g.1 >= 0 {
                            s.add(x, s.num(g.1 as u128))
                        } else {
                            s.sub(x, s.num((-g.1) as u128))
                        }
                    } else {
                        s.num(g.1 as u128)
                    }
                };
                let mut r = val(self, segs.last().unwrap());
                for g in segs.iter().rev().skip(1) {
                    let c = self.le(x, self.num(g.0 as u128));
                    let v = val(self, g);
                    r = self.ite(c, v, r);
                }
                r
            }
            _ if w == 1 => {
                let b = self.boolean(ex, e)?;
                self.ite(b, self.num(1), self.num(0))
            }
            Node::Ite(c, a, b) => {
                let (c, a, b) = (self.boolean(ex, c)?, self.int(ex, a)?, self.int(ex, b)?);
                self.ite(c, a, b)
            }
            Node::Un(UnOp::Not, a) => {
                let x = self.int(ex, a)?;
                self.sub(self.num(m), x)
            }
            Node::Bin(op, a, b) => {
                let (ka, kb) = (ex.konst(a), ex.konst(b));
                use BinOp::*;
                match op {
                    Add => {
                        let (x, y) = (self.int(ex, a)?, self.int(ex, b)?);
                        let s = self.add(x, y);
                        match ex.ub(a).checked_add(ex.ub(b)) {
                            Some(u) if u <= m => s,
                            _ => self.wrap(s, w, false, 1),
                        }
                    }
                    Sub => {
                        let (x, y) = (self.int(ex, a)?, self.int(ex, b)?);
                        let s = self.sub(x, y);
                        self.wrap(s, w, true, 0)
                    }
                    Mul => {
                        let (x, c, u) = match (ka, kb) {
                            (_, Some(c)) => (self.int(ex, a)?, c, ex.ub(a)),
                            (Some(c), _) => (self.int(ex, b)?, c, ex.ub(b)),
                            _ => return None,
                        };
                        let p = self.mul(self.num(c), x);
                        match u.checked_mul(c) {
                            Some(v) if v <= m => p,
                            Some(v) => self.wrap(p, w, false, v >> w),
                            None if w <= 64 => self.wrap(p, w, false, m),
                            None => return None,
                        }
                    }
                    UDiv | URem => {
                        let c = kb.filter(|c| *c > 0)?;
                        let x = self.int(ex, a)?;
                        let (q, r) = self.divmod(a, x, ex.ub(a), c);
                        if op == UDiv {
                            q
                        } else {
                            r
                        }
                    }
                    Shl => {
                        let k = kb.filter(|k| *k < w as u128)? as u32;
                        let x = self.int(ex, a)?;
                        let p = self.mul(self.pow2(k), x);
                        if ex.ub(a) <= m >> k {
                            p
                        } else {
                            self.wrap(p, w, false, mask(k))
                        }
                    }
                    LShr => {
                        let k = kb.filter(|k| *k < w as u128)? as u32;
                        let x = self.int(ex, a)?;
                        self.divmod(a, x, ex.ub(a), 1 << k).0
                    }
                    And => {
                        let c = kb?;
                        let x = self.int(ex, a)?;
                        if (c + 1).is_power_of_two() {
                            self.divmod(a, x, ex.ub(a), c + 1).1
                        } else if ((m ^ c) + 1).is_power_of_two() {
                            let r = self.divmod(a, x, ex.ub(a), (m ^ c) + 1).1;
                            self.sub(x, r)
                        } else {
                            return None;
                        }
                    }
                    Xor if kb == Some(m) => {
                        let x = self.int(ex, a)?;
                        self.sub(self.num(m), x)
                    }
                    _ => {
                        if std::env::var("VRT_LIA").is_ok() {
                            eprintln!("no integer form: {}", ex.show(e, 4));
                        }
                        return None;
                    }
                }
            }
            _ => {
                if std::env::var("VRT_LIA").is_ok() {
                    eprintln!("no integer form: {}", ex.show(e, 4));
                }
                return None;
            }
        };
        self.ints.insert(e, z);
        Some(z)
    }
    fn signed(&mut self, ex: &Exprs, e: E) -> Option<Z> {
        let w = ex.w(e);
        let x = self.int(ex, e)?;
        if ex.ub(e) < 1 << (w - 1) {
            return Some(x);
        }
        let neg = self.le(self.pow2(w - 1), x);
        let y = self.sub(x, self.pow2(w));
        Some(self.ite(neg, y, x))
    }
    fn boolean(&mut self, ex: &Exprs, e: E) -> Option<Z> {
        if let Some(z) = self.bools.get(&e) {
            return Some(*z);
        }
        let c = self.ctx;
        let z = match ex.n(e).clone() {
            Node::Const(v) => unsafe {
                if v != 0 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            },
            Node::Un(UnOp::Not, a) => {
                let x = self.boolean(ex, a)?;
                unsafe { Z3_mk_not(c, x) }
            }
            Node::Ite(q, a, b) => {
                let (q, a, b) = (self.boolean(ex, q)?, self.boolean(ex, a)?, self.boolean(ex, b)?);
                self.ite(q, a, b)
            }
            Node::Lookup(t, i) => {
                let x = self.int(ex, i)?;
                let top = (ex.ub(i) as usize).min(t.len() - 1);
                let mut alts = vec![];
                let mut k = 0;
                while k <= top {
                    let mut j = k;
                    while j + 1 <= top && t[j + 1] == t[k] {
                        j += 1;
                    }
                    if t[k] != 0 {
                        let (a, b) = (self.le(self.num(k as u128), x), self.le(x, self.num(j as u128)));
                        alts.push(self.and(&[a, b]));
                    }
                    k = j + 1;
                }
                unsafe { Z3_mk_or(c, alts.len() as c_uint, alts.as_ptr()) }
            }
            Node::Bin(op, a, b) => {
                use BinOp::*;
                match op {
                    And | Or | Xor if ex.w(a) == 1 => {
                        let (x, y) = (self.boolean(ex, a)?, self.boolean(ex, b)?);
                        unsafe {
                            match op {
                                And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                                Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                                _ => Z3_mk_xor(c, x, y),
                            }
                        }
                    }
                    Eq if ex.w(a) == 1 => {
                        let (x, y) = (self.boolean(ex, a)?, self.boolean(ex, b)?);
                        self.eq(x, y)
                    }
                    Eq | Ult | Ule => {
                        let (x, y) = (self.int(ex, a)?, self.int(ex, b)?);
                        match op {
                            Eq => self.eq(x, y),
                            Ult => self.lt(x, y),
                            _ => self.le(x, y),
                        }
                    }
                    Slt | Sle => {
                        let (x, y) = (self.signed(ex, a)?, self.signed(ex, b)?);
                        if op == Slt {
                            self.lt(x, y)
                        } else {
                            self.le(x, y)
                        }
                    }
                    _ => return None,
                }
            }
            Node::Extract(lo, a) => {
                if ex.w(a) > 128 {
                    return None;
                }
                let x = self.int(ex, a)?;
                let (q, _) = self.divmod(a, x, ex.ub(a), 1 << lo);
                let r = self.divmod(u32::MAX - e, q, ex.ub(a) >> lo, 2).1;
                self.eq(r, self.num(1))
            }
            _ => return None,
        };
        let z = self.keep(z);
        self.bools.insert(e, z);
        Some(z)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}
pub type Asg = Rc<Vec<(u32, u8)>>;

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub lia: u64,
    pub finite: u64,
    pub time: Duration,
    pub max_time: Duration,
}

pub struct Solver {
    ctx: Z,
    bv: Z,
    fp: Z,
    lia: Z,
    ast: HashMap<E, Z>, // 1-bit expressions are bit-vectors of width 1
    ast_fp: HashMap<E, bool>,
    ast_uf: HashMap<E, Z>, // the same with floating point operations uninterpreted
    uf: bool,
    cache: HashMap<Vec<E>, (Res, Asg)>,
    pub stats: Stats,
    pub dump: Option<String>,
    pub dumped: u32,
    pub dump_every: u64,
    uses: u32,
    lane: HashMap<E, Box<[u128]>>,
    timeout_ms: u32,
    rne: Z,
    rtz: Z,
}

extern "C" fn on_err(_c: Z, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(3);
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let rne = Z3_mk_fpa_rne(ctx);
            Z3_inc_ref(ctx, rne);
            let rtz = Z3_mk_fpa_rtz(ctx);
            Z3_inc_ref(ctx, rtz);
            let mut s = Solver {
                ctx,
                bv: std::ptr::null_mut(),
                fp: std::ptr::null_mut(),
                lia: std::ptr::null_mut(),
                ast: HashMap::new(),
                ast_fp: HashMap::new(),
                ast_uf: HashMap::new(),
                uf: false,
                cache: HashMap::new(),
                stats: Stats::default(),
                dump: None,
                dumped: 0,
                dump_every: 1,
                uses: 0,
                lane: HashMap::new(),
                timeout_ms,
                rne,
                rtz,
            };
            s.fresh();
            s
        }
    }
    unsafe fn fresh(&mut self) {
        if !self.bv.is_null() {
            Z3_solver_dec_ref(self.ctx, self.bv);
            Z3_solver_dec_ref(self.ctx, self.fp);
            Z3_solver_dec_ref(self.ctx, self.lia);
        }
        let n = CString::new("QF_LIA").unwrap();
        self.lia = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()));
        Z3_solver_inc_ref(self.ctx, self.lia);
        self.set_timeout(self.lia, self.timeout_ms);
        let n = CString::new("QF_BV").unwrap();
        self.bv = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, n.as_ptr()));
        Z3_solver_inc_ref(self.ctx, self.bv);
        self.fp = Z3_mk_solver(self.ctx);
        Z3_solver_inc_ref(self.ctx, self.fp);
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let t = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.timeout_ms);
        Z3_solver_set_params(self.ctx, self.bv, p);
        Z3_solver_set_params(self.ctx, self.fp, p);
        self.uses = 0;
    }
    unsafe fn set_timeout(&self, s: Z, ms: u32) {
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let t = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), ms);
        Z3_solver_set_params(self.ctx, s, p);
    }
    // division or multiplication by constants that bit-blasting handles badly
    fn hard(&self, ex: &Exprs, cs: &[E]) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = cs.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            if let Node::Bin(BinOp::UDiv | BinOp::URem | BinOp::Mul, _, b) = ex.n(e) {
                match ex.konst(*b) {
                    Some(c) if c.is_power_of_two() => {}
                    _ => return true,
                }
            }
            let (ch, n) = ex.children(e);
            st.extend_from_slice(&ch[..n]);
        }
        false
    }
    fn sort(&self, w: u32) -> Z {
        unsafe { Z3_mk_bv_sort(self.ctx, w) }
    }
    fn fsort(&self, w: u32) -> Z {
        unsafe {
            if w == 64 {
                Z3_mk_fpa_sort_64(self.ctx)
            } else {
                Z3_mk_fpa_sort_32(self.ctx)
            }
        }
    }
    fn num(&self, v: u128, w: u32) -> Z {
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, self.sort(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, s.as_ptr(), self.sort(w))
            }
        }
    }
    fn b2v(&self, b: Z) -> Z {
        unsafe { Z3_mk_ite(self.ctx, b, self.num(1, 1), self.num(0, 1)) }
    }
    fn v2b(&self, v: Z) -> Z {
        unsafe { Z3_mk_eq(self.ctx, v, self.num(1, 1)) }
    }
    fn has(&self, e: E) -> bool {
        if self.uf {
            self.ast_uf.contains_key(&e)
        } else {
            self.ast.contains_key(&e)
        }
    }
    pub fn to_z3(&mut self, ex: &Exprs, e: E) -> (Z, bool) {
        if self.has(e) {
            return if self.uf { (self.ast_uf[&e], false) } else { (self.ast[&e], self.ast_fp[&e]) };
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.has(x) {
                st.pop();
                continue;
            }
            let (ch, n) = ex.children(x);
            let mut ok = true;
            for k in 0..n {
                if !self.has(ch[k]) {
                    st.push(ch[k]);
                    ok = false;
                }
            }
            if !ok {
                continue;
            }
            let mut fp = false;
            if !self.uf {
                for k in 0..n {
                    fp |= self.ast_fp[&ch[k]];
                }
            }
            let z = unsafe { self.build(ex, x, &mut fp) };
            unsafe { Z3_inc_ref(self.ctx, z) };
            if self.uf {
                self.ast_uf.insert(x, z);
            } else {
                self.ast.insert(x, z);
                self.ast_fp.insert(x, fp);
            }
            st.pop();
        }
        if self.uf {
            (self.ast_uf[&e], false)
        } else {
            (self.ast[&e], self.ast_fp[&e])
        }
    }
    unsafe fn build(&self, ex: &Exprs, e: E, fp: &mut bool) -> Z {
        let c = self.ctx;
        let w = ex.w(e);
        let g = |x: &E| if self.uf { self.ast_uf[x] } else { self.ast[x] };
        if self.uf {
            use BinOp::*;
            if matches!(ex.n(e), Node::Un(UnOp::FUno | UnOp::FRound(_), _) | Node::Cast(..) | Node::Bin(FAdd | FSub | FMul | FDiv | FOeq | FOlt | FOle, ..)) {
                let s = CString::new(format!("f{}", e)).unwrap();
                return Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(w));
            }
        }
        match ex.n(e) {
            Node::Const(v) => self.num(*v, w),
            Node::Var(v) => {
                let s = CString::new(format!("v{}", v)).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(w))
            }
            Node::Un(UnOp::Not, a) => Z3_mk_bvnot(c, g(a)),
            Node::Un(UnOp::FUno, a) => {
                *fp = true;
                self.b2v(Z3_mk_fpa_is_nan(c, Z3_mk_fpa_to_fp_bv(c, g(a), self.fsort(ex.w(*a)))))
            }
            Node::Un(UnOp::FRound(k), a) => {
                *fp = true;
                let x = Z3_mk_fpa_to_fp_bv(c, g(a), self.fsort(w));
                let r = match k {
                    0 => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), x),
                    1 => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), x),
                    2 => Z3_mk_fpa_round_to_integral(c, self.rtz, x),
                    3 => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), x),
                    4 => Z3_mk_fpa_round_to_integral(c, self.rne, x),
                    _ => Z3_mk_fpa_sqrt(c, self.rne, x),
                };
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Node::Un(..) => panic!("unop"),
            Node::Cast(op, a) => {
                *fp = true;
                let wa = ex.w(*a);
                match op {
                    CastOp::UToF => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, self.rne, g(a), self.fsort(w))),
                    CastOp::SToF => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, self.rne, g(a), self.fsort(w))),
                    CastOp::FToU => Z3_mk_fpa_to_ubv(c, self.rtz, Z3_mk_fpa_to_fp_bv(c, g(a), self.fsort(wa)), w),
                    CastOp::FToS => Z3_mk_fpa_to_sbv(c, self.rtz, Z3_mk_fpa_to_fp_bv(c, g(a), self.fsort(wa)), w),
                    CastOp::FToF => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, self.rne, Z3_mk_fpa_to_fp_bv(c, g(a), self.fsort(wa)), self.fsort(w))),
                }
            }
            Node::ZExt(a) => Z3_mk_zero_ext(c, w - ex.w(*a), g(a)),
            Node::SExt(a) => Z3_mk_sign_ext(c, w - ex.w(*a), g(a)),
            Node::Extract(lo, a) => Z3_mk_extract(c, lo + w - 1, *lo, g(a)),
            Node::Concat(a, b) => Z3_mk_concat(c, g(a), g(b)),
            Node::Ite(x, a, b) => Z3_mk_ite(c, self.v2b(g(x)), g(a), g(b)),
            Node::Lookup(t, i) => self.table(t, 0, t.len(), g(i), ex.w(*i), w),
            Node::Bin(op, a, b) => {
                let (x, y) = (g(a), g(b));
                use BinOp::*;
                match op {
                    Add => Z3_mk_bvadd(c, x, y),
                    Sub => Z3_mk_bvsub(c, x, y),
                    Mul => Z3_mk_bvmul(c, x, y),
                    UDiv => Z3_mk_bvudiv(c, x, y),
                    SDiv => Z3_mk_bvsdiv(c, x, y),
                    URem => Z3_mk_bvurem(c, x, y),
                    SRem => Z3_mk_bvsrem(c, x, y),
                    And => Z3_mk_bvand(c, x, y),
                    Or => Z3_mk_bvor(c, x, y),
                    Xor => Z3_mk_bvxor(c, x, y),
                    Shl => Z3_mk_bvshl(c, x, y),
                    LShr => Z3_mk_bvlshr(c, x, y),
                    AShr => Z3_mk_bvashr(c, x, y),
                    Eq => self.b2v(Z3_mk_eq(c, x, y)),
                    Ult => self.b2v(Z3_mk_bvult(c, x, y)),
                    Ule => self.b2v(Z3_mk_bvule(c, x, y)),
                    Slt => self.b2v(Z3_mk_bvslt(c, x, y)),
                    Sle => self.b2v(Z3_mk_bvsle(c, x, y)),
                    _ => {
                        *fp = true;
                        let wa = ex.w(*a);
                        let (fa, fb) = (Z3_mk_fpa_to_fp_bv(c, x, self.fsort(wa)), Z3_mk_fpa_to_fp_bv(c, y, self.fsort(wa)));
                        match op {
                            FAdd => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, self.rne, fa, fb)),
                            FSub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, self.rne, fa, fb)),
                            FMul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, self.rne, fa, fb)),
                            FDiv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, self.rne, fa, fb)),
                            FOeq => self.b2v(Z3_mk_fpa_eq(c, fa, fb)),
                            FOlt => self.b2v(Z3_mk_fpa_lt(c, fa, fb)),
                            FOle => self.b2v(Z3_mk_fpa_leq(c, fa, fb)),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        }
    }
    // balanced if-then-else over the index bits
    unsafe fn table(&self, t: &[u128], lo: usize, n: usize, i: Z, wi: u32, w: u32) -> Z {
        if t[lo..lo + n].iter().all(|x| *x == t[lo]) {
            return self.num(t[lo], w);
        }
        let h = n / 2;
        let bit = h.trailing_zeros();
        let a = self.table(t, lo, h, i, wi, w);
        let b = self.table(t, lo + h, h, i, wi, w);
        let bitv = Z3_mk_extract(self.ctx, bit, bit, i);
        Z3_mk_ite(self.ctx, Z3_mk_eq(self.ctx, bitv, self.num(1, 1)), b, a)
    }
    // the conjunction for each value of its only byte; None: a term that is too wide
    fn lanes(&mut self, ex: &Exprs, cs: &[E]) -> Option<Vec<bool>> {
        if self.lane.len() > 30_000 {
            self.lane.clear();
        }
        let mut st: Vec<E> = cs.to_vec();
        while let Some(&x) = st.last() {
            if self.lane.contains_key(&x) {
                st.pop();
                continue;
            }
            let w = ex.w(x);
            if w > 128 {
                return None;
            }
            let (ch, n) = ex.children(x);
            let mut ready = true;
            for k in 0..n {
                if !self.lane.contains_key(&ch[k]) {
                    st.push(ch[k]);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |k: usize| &self.lane[&ch[k]];
            let m = mask(w);
            let mut out = vec![0u128; 256];
            match ex.n(x) {
                Node::Const(c) => out.fill(*c),
                Node::Var(_) => (0..256).for_each(|k| out[k] = k as u128 & m),
                Node::Un(UnOp::Not, _) => (0..256).for_each(|k| out[k] = !g(0)[k] & m),
                Node::Un(..) | Node::Cast(..) => return None,
                Node::Bin(op, a, _) => {
                    let wa = ex.w(*a);
                    let (p, q) = (g(0), g(1));
                    for k in 0..256 {
                        // undefined only where an earlier constraint excludes it
                        out[k] = Exprs::fold(*op, p[k], q[k], wa)?;
                    }
                }
                Node::ZExt(_) => out.copy_from_slice(g(0)),
                Node::SExt(a) => {
                    let wa = ex.w(*a);
                    let p = g(0);
                    (0..256).for_each(|k| out[k] = sext(p[k], wa) as u128 & m)
                }
                Node::Extract(lo, _) => {
                    let p = g(0);
                    (0..256).for_each(|k| out[k] = (p[k] >> lo) & m)
                }
                Node::Concat(_, l) => {
                    let wl = ex.w(*l);
                    let (p, q) = (g(0), g(1));
                    (0..256).for_each(|k| out[k] = (p[k] << wl) | q[k])
                }
                Node::Ite(..) => {
                    let (c, p, q) = (g(0), g(1), g(2));
                    (0..256).for_each(|k| out[k] = if c[k] != 0 { p[k] } else { q[k] })
                }
                Node::Lookup(t, _) => {
                    let p = g(0);
                    (0..256).for_each(|k| out[k] = t[p[k] as usize])
                }
            }
            self.lane.insert(x, out.into_boxed_slice());
            st.pop();
        }
        Some((0..256).map(|k| cs.iter().all(|c| self.lane[c][k] & 1 != 0)).collect())
    }
    // Floating point operations as uninterpreted functions: unsatisfiable like that is
    // unsatisfiable; a model is taken if it, or one near it, satisfies the formula itself.
    unsafe fn abstracted(&mut self, ex: &Exprs, cs: &[E], vars: &[u32], var_expr: &dyn Fn(u32) -> E) -> Option<(Res, Asg)> {
        let c = self.ctx;
        self.uf = true;
        let zs: Vec<Z> = cs.iter().map(|e| self.to_z3(ex, *e).0).collect();
        let vs: Vec<(u32, Z)> = vars.iter().map(|v| (*v, self.to_z3(ex, var_expr(*v)).0)).collect();
        // equal operands, equal results
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = cs.to_vec();
        let mut ops: Vec<(String, Vec<Z>, Z)> = vec![];
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let (ch, n) = ex.children(e);
            st.extend_from_slice(&ch[..n]);
            use BinOp::*;
            let name = match ex.n(e) {
                Node::Un(UnOp::FUno, _) => "FUno".to_string(),
                Node::Un(UnOp::FRound(k), _) => format!("FRound{}", k),
                Node::Cast(op, _) => format!("{:?}", op),
                Node::Bin(op @ (FAdd | FSub | FMul | FDiv | FOeq | FOlt | FOle), ..) => format!("{:?}", op),
                _ => continue,
            };
            let name = format!("{}_{}_{}", name, ex.w(ch[0]), ex.w(e));
            let args = ch[..n].iter().map(|x| self.ast_uf[x]).collect();
            ops.push((name, args, self.ast_uf[&e]));
        }
        self.uf = false;
        let s = self.bv;
        Z3_solver_push(c, s);
        for i in 0..ops.len() {
            for j in 0..i {
                let (x, y) = (&ops[i], &ops[j]);
                if x.0 == y.0 {
                    let mut alts: Vec<Z> = x.1.iter().zip(&y.1).filter(|(a, b)| a != b).map(|(a, b)| Z3_mk_not(c, Z3_mk_eq(c, *a, *b))).collect();
                    alts.push(Z3_mk_eq(c, x.2, y.2));
                    Z3_solver_assert(c, s, Z3_mk_or(c, alts.len() as c_uint, alts.as_ptr()));
                }
            }
        }
        for z in &zs {
            Z3_solver_assert(c, s, self.v2b(*z));
        }
        self.set_timeout(s, 20_000);
        let r = Z3_solver_check(c, s);
        self.set_timeout(s, self.timeout_ms);
        let mut asg: Vec<(u32, u8)> = vec![];
        if r == 1 {
            let m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            for (v, z) in &vs {
                let mut out = std::ptr::null_mut();
                let mut u = 0u64;
                if Z3_model_eval(c, m, *z, true, &mut out) {
                    Z3_inc_ref(c, out);
                    Z3_get_numeral_uint64(c, out, &mut u);
                    Z3_dec_ref(c, out);
                }
                asg.push((*v, u as u8));
            }
            Z3_model_dec_ref(c, m);
        }
        Z3_solver_pop(c, s, 1);
        if r == -1 {
            return Some((Res::Unsat, Rc::new(vec![])));
        }
        if r == 1 {
            let holds = |a: &[(u32, u8)]| {
                let mut memo = HashMap::new();
                cs.iter().all(|e| ex.eval(*e, &|v| a.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0) as u128, &mut memo) == Some(1))
            };
            if holds(&asg) {
                return Some((Res::Sat, Rc::new(asg)));
            }
            let mut seed = 0x9e37_79b9_7f4a_7c15u64;
            let mut rnd = || {
                seed ^= seed << 13;
                seed ^= seed >> 7;
                seed ^= seed << 17;
                seed
            };
            let mut cur = asg.clone();
            let t = Instant::now();
            for k in 0..4000 {
                if asg.is_empty() || t.elapsed() > Duration::from_secs(10) {
                    break;
                }
                if k % 4 == 0 {
                    cur = asg.clone();
                }
                let i = rnd() as usize % cur.len();
                cur[i].1 = match rnd() % 3 {
                    0 => rnd() as u8,
                    1 => cur[i].1 ^ (1 << (rnd() % 8)),
                    _ => cur[i].1.wrapping_add(1),
                };
                if holds(&cur) {
                    return Some((Res::Sat, Rc::new(cur)));
                }
            }
        }
        None
    }
    // satisfiability of the conjunction; `vars` are the variables wanted in the model
    pub fn check(&mut self, ex: &Exprs, mut cs: Vec<E>, vars: &[u32], var_expr: &dyn Fn(u32) -> E) -> (Res, Asg) {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        if vars.len() == 1 && self.hard(ex, &cs) {
            // one byte: the formula's value for each of its 256 values
            if let Some(ok) = self.lanes(ex, &cs) {
                let dt = t0.elapsed();
                self.stats.queries += 1;
                self.stats.finite += 1;
                self.stats.time += dt;
                let r = match ok.iter().position(|x| *x) {
                    Some(v) => {
                        self.stats.sat += 1;
                        (Res::Sat, Rc::new(vec![(vars[0], v as u8)]))
                    }
                    None => {
                        self.stats.unsat += 1;
                        (Res::Unsat, Rc::new(vec![]))
                    }
                };
                self.cache.insert(cs, r.clone());
                return r;
            }
        }
        let mut zs = vec![];
        let mut fp = false;
        for &c in &cs {
            let (z, f) = self.to_z3(ex, c);
            fp |= f;
            zs.push(z);
        }
        if fp {
            if let Some(r) = unsafe { self.abstracted(ex, &cs, vars, var_expr) } {
                let dt = t0.elapsed();
                self.stats.queries += 1;
                self.stats.time += dt;
                if dt > self.stats.max_time {
                    self.stats.max_time = dt;
                }
                if r.0 == Res::Sat {
                    self.stats.sat += 1;
                } else {
                    self.stats.unsat += 1;
                }
                self.cache.insert(cs, r.clone());
                return r;
            }
        }
        let (r, asg) = unsafe {
            self.uses += 1;
            if self.uses > 2000 {
                self.fresh();
            }
            let mut s = if fp { self.fp } else { self.bv };
            let hard = !fp && self.hard(ex, &cs);
            let mut int_vars: Option<HashMap<u32, Z>> = None;
            let mut r = 0;
            Z3_solver_push(self.ctx, s);
            for z in &zs {
                Z3_solver_assert(self.ctx, s, self.v2b(*z));
            }
            if hard {
                // integer arithmetic, then bits, with growing time limits
                let mut en = IntEnc { ctx: self.ctx, ints: HashMap::new(), bools: HashMap::new(), divs: HashMap::new(), side: vec![], vars: HashMap::new(), fresh: 0 };
                let bs: Option<Vec<Z>> = cs.iter().map(|c| en.boolean(ex, *c)).collect();
                if let Some(bs) = &bs {
                    Z3_solver_push(self.ctx, self.lia);
                    for z in bs.iter().chain(en.side.iter()) {
                        Z3_solver_assert(self.ctx, self.lia, *z);
                    }
                }
                for (lia, ms) in [(true, 4000), (false, 3000), (true, self.timeout_ms), (false, self.timeout_ms)] {
                    if lia && bs.is_none() {
                        continue;
                    }
                    let x = if lia { self.lia } else { self.bv };
                    self.set_timeout(x, ms);
                    r = Z3_solver_check(self.ctx, x);
                    self.set_timeout(x, self.timeout_ms);
                    if r != 0 {
                        if lia {
                            Z3_solver_pop(self.ctx, s, 1);
                            s = self.lia;
                            int_vars = Some(en.vars);
                            self.stats.lia += 1;
                        } else if bs.is_some() {
                            Z3_solver_pop(self.ctx, self.lia, 1);
                        }
                        break;
                    }
                }
                if r == 0 && bs.is_some() {
                    Z3_solver_pop(self.ctx, self.lia, 1);
                }
            } else {
                r = Z3_solver_check(self.ctx, s);
            }
            let r = match r {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            let mut asg = vec![];
            if r == Res::Sat {
                let m = Z3_solver_get_model(self.ctx, s);
                Z3_model_inc_ref(self.ctx, m);
                for &v in vars {
                    let zv = match &int_vars {
                        Some(m) => match m.get(&v) {
                            Some(z) => *z,
                            None => continue,
                        },
                        None => self.to_z3(ex, var_expr(v)).0,
                    };
                    let mut out = std::ptr::null_mut();
                    if Z3_model_eval(self.ctx, m, zv, true, &mut out) {
                        let mut u = 0u64;
                        Z3_inc_ref(self.ctx, out);
                        Z3_get_numeral_uint64(self.ctx, out, &mut u);
                        Z3_dec_ref(self.ctx, out);
                        asg.push((v, u as u8));
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
            }
            if let Some(d) = self.dump.clone() {
                if self.stats.queries % self.dump_every == 0 && self.dumped < 64 && r != Res::Unknown {
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
                    let path = format!("{}-{}-{}.smt2", d, std::process::id(), self.dumped);
                    let exp = if r == Res::Sat { "sat" } else { "unsat" };
                    let _ = std::fs::write(path, format!("; expect {}\n(set-logic ALL)\n{}\n(check-sat)\n", exp, t));
                    self.dumped += 1;
                }
            }
            Z3_solver_pop(self.ctx, s, 1);
            (r, Rc::new(asg))
        };
        let dt = t0.elapsed();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match r {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if r != Res::Unknown {
            if self.cache.len() > 400_000 {
                self.cache.clear();
            }
            self.cache.insert(cs, (r, asg.clone()));
        }
        unsafe {
            let _ = Z3_get_error_code(self.ctx);
        }
        (r, asg)
    }
}
