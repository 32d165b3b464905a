// Symbolic execution of the converted LLVM functions.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub const NOREG: u32 = u32::MAX;

/// What every call takes at least, and the stack of a program's first thread.
const FRAME: u64 = 48;
const STACK: u64 = 8 << 20;
#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub block: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    /// bytes of stack used up to and including this frame (an estimate from below)
    pub bytes: u64,
}
#[derive(Clone)]
pub struct Fiber {
    pub frames: Vec<Rc<Frame>>,
    pub tls: Vec<(u32, u32)>,
    pub exc: u64,
}
#[derive(Clone)]
pub struct VarRec {
    pub name: Rc<str>,
    pub start: u32,
    pub len: u32,
}
#[derive(Clone)]
pub struct Obs {
    pub tag: Rc<str>,
    pub bytes: Vec<(u8, E)>,
}
#[derive(Clone)]
pub struct HashRec {
    pub input: Rc<Vec<(u8, E)>>,
    pub out: [u8; 32],
}
/// The digests handed out on a path; inputs without symbolic bytes are found by their content.
#[derive(Clone, Default)]
pub struct Hashes {
    list: Vec<HashRec>,
    known: HashMap<Vec<u8>, [u8; 32]>,
    symbolic: Vec<usize>,
}
#[derive(Clone)]
pub struct State {
    pub fibers: Vec<Fiber>,
    pub cur: usize,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub vars: Vec<VarRec>,
    pub obs: Vec<Obs>,
    pub hashes: Rc<Hashes>,
    pub steps: u64,
    pub in_panic: bool,
    pub panic_loc: String,
    pub last_assert: Option<String>,
    pub depth: u32,
}
#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    Violation(String, String), // kind, message
    Unsupported(String),
    Unknown(String),
    Limit(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    Body,
    Memcpy,
    Memset,
    MinMax(u8), // 0 umax 1 umin 2 smax 3 smin
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    BitRev,
    Fshl,
    Fshr,
    Ovf(u8), // 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul
    Sat(u8), // 0 uadd 1 usub 2 sadd 3 ssub
    Cmp3(bool),
    Zero,
    One,
    Nop,
    Arg0,
    Tls,
    Trap,
    LoadRel,
    Reduce(u8), // 0 or 1 and 2 add 3 umax 4 umin 5 xor
    Movmsk,
    FpSat(bool),
    Fabs,
    Powi,
    Libm(u8),
    FRound(u8), // 0 floor 1 ceil 2 trunc 3 round 4 rint 5 sqrt
    CopySign,
    FMinMax(bool),
    Fmuladd,
    PtrMask,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    CMemcpy,
    CMemset,
    Memcmp,
    Strlen,
    Memchr,
    Memrchr,
    Errno,
    Abort,
    Raise,
    DeleteExc,
    Ignore,
    FmtWrite,
    PanicFmt,
    Any,
    Assume,
    Assert,
    Eq,
    Observe,
    Reach,
    IsSym,
    Hash,
    Fail,
    StopPath,
    FiberNew,
    FiberSwitch,
    FiberCur,
    Concretize,
    Debug,
    Redirect(u32),
    Missing,
}

pub struct Config {
    pub max_steps: u64,
    pub deadline: Instant,
    pub max_viol: usize,
    pub verbose: bool,
    pub workers: u32,
    pub max_samples: usize,
    pub seed: u64,
}

pub struct ViolRec {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub model: Vec<(String, Vec<u8>)>,
}
pub struct Sample {
    pub model: Vec<(String, Vec<u8>)>,
    pub obs: Vec<(String, Vec<u8>)>,
}
#[derive(Default)]
pub struct Results {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub decisions: u64,
    pub steps: u64,
    pub viols: Vec<ViolRec>,
    pub samples: Vec<Sample>,
    pub incomplete: Vec<String>,
    pub fns: HashSet<u32>,
    pub reached: HashSet<String>,
    pub maxdepth: u32,
}

pub struct Engine {
    pub md: Module,
    pub ex: Exprs,
    pub sv: Solver,
    pub cfg: Config,
    pub work: Vec<State>,
    pub res: Results,
    bis: Vec<Option<Bi>>,
    ginit: Vec<Option<Rc<Obj>>>,
    var_exprs: Vec<E>,
    memo: HashMap<E, u128>,
    memo_model: Option<Rc<Vec<u8>>>,
    viol_keys: HashSet<String>,
    errno_g: u32,
}

enum Addr {
    C(u32, usize),
    S(u32, E),
}

fn fresh_hash(k: u64) -> [u8; 32] {
    // distinct, well-spread constants; byte-identical to vrt::ideal_hash in the native build
    let mut out = [0u8; 32];
    let mut x = k.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234_5678_9ABC_DEF1);
    for i in 0..4 {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        out[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    out
}

impl Engine {
    pub fn new(md: Module, sv: Solver, cfg: Config) -> Engine {
        let nf = md.fns.len();
        let ng = md.globals.len();
        Engine {
            md,
            ex: Exprs::new(),
            sv,
            cfg,
            work: vec![],
            res: Results::default(),
            bis: vec![None; nf],
            ginit: vec![None; ng + 1],
            var_exprs: vec![],
            memo: HashMap::new(),
            memo_model: None,
            viol_keys: HashSet::new(),
            errno_g: ng as u32,
        }
    }
    pub fn initial(&mut self, fid: u32) -> State {
        let f = self.md.body(fid);
        let fr = Frame { f, block: 0, pc: 0, regs: vec![Val::I(0); f.nregs as usize], allocas: vec![], bytes: 0 };
        State {
            fibers: vec![Fiber { frames: vec![Rc::new(fr)], tls: vec![], exc: 0 }],
            cur: 0,
            mem: Mem::new(self.md.globals.len() + 1),
            pc: vec![],
            model: Rc::new(vec![]),
            nvars: 0,
            vars: vec![],
            obs: vec![],
            hashes: Default::default(),
            steps: 0,
            in_panic: false,
            panic_loc: String::new(),
            last_assert: None,
            depth: 0,
        }
    }

    // ---- solver interface -------------------------------------------------
    pub fn eval(&mut self, st: &State, e: E) -> u128 {
        if let Some(c) = self.ex.konst(e) {
            return c;
        }
        let same = match &self.memo_model {
            Some(m) => Rc::ptr_eq(m, &st.model),
            None => false,
        };
        if !same || self.memo.len() > 2_000_000 {
            self.memo.clear();
            self.memo_model = Some(st.model.clone());
        }
        let m = st.model.clone();
        let mut memo = std::mem::take(&mut self.memo);
        let v = self.ex.eval(e, &|v| *m.get(v as usize).unwrap_or(&0) as u128, &mut memo);
        self.memo = memo;
        v.expect("evaluation of an over-wide expression")
    }
    // Some(model) if pc /\ c is satisfiable
    fn query(&mut self, st: &State, c: E) -> R<Option<Rc<Vec<u8>>>> {
        if let Some(k) = self.ex.konst(c) {
            return Ok(if k != 0 { Some(st.model.clone()) } else { None });
        }
        let mut vars: Vec<u32> = self.ex.support(c).to_vec();
        let mut inset = vec![false; st.nvars as usize + 1];
        for &v in &vars {
            inset[v as usize] = true;
        }
        let sups: Vec<Rc<Vec<u32>>> = st.pc.iter().map(|p| self.ex.support(*p)).collect();
        let mut used = vec![false; st.pc.len()];
        let mut cs = vec![c];
        loop {
            let mut ch = false;
            for (i, s) in sups.iter().enumerate() {
                if !used[i] && s.iter().any(|v| inset[*v as usize]) {
                    used[i] = true;
                    ch = true;
                    cs.push(st.pc[i]);
                    for &v in s.iter() {
                        if !inset[v as usize] {
                            inset[v as usize] = true;
                            vars.push(v);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let ve = &self.var_exprs;
        let (r, asg) = self.sv.check(&self.ex, cs, &vars, &|v| ve[v as usize]);
        match r {
            Res::Sat => {
                let mut m = (*st.model).clone();
                for &(v, x) in asg.iter() {
                    if (v as usize) >= m.len() {
                        m.resize(v as usize + 1, 0);
                    }
                    m[v as usize] = x;
                }
                Ok(Some(Rc::new(m)))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Unknown(format!("solver gave up on {}", self.ex.show(c, std::env::var("VRT_SHOW").map(|d| d.parse().unwrap()).unwrap_or(6))))),
        }
    }
    fn push_pc(&mut self, st: &mut State, c: E) {
        if self.ex.konst(c).is_some() {
            return;
        }
        if let Node::Bin(BinOp::And, a, b) = *self.ex.n(c) {
            self.push_pc(st, a);
            self.push_pc(st, b);
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.ex.konst(c) {
            return Ok(k != 0);
        }
        if st.pc.contains(&c) {
            return Ok(true);
        }
        let n = self.ex.not(c);
        if st.pc.contains(&n) {
            return Ok(false);
        }
        self.res.decisions += 1;
        let mv = self.eval(st, c) != 0;
        let (this, other) = if mv { (c, n) } else { (n, c) };
        if let Some(m) = self.query(st, other)? {
            self.res.forks += 1;
            if std::env::var("VRT_FORKS").is_ok() {
                eprintln!("FORK {} :: {}", self.top_names(st, 3), self.ex.show(c, 5));
            }
            let mut o = st.clone();
            o.model = m;
            o.depth += 1;
            self.push_pc(&mut o, other);
            self.work.push(o);
            st.depth += 1;
            self.push_pc(st, this);
            if Instant::now() > self.cfg.deadline {
                return Err(Stop::Limit("time".into()));
            }
        }
        Ok(mv)
    }
    fn top_names(&self, st: &State, n: usize) -> String {
        st.fibers[st.cur].frames.iter().rev().take(n).map(|f| f.f.name.clone()).collect::<Vec<_>>().join(" < ")
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if self.ex.konst(c) == Some(0) {
            return Err(Stop::Infeasible);
        }
        if self.eval(st, c) == 0 {
            match self.query(st, c)? {
                Some(m) => st.model = m,
                None => return Err(Stop::Infeasible),
            }
        }
        self.push_pc(st, c);
        Ok(())
    }
    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => {
                let e = *e;
                loop {
                    let k = self.eval(st, e);
                    let w = self.ex.w(e);
                    let c = self.ex.c(k, w);
                    let q = self.ex.eq(e, c);
                    if self.decide(st, q)? {
                        return Ok(k);
                    }
                }
            }
            Val::A(_) => Err(Stop::Unsupported("concretize aggregate".into())),
        }
    }
    #[inline]
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) if w > 128 => {
                let c = self.ex.c(*x, 128);
                self.ex.zext(c, w)
            }
            Val::I(x) => self.ex.c(*x & mask(w), w),
            Val::S(e) => {
                debug_assert_eq!(self.ex.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate operand"),
        }
    }
    #[inline]
    fn v(&self, e: E) -> Val {
        match self.ex.konst(e) {
            Some(c) => Val::I(c),
            None => Val::S(e),
        }
    }

    // ---- memory -----------------------------------------------------------
    fn ensure(&mut self, st: &mut State, id: u32) {
        if id < HEAP_BASE && (id as u64) >= GLOBAL_BASE {
            let g = (id as u64 - GLOBAL_BASE) as usize;
            if g < st.mem.globals.len() && st.mem.globals[g].is_none() {
                if self.ginit[g].is_none() {
                    let b = if g as u32 == self.errno_g { vec![0u8; 8] } else { self.md.init_bytes(g as u32) };
                    self.ginit[g] = Some(Rc::new(Obj { data: b, sym: None, stack: false }));
                }
                st.mem.globals[g] = self.ginit[g].clone();
            }
        }
    }
    fn check_range(&mut self, st: &mut State, id: u32, off: usize, n: usize) -> R<()> {
        self.ensure(st, id);
        match st.mem.get(id) {
            Some(o) if off.checked_add(n).map_or(false, |e| e <= o.data.len()) => Ok(()),
            Some(o) => Err(Stop::Violation("memory".into(), format!("access of {} bytes at offset {} of an object of {} bytes", n, off, o.data.len()))),
            None => Err(Stop::Violation("memory".into(), format!("access to invalid address {:#x}", ((id as u64) << 32) | off as u64))),
        }
    }
    fn tz(&self, e: E) -> u32 {
        let w = self.ex.w(e);
        match self.ex.n(e) {
            Node::Const(c) => c.trailing_zeros().min(w),
            Node::Concat(h, l) => {
                if self.ex.konst(*l) == Some(0) {
                    self.ex.w(*l) + self.tz(*h)
                } else {
                    self.tz(*l)
                }
            }
            Node::ZExt(a) | Node::SExt(a) => self.tz(*a),
            Node::Bin(BinOp::Shl, a, b) => match self.ex.konst(*b) {
                Some(k) => (self.tz(*a) + k as u32).min(w),
                None => 0,
            },
            Node::Bin(BinOp::Mul, a, b) => (self.tz(*a) + self.tz(*b)).min(w),
            Node::Bin(BinOp::Add, a, b) | Node::Bin(BinOp::Sub, a, b) | Node::Bin(BinOp::Or, a, b) => self.tz(*a).min(self.tz(*b)),
            Node::Bin(BinOp::And, a, b) => self.tz(*a).max(self.tz(*b)),
            Node::Ite(_, a, b) => self.tz(*a).min(self.tz(*b)),
            _ => 0,
        }
    }
    fn addr(&mut self, st: &mut State, p: &Val, n: usize) -> R<Addr> {
        match p {
            Val::I(a) => {
                let a = *a as u64;
                let id = (a >> 32) as u32;
                let off = (a & 0xffff_ffff) as usize;
                self.check_range(st, id, off, n)?;
                Ok(Addr::C(id, off))
            }
            Val::S(e) => {
                let e = *e;
                // pointers selected between objects
                if let Node::Ite(c, a, b) = *self.ex.n(e) {
                    let t = self.decide(st, c)?;
                    let x = self.v(if t { a } else { b });
                    return self.addr(st, &x, n);
                }
                let a = self.eval(st, e) as u64;
                let id = (a >> 32) as u32;
                let off = (a & 0xffff_ffff) as usize;
                self.check_range(st, id, off, n)?;
                let size = st.mem.get(id).unwrap().data.len();
                let base = self.ex.c((id as u128) << 32, 64);
                let oe = self.ex.bin(BinOp::Sub, e, base);
                if let Some(k) = self.ex.konst(oe) {
                    return Ok(Addr::C(id, k as usize));
                }
                let lim = self.ex.c((size - n + 1) as u128, 64);
                let inr = self.ex.bin(BinOp::Ult, oe, lim);
                self.decide(st, inr)?;
                Ok(Addr::S(id, oe))
            }
            _ => Err(Stop::Unsupported("aggregate pointer".into())),
        }
    }
    fn byte(&mut self, o: &Obj, off: usize) -> E {
        match &o.sym {
            Some(s) if s[off] != 0 => s[off],
            _ => self.ex.c(o.data[off] as u128, 8),
        }
    }
    fn read_bits(&mut self, o: &Obj, off: usize, n: usize) -> Val {
        if n <= 16 && o.is_conc(off, n) {
            return Val::I(o.get_int(off, n));
        }
        let mut e = self.byte(o, off);
        for i in 1..n {
            let b = self.byte(o, off + i);
            e = self.ex.concat(b, e);
        }
        self.v(e)
    }
    fn load_scalar(&mut self, st: &mut State, p: &Val, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let r = match self.addr(st, p, n)? {
            Addr::C(id, off) => {
                let o = st.mem.get(id).unwrap();
                if n <= 16 && o.is_conc(off, n) {
                    Val::I(o.get_int(off, n))
                } else {
                    let o = o.clone();
                    self.read_bits(&o, off, n)
                }
            }
            Addr::S(id, oe) => {
                let o = st.mem.get(id).unwrap().clone();
                let size = o.data.len();
                let tz = self.tz(oe);
                let ub = self.ex.ub(oe).min((size - n) as u128) as usize;
                let entries = (ub >> tz.min(63)) + 1;
                let conc = n <= 16 && o.is_conc(0, size);
                if conc && entries <= 2048 {
                    let mut bits = 1;
                    while (1usize << bits) < entries {
                        bits += 1;
                    }
                    let mut t = vec![0u128; 1 << bits];
                    for i in 0..entries {
                        t[i] = o.get_int(i << tz, n);
                    }
                    let idx = self.ex.extract(tz, bits, oe);
                    let r = self.ex.lookup(t, idx, (n * 8) as u32);
                    self.v(r)
                } else if entries <= 256 {
                    let mut r = self.read_bits(&o, (entries - 1) << tz, n);
                    for i in (0..entries - 1).rev() {
                        let x = self.read_bits(&o, i << tz, n);
                        let xe = self.e(&x, (n * 8) as u32);
                        let re = self.e(&r, (n * 8) as u32);
                        let k = self.ex.c((i << tz) as u128, 64);
                        let q = self.ex.eq(oe, k);
                        let y = self.ex.ite(q, xe, re);
                        r = self.v(y);
                    }
                    r
                } else {
                    let k = self.concretize(st, &Val::S(oe))? as usize;
                    self.read_bits(&o, k, n)
                }
            }
        };
        if w as usize != n * 8 {
            return Ok(match r {
                Val::I(x) => Val::I(x & mask(w)),
                Val::S(e) => {
                    let t = self.ex.trunc(e, w);
                    self.v(t)
                }
                x => x,
            });
        }
        Ok(r)
    }
    fn add_off(&mut self, p: &Val, off: u64) -> Val {
        match p {
            Val::I(a) => Val::I((*a as u64).wrapping_add(off) as u128),
            Val::S(e) => {
                let k = self.ex.c(off as u128, 64);
                let r = self.ex.bin(BinOp::Add, *e, k);
                self.v(r)
            }
            x => x.clone(),
        }
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Agg(a) => {
                let mut v = Vec::with_capacity(a.elems.len());
                for (off, t) in &a.elems {
                    let q = self.add_off(p, *off);
                    v.push(self.load(st, &q, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                let w = t.width();
                let mut v = vec![];
                if w % 8 == 0 {
                    for i in 0..*n {
                        let q = self.add_off(p, i as u64 * (w / 8) as u64);
                        v.push(self.load_scalar(st, &q, w)?);
                    }
                } else {
                    let x = self.load_scalar(st, p, *n * w)?;
                    for i in 0..*n {
                        v.push(self.extract_val(&x, i * w, w, n * w));
                    }
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Void | Ty::Other => Err(Stop::Unsupported("load type".into())),
            t => self.load_scalar(st, p, t.width()),
        }
    }
    fn extract_val(&mut self, x: &Val, lo: u32, w: u32, _tw: u32) -> Val {
        match x {
            Val::I(_) if lo >= 128 => Val::I(0),
            Val::I(k) => Val::I((k >> lo) & mask(w)),
            Val::S(e) => {
                let r = self.ex.extract(lo, w, *e);
                self.v(r)
            }
            x => x.clone(),
        }
    }
    fn store_scalar(&mut self, st: &mut State, p: &Val, v: &Val, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = match self.addr(st, p, n)? {
            Addr::C(id, off) => (id, off),
            Addr::S(id, oe) => {
                let k = self.concretize(st, &Val::S(oe))? as usize;
                (id, k)
            }
        };
        match v {
            Val::I(x) => {
                let o = st.mem.get_mut(id).unwrap();
                o.set_int(off, n.min(16), *x);
                for i in (16..n).step_by(16) {
                    o.set_int(off + i, (n - i).min(16), 0);
                }
            }
            Val::S(e) => {
                let mut e = *e;
                if w as usize != n * 8 {
                    e = self.ex.zext(e, (n * 8) as u32);
                }
                let mut bs = vec![0 as E; n];
                for i in 0..n {
                    bs[i] = self.ex.extract(i as u32 * 8, 8, e);
                }
                let o = st.mem.get_mut(id).unwrap();
                for i in 0..n {
                    self.set_byte(o, off + i, bs[i]);
                }
            }
            Val::A(_) => return Err(Stop::Unsupported("store aggregate as scalar".into())),
        }
        Ok(())
    }
    fn set_byte(&self, o: &mut Obj, off: usize, b: E) {
        match self.ex.konst(b) {
            Some(c) => {
                o.data[off] = c as u8;
                if let Some(s) = &mut o.sym {
                    s[off] = 0;
                }
            }
            None => o.sym_mut()[off] = b,
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, v: &Val, ty: &Ty) -> R<()> {
        match ty {
            Ty::Agg(a) => {
                let xs = match v {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Unsupported("agg store".into())),
                };
                for (i, (off, t)) in a.elems.iter().enumerate() {
                    let q = self.add_off(p, *off);
                    self.store(st, &q, &xs[i], t)?;
                }
                Ok(())
            }
            Ty::Vec(n, t) => {
                let w = t.width();
                let xs = match v {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Unsupported("vec store".into())),
                };
                if w % 8 == 0 {
                    for i in 0..*n as usize {
                        let q = self.add_off(p, i as u64 * (w / 8) as u64);
                        self.store_scalar(st, &q, &xs[i], w)?;
                    }
                    Ok(())
                } else {
                    let x = self.pack(&xs, w);
                    self.store_scalar(st, p, &x, *n * w)
                }
            }
            Ty::Void | Ty::Other => Err(Stop::Unsupported("store type".into())),
            t => self.store_scalar(st, p, v, t.width()),
        }
    }
    fn pack(&mut self, xs: &[Val], w: u32) -> Val {
        if xs.len() as u32 * w <= 128 && xs.iter().all(|x| matches!(x, Val::I(_))) {
            let mut r = 0u128;
            for (i, x) in xs.iter().enumerate() {
                if let Val::I(k) = x {
                    r |= (k & mask(w)) << (i as u32 * w);
                }
            }
            return Val::I(r);
        }
        let mut e = self.e(&xs[0], w);
        for x in &xs[1..] {
            let h = self.e(x, w);
            e = self.ex.concat(h, e);
        }
        self.v(e)
    }
    // concrete address range (for memcpy-like operations)
    fn range(&mut self, st: &mut State, p: &Val, n: usize) -> R<(u32, usize)> {
        match self.addr(st, p, n)? {
            Addr::C(a, b) => Ok((a, b)),
            Addr::S(id, oe) => {
                let k = self.concretize(st, &Val::S(oe))? as usize;
                Ok((id, k))
            }
        }
    }
    fn read_bytes(&mut self, st: &mut State, p: &Val, n: usize) -> R<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.range(st, p, n)?;
        let o = st.mem.get(id).unwrap();
        Ok((0..n)
            .map(|i| (o.data[off + i], o.sym.as_ref().map_or(0, |s| s[off + i])))
            .collect())
    }
    fn read_str(&mut self, st: &mut State, p: &Val, n: usize) -> R<String> {
        let b = self.read_bytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>()).into_owned())
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.range(st, s, n)?;
        let (di, dof) = self.range(st, d, n)?;
        let src = st.mem.get(si).unwrap().clone();
        if si == di {
            let tmp = (*src).clone();
            drop(src);
            st.mem.get_mut(di).unwrap().copy_from(dof, &tmp, so, n);
        } else {
            st.mem.get_mut(di).unwrap().copy_from(dof, &src, so, n);
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, dof) = self.range(st, d, n)?;
        match v {
            Val::I(x) => {
                let o = st.mem.get_mut(di).unwrap();
                for b in &mut o.data[dof..dof + n] {
                    *b = *x as u8;
                }
                if let Some(s) = &mut o.sym {
                    for b in &mut s[dof..dof + n] {
                        *b = 0;
                    }
                }
            }
            Val::S(e) => {
                let b = self.ex.trunc(*e, 8);
                let o = st.mem.get_mut(di).unwrap();
                for i in 0..n {
                    self.set_byte(o, dof + i, b);
                }
            }
            _ => return Err(Stop::Unsupported("memset".into())),
        }
        Ok(())
    }
    fn bytes_eq(&mut self, a: &[(u8, E)], b: &[(u8, E)]) -> E {
        let mut r = self.ex.tt();
        for (x, y) in a.iter().zip(b) {
            if x.1 == 0 && y.1 == 0 {
                if x.0 != y.0 {
                    return self.ex.ff();
                }
                continue;
            }
            let xe = if x.1 != 0 { x.1 } else { self.ex.c(x.0 as u128, 8) };
            let ye = if y.1 != 0 { y.1 } else { self.ex.c(y.0 as u128, 8) };
            let q = self.ex.eq(xe, ye);
            r = self.ex.and(r, q);
            if self.ex.konst(r) == Some(0) {
                return r;
            }
        }
        r
    }

    // ---- integers wider than 128 bits: concrete, least significant limb first ----
    fn wide(&mut self, st: &mut State, v: &Val, w: u32) -> R<Vec<u64>> {
        let n = ((w + 63) / 64) as usize;
        let mut r = vec![0u64; n];
        match v {
            Val::I(x) => {
                r[0] = *x as u64;
                r[1] = (*x >> 64) as u64;
            }
            Val::S(e) => {
                for i in 0..n {
                    let lo = i as u32 * 64;
                    let p = self.ex.extract(lo, (w - lo).min(64), *e);
                    let p = self.v(p);
                    r[i] = self.concretize(st, &p)? as u64;
                }
            }
            Val::A(_) => return Err(Stop::Unsupported("wide aggregate".into())),
        }
        Ok(r)
    }
    fn unwide(&mut self, mut r: Vec<u64>, w: u32) -> Val {
        let n = r.len();
        if w % 64 != 0 {
            r[n - 1] &= mask(w % 64) as u64;
        }
        if r[2..].iter().all(|x| *x == 0) {
            return Val::I(r[0] as u128 | (r[1] as u128) << 64);
        }
        let mut e = self.ex.c(r[0] as u128, 64);
        for i in 1..n {
            let lo = i as u32 * 64;
            let h = self.ex.c(r[i] as u128, (w - lo).min(64));
            e = self.ex.concat(h, e);
        }
        Val::S(e)
    }
    fn bin_wide(&mut self, st: &mut State, op: BOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        let x = self.wide(st, a, w)?;
        let y = self.wide(st, b, w)?;
        let n = x.len();
        let neg = w % 64 == 0 && x[n - 1] >> 63 == 1 || w % 64 != 0 && (x[n - 1] >> (w % 64 - 1)) & 1 == 1;
        let big = y[1..].iter().any(|v| *v != 0) || y[0] >= w as u64;
        let mut r = vec![0u64; n];
        match op {
            BOp::Add | BOp::Sub => {
                let mut c = (op == BOp::Sub) as u128;
                for i in 0..n {
                    let t = x[i] as u128 + (if op == BOp::Sub { !y[i] } else { y[i] }) as u128 + c;
                    r[i] = t as u64;
                    c = t >> 64;
                }
            }
            BOp::Mul => {
                for i in 0..n {
                    let mut c = 0u128;
                    for j in 0..n - i {
                        let t = x[i] as u128 * y[j] as u128 + r[i + j] as u128 + c;
                        r[i + j] = t as u64;
                        c = t >> 64;
                    }
                }
            }
            BOp::And => (0..n).for_each(|i| r[i] = x[i] & y[i]),
            BOp::Or => (0..n).for_each(|i| r[i] = x[i] | y[i]),
            BOp::Xor => (0..n).for_each(|i| r[i] = x[i] ^ y[i]),
            BOp::Shl if big => {}
            BOp::Shl => {
                let (q, s) = (y[0] as usize / 64, y[0] % 64);
                for i in q..n {
                    r[i] = x[i - q] << s | if s > 0 && i > q { x[i - q - 1] >> (64 - s) } else { 0 };
                }
            }
            BOp::LShr if big => {}
            BOp::LShr => {
                let (q, s) = (y[0] as usize / 64, y[0] % 64);
                for i in 0..n - q {
                    r[i] = x[i + q] >> s | if s > 0 && i + q + 1 < n { x[i + q + 1] << (64 - s) } else { 0 };
                }
            }
            BOp::AShr if !neg => return self.bin_wide(st, BOp::LShr, w, a, b),
            _ => return Err(Stop::Unsupported("operation on an integer wider than 128 bits".into())),
        }
        Ok(self.unwide(r, w))
    }

    // ---- scalar operations ------------------------------------------------
    fn bin(&mut self, op: BOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w > 128 {
            return Err(Stop::Unsupported("operation on integers wider than 128 bits".into()));
        }
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            return Ok(Val::I(match op {
                BOp::Add => x.wrapping_add(y) & m,
                BOp::Sub => x.wrapping_sub(y) & m,
                BOp::Mul => {
                    if w <= 64 {
                        (x as u64).wrapping_mul(y as u64) as u128 & m
                    } else {
                        x.wrapping_mul(y) & m
                    }
                }
                BOp::And => x & y,
                BOp::Or => x | y,
                BOp::Xor => x ^ y,
                BOp::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                BOp::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                BOp::AShr => {
                    let s = (y as u32).min(w - 1);
                    (sext(x, w) >> s) as u128 & m
                }
                BOp::UDiv | BOp::URem | BOp::SDiv | BOp::SRem if y == 0 => return Err(Stop::Violation("ub".into(), "division by zero".into())),
                BOp::UDiv => {
                    if w <= 64 {
                        (x as u64 / y as u64) as u128
                    } else {
                        x / y
                    }
                }
                BOp::URem => {
                    if w <= 64 {
                        (x as u64 % y as u64) as u128
                    } else {
                        x % y
                    }
                }
                BOp::SDiv => sext(x, w).wrapping_div(sext(y, w)) as u128 & m,
                BOp::SRem => sext(x, w).wrapping_rem(sext(y, w)) as u128 & m,
                BOp::FAdd | BOp::FSub | BOp::FMul | BOp::FDiv => {
                    let o = match op {
                        BOp::FAdd => BinOp::FAdd,
                        BOp::FSub => BinOp::FSub,
                        BOp::FMul => BinOp::FMul,
                        _ => BinOp::FDiv,
                    };
                    Exprs::fold(o, x, y, w).unwrap()
                }
            }));
        }
        let o = match op {
            BOp::Add => BinOp::Add,
            BOp::Sub => BinOp::Sub,
            BOp::Mul => BinOp::Mul,
            BOp::And => BinOp::And,
            BOp::Or => BinOp::Or,
            BOp::Xor => BinOp::Xor,
            BOp::Shl => BinOp::Shl,
            BOp::LShr => BinOp::LShr,
            BOp::AShr => BinOp::AShr,
            BOp::UDiv => BinOp::UDiv,
            BOp::URem => BinOp::URem,
            BOp::SDiv => BinOp::SDiv,
            BOp::SRem => BinOp::SRem,
            BOp::FAdd => BinOp::FAdd,
            BOp::FSub => BinOp::FSub,
            BOp::FMul => BinOp::FMul,
            BOp::FDiv => BinOp::FDiv,
        };
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = self.ex.bin(o, x, y);
        Ok(self.v(r))
    }
    fn icmp_wide(&mut self, st: &mut State, pred: i32, w: u32, a: &Val, b: &Val) -> R<Val> {
            let (x, y) = (self.wide(st, a, w)?, self.wide(st, b, w)?);
            let o = x.iter().rev().cmp(y.iter().rev());
            return Ok(Val::I(match pred {
                32 => o.is_eq(),
                33 => o.is_ne(),
                34 => o.is_gt(),
                35 => o.is_ge(),
                36 => o.is_lt(),
                37 => o.is_le(),
                _ => return Err(Stop::Unsupported("signed comparison of integers wider than 128 bits".into())),
            } as u128));
    }
    fn icmp(&mut self, pred: i32, w: u32, a: &Val, b: &Val) -> Val {
        assert!(w <= 128, "comparison of integers wider than 128 bits");
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match pred {
                32 => x == y,
                33 => x != y,
                34 => x > y,
                35 => x >= y,
                36 => x < y,
                37 => x <= y,
                _ => {
                    let (x, y) = (sext(x, w), sext(y, w));
                    match pred {
                        38 => x > y,
                        39 => x >= y,
                        40 => x < y,
                        _ => x <= y,
                    }
                }
            };
            return Val::I(r as u128);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match pred {
            32 => self.ex.eq(x, y),
            33 => self.ex.ne(x, y),
            34 => self.ex.bin(BinOp::Ult, y, x),
            35 => self.ex.bin(BinOp::Ule, y, x),
            36 => self.ex.bin(BinOp::Ult, x, y),
            37 => self.ex.bin(BinOp::Ule, x, y),
            38 => self.ex.bin(BinOp::Slt, y, x),
            39 => self.ex.bin(BinOp::Sle, y, x),
            40 => self.ex.bin(BinOp::Slt, x, y),
            _ => self.ex.bin(BinOp::Sle, x, y),
        };
        self.v(r)
    }
    fn fcmp(&mut self, pred: i32, w: u32, a: &Val, b: &Val) -> Val {
        let x = self.e(a, w);
        let y = self.e(b, w);
        let ux = self.ex.un(UnOp::FUno, x);
        let uy = self.ex.un(UnOp::FUno, y);
        let uno = self.ex.or(ux, uy);
        let ord_r = match pred & 7 {
            0 => self.ex.ff(),
            1 => self.ex.bin(BinOp::FOeq, x, y),
            2 => self.ex.bin(BinOp::FOlt, y, x),
            3 => self.ex.bin(BinOp::FOle, y, x),
            4 => self.ex.bin(BinOp::FOlt, x, y),
            5 => self.ex.bin(BinOp::FOle, x, y),
            6 => {
                let q = self.ex.bin(BinOp::FOeq, x, y);
                let nq = self.ex.not(q);
                let nu = self.ex.not(uno);
                self.ex.and(nq, nu)
            }
            _ => self.ex.not(uno),
        };
        // predicates 8..15 are "unordered or (pred & 7)"
        let r = if pred < 8 {
            ord_r
        } else {
            match pred {
                8 => uno,
                15 => self.ex.tt(),
                _ => self.ex.or(uno, ord_r),
            }
        };
        self.v(r)
    }
    fn select(&mut self, st: &mut State, c: &Val, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        match c {
            Val::I(k) => Ok(if *k != 0 { a.clone() } else { b.clone() }),
            Val::S(ce) => {
                let ce = *ce;
                match ty {
                    Ty::Int(w) => {
                        let x = self.e(a, *w);
                        let y = self.e(b, *w);
                        let r = self.ex.ite(ce, x, y);
                        Ok(self.v(r))
                    }
                    Ty::F32 | Ty::F64 => {
                        let w = ty.width();
                        let x = self.e(a, w);
                        let y = self.e(b, w);
                        let r = self.ex.ite(ce, x, y);
                        Ok(self.v(r))
                    }
                    Ty::Ptr => {
                        let (pa, pb) = (self.ptr_obj(st, a), self.ptr_obj(st, b));
                        if pa == pb {
                            let x = self.e(a, 64);
                            let y = self.e(b, 64);
                            let r = self.ex.ite(ce, x, y);
                            Ok(self.v(r))
                        } else {
                            Ok(if self.decide(st, ce)? { a.clone() } else { b.clone() })
                        }
                    }
                    Ty::Vec(n, t) if matches!(**t, Ty::Int(_)) => {
                        let (xa, xb) = match (a, b) {
                            (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                            _ => return Err(Stop::Unsupported("vec select".into())),
                        };
                        let mut v = vec![];
                        for i in 0..*n as usize {
                            v.push(self.select(st, c, &xa[i], &xb[i], t)?);
                        }
                        Ok(Val::A(Rc::new(v)))
                    }
                    _ => Ok(if self.decide(st, ce)? { a.clone() } else { b.clone() }),
                }
            }
            Val::A(_) => Err(Stop::Unsupported("select cond".into())),
        }
    }
    fn ptr_obj(&mut self, st: &State, v: &Val) -> u64 {
        match v {
            Val::I(x) => (*x as u64) >> 32,
            Val::S(e) => (self.eval(st, *e) as u64) >> 32,
            _ => 0,
        }
    }
    fn cast1(&mut self, k: Cst, wf: u32, wt: u32, a: &Val) -> Val {
        if let Val::I(x) = a {
            let x = *x;
            if k == Cst::SExt && wt > 128 && (x >> (wf - 1)) & 1 == 1 {
                let c = self.ex.c(x, wf);
                return Val::S(self.ex.sext(c, wt));
            }
            return Val::I(match k {
                Cst::Trunc => x & mask(wt),
                Cst::ZExt | Cst::Same | Cst::Bit => x & mask(wt),
                Cst::SExt => sext(x, wf) as u128 & mask(wt),
                Cst::FpToUi => Exprs::cast_fold(CastOp::FToU, x, wf, wt),
                Cst::FpToSi => Exprs::cast_fold(CastOp::FToS, x, wf, wt),
                Cst::UiToFp => Exprs::cast_fold(CastOp::UToF, x, wf, wt),
                Cst::SiToFp => Exprs::cast_fold(CastOp::SToF, x, wf, wt),
                Cst::FpFp => Exprs::cast_fold(CastOp::FToF, x, wf, wt),
            });
        }
        let x = self.e(a, wf);
        let r = match k {
            Cst::Trunc => self.ex.trunc(x, wt),
            Cst::ZExt => self.ex.zext(x, wt),
            Cst::SExt => self.ex.sext(x, wt),
            Cst::Same | Cst::Bit => {
                if wf == wt {
                    x
                } else if wt < wf {
                    self.ex.trunc(x, wt)
                } else {
                    self.ex.zext(x, wt)
                }
            }
            Cst::FpToUi => self.ex.cast(CastOp::FToU, x, wt),
            Cst::FpToSi => self.ex.cast(CastOp::FToS, x, wt),
            Cst::UiToFp => self.ex.cast(CastOp::UToF, x, wt),
            Cst::SiToFp => self.ex.cast(CastOp::SToF, x, wt),
            Cst::FpFp => self.ex.cast(CastOp::FToF, x, wt),
        };
        self.v(r)
    }
    fn cast(&mut self, k: Cst, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        match (from, to) {
            (Ty::Vec(n, f), Ty::Vec(m, t)) => {
                let xs = match a {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Unsupported("vec cast".into())),
                };
                if k == Cst::Same {
                    return Ok(a.clone());
                }
                if k == Cst::Bit {
                    let p = self.pack(&xs, f.width());
                    let w = t.width();
                    let r = (0..*m).map(|i| self.extract_val(&p, i * w, w, m * w)).collect();
                    return Ok(Val::A(Rc::new(r)));
                }
                let r = (0..*n as usize).map(|i| self.cast1(k, f.width(), t.width(), &xs[i])).collect();
                Ok(Val::A(Rc::new(r)))
            }
            (Ty::Vec(_, f), _) => {
                let xs = match a {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Unsupported("vec cast".into())),
                };
                Ok(self.pack(&xs, f.width()))
            }
            (_, Ty::Vec(m, t)) => {
                let w = t.width();
                let r = (0..*m).map(|i| self.extract_val(a, i * w, w, m * w)).collect();
                Ok(Val::A(Rc::new(r)))
            }
            (Ty::Agg(_), _) => Ok(a.clone()),
            _ => Ok(self.cast1(k, from.width(), to.width(), a)),
        }
    }

    // ---- control ----------------------------------------------------------
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let cur = st.cur;
        let fr = Rc::make_mut(st.fibers[cur].frames.last_mut().unwrap());
        let b = &fr.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let inc = b.incoming.iter().find(|x| x.0 == fr.block);
            let vals: Vec<Val> = match inc {
                Some((_, os)) => os
                    .iter()
                    .map(|o| match o {
                        Opd::R(r) => fr.regs[*r as usize].clone(),
                        Opd::K(v) => v.clone(),
                    })
                    .collect(),
                None => return Err(Stop::Unsupported("phi without incoming".into())),
            };
            for (i, v) in vals.into_iter().enumerate() {
                fr.regs[b.phis[i] as usize] = v;
            }
        }
        fr.block = to;
        fr.pc = 0;
        Ok(())
    }
    fn enter(&mut self, st: &mut State, fid: u32, args: Vec<Val>) -> R<()> {
        let f = self.md.body(fid);
        self.res.fns.insert(fid);
        let cur = st.cur;
        let bytes = st.fibers[cur].frames.last().map_or(0, |f| f.bytes) + FRAME;
        if bytes > STACK {
            return Err(Stop::Violation("stack overflow".into(), f.name.clone()));
        }
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.nparams as usize {
                regs[i] = a;
            }
        }
        st.fibers[cur].frames.push(Rc::new(Frame { f, block: 0, pc: 0, regs, allocas: vec![], bytes }));
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State) {
        let cur = st.cur;
        let fr = st.fibers[cur].frames.pop().unwrap();
        for &a in &fr.allocas {
            st.mem.free(a);
        }
    }
    // the current instruction of the top frame is a call: deliver its result
    fn finish_call(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let cur = st.cur;
        let fr = Rc::make_mut(st.fibers[cur].frames.last_mut().unwrap());
        let inst = &fr.f.blocks[fr.block as usize].insts[fr.pc as usize];
        if let Inst::Call { dst, invoke, .. } = inst {
            if *dst != NOREG {
                if let Some(v) = v {
                    fr.regs[*dst as usize] = v;
                }
            }
            match invoke {
                Some((n, _)) => {
                    let n = *n;
                    self.jump(st, n)
                }
                None => {
                    fr.pc += 1;
                    Ok(())
                }
            }
        } else {
            Err(Stop::Unsupported("return into a non-call".into()))
        }
    }
    fn unwind(&mut self, st: &mut State, exc: u64) -> R<()> {
        let cur = st.cur;
        loop {
            let n = st.fibers[cur].frames.len();
            if n == 0 {
                let loc = st.panic_loc.clone();
                return Err(Stop::Violation("panic".into(), format!("uncaught panic at {}", loc)));
            }
            let fr = st.fibers[cur].frames.last().unwrap();
            if let Inst::Call { invoke: Some((_, u)), .. } = &fr.f.blocks[fr.block as usize].insts[fr.pc as usize] {
                let u = *u;
                st.fibers[cur].exc = exc;
                return self.jump(st, u);
            }
            if n == 1 {
                let loc = st.panic_loc.clone();
                return Err(Stop::Violation("panic".into(), format!("uncaught panic at {}", loc)));
            }
            self.pop_frame(st);
        }
    }

    pub fn run(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick >= 200_000 {
                tick = 0;
                if Instant::now() > self.cfg.deadline {
                    return Stop::Limit("time".into());
                }
                if st.steps > self.cfg.max_steps {
                    return Stop::Limit(format!("more than {} instructions on one path", self.cfg.max_steps));
                }
            }
            st.steps += 1;
            self.res.steps += 1;
            if let Err(s) = self.step(st) {
                return s;
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        let fr: *mut Frame = Rc::make_mut(st.fibers[cur].frames.last_mut().unwrap());
        // `fr` stays valid until a frame is pushed/popped or the state is cloned+mutated; clones taken by
        // `decide` share the Rc, so re-fetch through `top!` before mutating after a decision.
        let fref = unsafe { &*fr };
        let f = fref.f;
        let inst = &f.blocks[fref.block as usize].insts[fref.pc as usize];
        macro_rules! get {
            ($o:expr) => {
                match $o {
                    Opd::R(r) => fref.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                }
            };
        }
        macro_rules! set {
            ($dst:expr, $v:expr) => {{
                let v = $v;
                let t = Rc::make_mut(st.fibers[cur].frames.last_mut().unwrap());
                t.regs[$dst as usize] = v;
                t.pc += 1;
                return Ok(());
            }};
        }
        match inst {
            Inst::Bin { op, w, vec, a, b, dst } => {
                let (x, y) = (get!(a), get!(b));
                if *vec {
                    if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                        let mut r = Vec::with_capacity(xs.len());
                        for i in 0..xs.len() {
                            r.push(self.bin(*op, *w, &xs[i], &ys[i])?);
                        }
                        set!(*dst, Val::A(Rc::new(r)));
                    }
                    return Err(Stop::Unsupported("vector operand".into()));
                }
                let r = if *w > 128 { self.bin_wide(st, *op, *w, &x, &y)? } else { self.bin(*op, *w, &x, &y)? };
                set!(*dst, r)
            }
            Inst::ICmp { pred, w, vec, a, b, dst } => {
                let (x, y) = (get!(a), get!(b));
                if *vec {
                    if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                        let r = (0..xs.len()).map(|i| self.icmp(*pred, *w, &xs[i], &ys[i])).collect();
                        set!(*dst, Val::A(Rc::new(r)));
                    }
                    return Err(Stop::Unsupported("vector operand".into()));
                }
                let r = if *w > 128 { self.icmp_wide(st, *pred, *w, &x, &y)? } else { self.icmp(*pred, *w, &x, &y) };
                set!(*dst, r)
            }
            Inst::FCmp { pred, w, a, b, dst } => {
                let (x, y) = (get!(a), get!(b));
                let r = self.fcmp(*pred, *w, &x, &y);
                set!(*dst, r)
            }
            Inst::FNeg { w, a, dst } => {
                let x = get!(a);
                let e = self.e(&x, *w);
                let r = self.ex.un(UnOp::FNeg, e);
                set!(*dst, self.v(r))
            }
            Inst::Select { vecc, c, a, b, ty, dst } => {
                let (cv, x, y) = (get!(c), get!(a), get!(b));
                if *vecc {
                    if let (Val::A(cs), Val::A(xs), Val::A(ys), Ty::Vec(_, t)) = (&cv, &x, &y, ty) {
                        let mut r = vec![];
                        for i in 0..cs.len() {
                            r.push(self.select(st, &cs[i], &xs[i], &ys[i], t)?);
                        }
                        set!(*dst, Val::A(Rc::new(r)));
                    }
                    return Err(Stop::Unsupported("vector select".into()));
                }
                let r = self.select(st, &cv, &x, &y, ty)?;
                set!(*dst, r)
            }
            Inst::Cast { k, from, to, a, dst } => {
                let x = get!(a);
                let r = self.cast(*k, from, to, &x)?;
                set!(*dst, r)
            }
            Inst::Alloca { size, count, dst } => {
                let n = match get!(count) {
                    Val::I(n) => n as u64,
                    _ => return Err(Stop::Unsupported("symbolic alloca".into())),
                };
                let id = st.mem.alloc(Obj::new((*size * n) as usize, true));
                let t = Rc::make_mut(st.fibers[cur].frames.last_mut().unwrap());
                t.allocas.push(id);
                t.bytes += *size * n;
                t.regs[*dst as usize] = Val::I((id as u128) << 32);
                t.pc += 1;
                Ok(())
            }
            Inst::Load { ty, p, dst } => {
                let q = get!(p);
                let r = self.load(st, &q, ty)?;
                set!(*dst, r)
            }
            Inst::Store { ty, v, p } => {
                let q = get!(p);
                let x = get!(v);
                self.store(st, &q, &x, ty)?;
                Rc::make_mut(st.fibers[cur].frames.last_mut().unwrap()).pc += 1;
                Ok(())
            }
            Inst::Gep { base, off, terms, dst } => {
                let b = get!(base);
                let mut conc: u64 = *off as u64;
                let mut acc: Option<E> = None;
                match &b {
                    Val::I(x) => conc = conc.wrapping_add(*x as u64),
                    Val::S(e) => acc = Some(*e),
                    _ => return Err(Stop::Unsupported("gep base".into())),
                }
                for (o, w, sc) in terms {
                    match get!(o) {
                        Val::I(x) => conc = conc.wrapping_add((sext(x, *w) as i64).wrapping_mul(*sc) as u64),
                        Val::S(e) => {
                            let x = self.ex.sext(e, 64);
                            let k = self.ex.c(*sc as u64 as u128, 64);
                            let t = self.ex.bin(BinOp::Mul, x, k);
                            acc = Some(match acc {
                                None => t,
                                Some(a) => self.ex.bin(BinOp::Add, a, t),
                            });
                        }
                        _ => return Err(Stop::Unsupported("gep index".into())),
                    }
                }
                let r = match acc {
                    None => Val::I(conc as u128),
                    Some(a) => {
                        let k = self.ex.c(conc as u128, 64);
                        let s = self.ex.bin(BinOp::Add, a, k);
                        self.v(s)
                    }
                };
                set!(*dst, r)
            }
            Inst::Br(b) => self.jump(st, *b),
            Inst::CondBr(c, t, e) => {
                let to = match get!(c) {
                    Val::I(k) => {
                        if k != 0 {
                            *t
                        } else {
                            *e
                        }
                    }
                    Val::S(ce) => {
                        if self.decide(st, ce)? {
                            *t
                        } else {
                            *e
                        }
                    }
                    _ => return Err(Stop::Unsupported("branch on aggregate".into())),
                };
                self.jump(st, to)
            }
            Inst::Switch { v, w, default, cases } => {
                let x = get!(v);
                let to = match x {
                    Val::I(k) => cases.iter().find(|c| c.0 == k).map_or(*default, |c| c.1),
                    Val::S(e) => {
                        // try the case the current model takes first
                        let k = self.eval(st, e);
                        let target = cases.iter().find(|c| c.0 == k).map_or(*default, |c| c.1);
                        let mut cond = self.ex.ff();
                        if target == *default && !cases.iter().any(|c| c.0 == k) {
                            // default: none of the cases leading elsewhere
                            for (ck, cb) in cases {
                                if *cb != *default {
                                    let kc = self.ex.c(*ck, *w);
                                    let q = self.ex.eq(e, kc);
                                    cond = self.ex.or(cond, q);
                                }
                            }
                            cond = self.ex.not(cond);
                        } else {
                            for (ck, cb) in cases {
                                if *cb == target {
                                    let kc = self.ex.c(*ck, *w);
                                    let q = self.ex.eq(e, kc);
                                    cond = self.ex.or(cond, q);
                                }
                            }
                        }
                        if !self.decide(st, cond)? {
                            return Err(Stop::Unsupported("switch model mismatch".into()));
                        }
                        target
                    }
                    _ => return Err(Stop::Unsupported("switch".into())),
                };
                self.jump(st, to)
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| get!(o));
                self.pop_frame(st);
                if st.fibers[cur].frames.is_empty() {
                    if cur == 0 {
                        return Err(Stop::Done);
                    }
                    return Err(Stop::Unsupported("fiber entry returned".into()));
                }
                self.finish_call(st, v)
            }
            Inst::Unreachable => Err(Stop::Violation("ub".into(), format!("unreachable reached in {}", f.name))),
            Inst::Resume(v) => {
                let x = get!(v);
                let exc = match &x {
                    Val::A(xs) => match xs[0] {
                        Val::I(a) => a as u64,
                        _ => 0,
                    },
                    _ => 0,
                };
                if st.fibers[cur].frames.len() == 1 {
                    let loc = st.panic_loc.clone();
                    return Err(Stop::Violation("panic".into(), format!("uncaught panic at {}", loc)));
                }
                self.pop_frame(st);
                self.unwind(st, exc)
            }
            Inst::LandingPad { dst } => {
                let exc = st.fibers[cur].exc;
                set!(*dst, Val::A(Rc::new(vec![Val::I(exc as u128), Val::I(1)])))
            }
            Inst::ExtractValue { a, idx, dst } => {
                let mut x = get!(a);
                for &i in idx {
                    x = match &x {
                        Val::A(v) => v[i as usize].clone(),
                        _ => return Err(Stop::Unsupported("extractvalue".into())),
                    };
                }
                set!(*dst, x)
            }
            Inst::InsertValue { a, v, idx, dst } => {
                let mut x = get!(a);
                let y = get!(v);
                fn ins(x: &mut Val, idx: &[u32], y: Val) {
                    if idx.is_empty() {
                        *x = y;
                        return;
                    }
                    if let Val::A(v) = x {
                        ins(&mut Rc::make_mut(v)[idx[0] as usize], &idx[1..], y);
                    }
                }
                ins(&mut x, idx, y);
                set!(*dst, x)
            }
            Inst::ExtractElement { a, i, dst } => {
                let x = get!(a);
                let iv = get!(i);
                let k = self.concretize(st, &iv)? as usize;
                match &x {
                    Val::A(v) if k < v.len() => set!(*dst, v[k].clone()),
                    _ => Err(Stop::Unsupported("extractelement".into())),
                }
            }
            Inst::InsertElement { a, v, i, dst } => {
                let mut x = get!(a);
                let y = get!(v);
                let iv = get!(i);
                let k = self.concretize(st, &iv)? as usize;
                if let Val::A(v) = &mut x {
                    Rc::make_mut(v)[k] = y;
                }
                set!(*dst, x)
            }
            Inst::Shuffle { a, b, mask, n, dst } => {
                let (x, y) = (get!(a), get!(b));
                if let (Val::A(xs), Val::A(ys)) = (&x, &y) {
                    let r = mask
                        .iter()
                        .map(|&k| {
                            if k < 0 {
                                Val::I(0)
                            } else if (k as u32) < *n {
                                xs[k as usize].clone()
                            } else {
                                ys[k as usize - *n as usize].clone()
                            }
                        })
                        .collect();
                    set!(*dst, Val::A(Rc::new(r)))
                }
                Err(Stop::Unsupported("shuffle".into()))
            }
            Inst::Fence => {
                Rc::make_mut(st.fibers[cur].frames.last_mut().unwrap()).pc += 1;
                Ok(())
            }
            Inst::Rmw { op, w, p, v, dst } => {
                let (q, x) = (get!(p), get!(v));
                let old = self.load_scalar(st, &q, *w)?;
                let new = match op {
                    0 => x,
                    1 => self.bin(BOp::Add, *w, &old, &x)?,
                    2 => self.bin(BOp::Sub, *w, &old, &x)?,
                    3 => self.bin(BOp::And, *w, &old, &x)?,
                    4 => {
                        let a = self.bin(BOp::And, *w, &old, &x)?;
                        self.bin(BOp::Xor, *w, &a, &Val::I(mask(*w)))?
                    }
                    5 => self.bin(BOp::Or, *w, &old, &x)?,
                    6 => self.bin(BOp::Xor, *w, &old, &x)?,
                    7 | 8 | 9 | 10 => {
                        let pred = match op {
                            7 => 38,
                            8 => 40,
                            9 => 34,
                            _ => 36,
                        };
                        let c = self.icmp(pred, *w, &old, &x);
                        self.select(st, &c, &old, &x, &Ty::Int(*w))?
                    }
                    _ => return Err(Stop::Unsupported(format!("atomicrmw {}", op))),
                };
                self.store_scalar(st, &q, &new, *w)?;
                set!(*dst, old)
            }
            Inst::CmpXchg { w, p, cmp, new, dst } => {
                let (q, c, nv) = (get!(p), get!(cmp), get!(new));
                let old = self.load_scalar(st, &q, *w)?;
                let eq = self.icmp(32, *w, &old, &c);
                let t = match eq {
                    Val::I(k) => k != 0,
                    Val::S(e) => self.decide(st, e)?,
                    _ => false,
                };
                if t {
                    self.store_scalar(st, &q, &nv, *w)?;
                }
                set!(*dst, Val::A(Rc::new(vec![old, Val::I(t as u128)])))
            }
            Inst::Call { callee, args, ret, .. } => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(get!(a));
                }
                let fid = match callee {
                    Callee::Direct(id) => *id,
                    Callee::Indirect(o) => {
                        let t = get!(o);
                        let a = self.concretize(st, &t)? as u64;
                        let id = a >> 32;
                        if id < FN_BASE || id - FN_BASE >= self.md.fns.len() as u64 || a & 0xffff_ffff != 0 {
                            return Err(Stop::Violation("memory".into(), format!("call through invalid pointer {:#x} in {}", a, f.name)));
                        }
                        (id - FN_BASE) as u32
                    }
                    Callee::Asm(s) => {
                        if s.contains("asm sideeffect \"\"") || s.contains("asm \"\"") {
                            return self.finish_call(st, None);
                        }
                        if s.contains("cpuid") {
                            // a processor without optional features
                            return self.finish_call(st, Some(Val::A(Rc::new(vec![Val::I(0), Val::I(0), Val::I(0), Val::I(0)]))));
                        }
                        return Err(Stop::Unsupported(format!("inline assembly {}", s)));
                    }
                };
                let bi = match self.bis[fid as usize] {
                    Some(b) => b,
                    None => {
                        let b = self.classify(fid);
                        self.bis[fid as usize] = Some(b);
                        b
                    }
                };
                match bi {
                    Bi::Body => self.enter(st, fid, av),
                    Bi::Redirect(r) => self.enter(st, r, av),
                    Bi::Missing => Err(Stop::Unsupported(format!("call to external {} from {}", self.md.fns[fid as usize].name, self.top_names(st, 6)))),
                    b => self.builtin(st, b, fid, av, ret),
                }
            }
            Inst::Unsupported(s) => Err(Stop::Unsupported(s.clone())),
        }
    }

    fn classify(&mut self, fid: u32) -> Bi {
        let e = &self.md.fns[fid as usize];
        let n = e.name.as_str();
        if let Some(b) = intrinsic(n) {
            return b;
        }
        let b = match n {
            "malloc" => Bi::Malloc,
            "calloc" => Bi::Calloc,
            "realloc" => Bi::Realloc,
            "free" => Bi::Free,
            "posix_memalign" => Bi::PosixMemalign,
            "memcpy" | "memmove" => Bi::CMemcpy,
            "memset" => Bi::CMemset,
            "memcmp" | "bcmp" => Bi::Memcmp,
            "strlen" => Bi::Strlen,
            "memchr" => Bi::Memchr,
            "memrchr" => Bi::Memrchr,
            "__errno_location" => Bi::Errno,
            "abort" | "_exit" => Bi::Abort,
            "_Unwind_RaiseException" | "_Unwind_Resume" => Bi::Raise,
            "_Unwind_DeleteException" => Bi::DeleteExc,
            "_Unwind_Backtrace" => Bi::Zero,
            "pthread_self" => Bi::One,
            "vrt_any" => Bi::Any,
            "vrt_assume" => Bi::Assume,
            "vrt_assert" => Bi::Assert,
            "vrt_eq" => Bi::Eq,
            "vrt_observe" => Bi::Observe,
            "vrt_reach" => Bi::Reach,
            "vrt_is_sym" => Bi::IsSym,
            "vrt_hash" => Bi::Hash,
            "vrt_fail" => Bi::Fail,
            "vrt_stop" => Bi::StopPath,
            "vrt_fiber_new" => Bi::FiberNew,
            "vrt_fiber_switch" => Bi::FiberSwitch,
            "vrt_fiber_cur" => Bi::FiberCur,
            "vrt_concretize" => Bi::Concretize,
            "vrt_debug" => Bi::Debug,
            _ => Bi::Body,
        };
        if b != Bi::Body {
            return b;
        }
        if !e.decl {
            // functions of the standard library with modelled behaviour (v0 symbol names)
            if n.contains("3std2io5stdio") && (n.ends_with("6__print") || n.ends_with("7__eprint") || n.ends_with("6_print") || n.ends_with("7_eprint")) {
                return Bi::Ignore;
            }
            if n.contains("4core3fmt5write") && n.contains("4core3fmt5writeC") {
                return Bi::FmtWrite;
            }
            if n.contains("4core9panicking9panic_fmt") || n.contains("4core9panicking18panic_nounwind_fmt") {
                return Bi::PanicFmt;
            }
            return Bi::Body;
        }
        let r = format!("vrt_posix_{}", n);
        if let Some(&id) = self.md.fn_by_name.get(&r) {
            if !self.md.fns[id as usize].decl {
                return Bi::Redirect(id);
            }
        }
        Bi::Missing
    }

    fn panic_location(&mut self, st: &mut State, p: &Val) -> String {
        // core::panic::Location { filename: &str (ptr, len), line: u32, col: u32 }
        let mut go = || -> R<String> {
            let f = self.load_scalar(st, p, 64)?;
            let q = self.add_off(p, 8);
            let l = self.load_scalar(st, &q, 64)?;
            let q = self.add_off(p, 16);
            let line = self.load_scalar(st, &q, 32)?;
            if let (Val::I(l), Val::I(line)) = (l, line) {
                if l < 4096 {
                    let mut s = self.read_str(st, &f, l as usize)?;
                    while s.ends_with('\0') {
                        s.pop();
                    }
                    return Ok(format!("{}:{}", s, line));
                }
            }
            Ok("?".into())
        };
        go().unwrap_or("?".into())
    }

    fn builtin(&mut self, st: &mut State, b: Bi, fid: u32, a: Vec<Val>, ret: &Ty) -> R<()> {
        let rw = ret.width();
        macro_rules! done {
            ($v:expr) => {{
                let v = $v;
                return self.finish_call(st, Some(v));
            }};
        }
        macro_rules! done0 {
            () => {
                return self.finish_call(st, None)
            };
        }
        macro_rules! lanes {
            ($f:expr) => {{
                if let Ty::Vec(n, t) = ret {
                    let w = t.width();
                    let mut r = vec![];
                    for i in 0..*n as usize {
                        let xs: Vec<Val> = a
                            .iter()
                            .map(|x| match x {
                                Val::A(v) => v[i].clone(),
                                x => x.clone(),
                            })
                            .collect();
                        r.push(self.scalar_intrinsic(st, b, w, &xs)?);
                    }
                    done!(Val::A(Rc::new(r)))
                } else {
                    let r = self.scalar_intrinsic(st, b, rw, &a)?;
                    done!(r)
                }
            }};
        }
        match b {
            Bi::MinMax(_) | Bi::Abs | Bi::Ctpop | Bi::Ctlz | Bi::Cttz | Bi::Bswap | Bi::BitRev | Bi::Fshl | Bi::Fshr | Bi::Sat(_) => lanes!(()),
            Bi::Memcpy => {
                let n = self.concretize(st, &a[2])? as usize;
                self.memcpy(st, &a[0], &a[1], n)?;
                done0!()
            }
            Bi::CMemcpy => {
                let n = self.concretize(st, &a[2])? as usize;
                self.memcpy(st, &a[0], &a[1], n)?;
                done!(a[0].clone())
            }
            Bi::Memset => {
                let n = self.concretize(st, &a[2])? as usize;
                self.memset(st, &a[0], &a[1], n)?;
                done0!()
            }
            Bi::CMemset => {
                let n = self.concretize(st, &a[2])? as usize;
                self.memset(st, &a[0], &a[1], n)?;
                done!(a[0].clone())
            }
            Bi::Ovf(k) => {
                let w = match ret {
                    Ty::Agg(x) => x.elems[0].1.width(),
                    _ => return Err(Stop::Unsupported("ovf".into())),
                };
                let (r, o) = self.overflow(k, w, &a[0], &a[1])?;
                done!(Val::A(Rc::new(vec![r, o])))
            }
            Bi::Cmp3(signed) => {
                let w = self.width_from_name(fid);
                let lt = self.icmp(if signed { 40 } else { 36 }, w, &a[0], &a[1]);
                let gt = self.icmp(if signed { 38 } else { 34 }, w, &a[0], &a[1]);
                let t = Ty::Int(rw);
                let x = self.select(st, &gt, &Val::I(1), &Val::I(0), &t)?;
                let y = self.select(st, &lt, &Val::I(mask(rw)), &x, &t)?;
                done!(y)
            }
            Bi::Zero => done!(ret.zero()),
            Bi::One => done!(Val::I(1)),
            Bi::Nop | Bi::Ignore => done0!(),
            Bi::Arg0 => done!(a[0].clone()),
            Bi::Tls => {
                let g = match a[0] {
                    Val::I(x) => ((x as u64) >> 32) as u32,
                    _ => return Err(Stop::Unsupported("tls".into())),
                };
                let off = match a[0] {
                    Val::I(x) => x & 0xffff_ffff,
                    _ => 0,
                };
                let cur = st.cur;
                let id = match st.fibers[cur].tls.iter().find(|x| x.0 == g) {
                    Some(x) => x.1,
                    None => {
                        let b = self.md.init_bytes((g as u64 - GLOBAL_BASE) as u32);
                        let id = st.mem.alloc(Obj { data: b, sym: None, stack: false });
                        st.fibers[cur].tls.push((g, id));
                        id
                    }
                };
                done!(Val::I(((id as u128) << 32) | off))
            }
            Bi::Trap | Bi::Abort => Err(Stop::Violation("abort".into(), format!("abort in {} (last panic {})", self.top_names(st, 3), st.panic_loc))),
            Bi::LoadRel => {
                let p = match (&a[0], &a[1]) {
                    (Val::I(x), Val::I(y)) => Val::I((*x as u64).wrapping_add(*y as u64) as u128),
                    _ => {
                        let off = self.concretize(st, &a[1])?;
                        self.add_off(&a[0], off as u64)
                    }
                };
                let _ = p;
                Err(Stop::Unsupported("llvm.load.relative".into()))
            }
            Bi::Reduce(k) => {
                let xs = match &a[0] {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Unsupported("reduce".into())),
                };
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = match k {
                        0 => self.bin(BOp::Or, rw, &acc, x)?,
                        1 => self.bin(BOp::And, rw, &acc, x)?,
                        2 => self.bin(BOp::Add, rw, &acc, x)?,
                        5 => self.bin(BOp::Xor, rw, &acc, x)?,
                        3 | 4 => {
                            let c = self.icmp(if k == 3 { 34 } else { 36 }, rw, &acc, x);
                            self.select(st, &c, &acc, x, &Ty::Int(rw))?
                        }
                        _ => return Err(Stop::Unsupported("reduce".into())),
                    };
                }
                done!(acc)
            }
            Bi::Movmsk => {
                let xs = match &a[0] {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Unsupported("movmsk".into())),
                };
                let bits: Vec<Val> = xs.iter().map(|x| self.extract_val(x, 7, 1, 8)).collect();
                let p = self.pack(&bits, 1);
                let r = self.cast1(Cst::ZExt, bits.len() as u32, 32, &p);
                done!(r)
            }
            Bi::FpSat(signed) => {
                let n = self.md.fns[fid as usize].name.clone();
                let fw = if n.ends_with("f64") { 64 } else { 32 };
                let x = match &a[0] {
                    Val::I(x) => {
                        let d = if fw == 64 { f64::from_bits(*x as u64) } else { f32::from_bits(*x as u32) as f64 };
                        let r: u128 = if signed {
                            let lim = (1i128 << (rw - 1)) - 1;
                            let v = if d.is_nan() { 0 } else { (d as i128).max(-lim - 1).min(lim) };
                            v as u128 & mask(rw)
                        } else {
                            let v = if d.is_nan() || d < 0.0 { 0 } else { d as u128 };
                            v.min(mask(rw))
                        };
                        Val::I(r)
                    }
                    Val::S(e) => {
                        let e = *e;
                        if fw != 64 || rw > 64 {
                            return Err(Stop::Unsupported("fpsat".into()));
                        }
                        let (lo, hi, vlo, vhi): (f64, f64, u128, u128) = if signed {
                            let h = 2f64.powi(rw as i32 - 1);
                            (-h, h, 1u128 << (rw - 1), mask(rw) >> 1)
                        } else {
                            (0.0, 2f64.powi(rw as i32), 0, mask(rw))
                        };
                        let nan = self.ex.un(UnOp::FUno, e);
                        let loc = self.ex.c(lo.to_bits() as u128, 64);
                        let hic = self.ex.c(hi.to_bits() as u128, 64);
                        let below = self.ex.bin(BinOp::FOlt, e, loc);
                        let above = self.ex.bin(BinOp::FOle, hic, e);
                        let conv = self.ex.cast(if signed { CastOp::FToS } else { CastOp::FToU }, e, rw);
                        let cl = self.ex.c(vlo, rw);
                        let ch = self.ex.c(vhi, rw);
                        let z = self.ex.c(0, rw);
                        let r = self.ex.ite(above, ch, conv);
                        let r = self.ex.ite(below, cl, r);
                        let r = self.ex.ite(nan, z, r);
                        self.v(r)
                    }
                    _ => return Err(Stop::Unsupported("fpsat".into())),
                };
                done!(x)
            }
            Bi::Fabs => {
                let r = self.bin(BOp::And, rw, &a[0], &Val::I(mask(rw) >> 1))?;
                done!(r)
            }
            Bi::CopySign => {
                let m = self.bin(BOp::And, rw, &a[0], &Val::I(mask(rw) >> 1))?;
                let s = self.bin(BOp::And, rw, &a[1], &Val::I(1u128 << (rw - 1)))?;
                let r = self.bin(BOp::Or, rw, &m, &s)?;
                done!(r)
            }
            Bi::Powi => {
                // as compiler-rt does it
                let mut n = self.concretize(st, &a[1])? as u32 as i32;
                let neg = n < 0;
                let one = if rw == 64 { Val::I(1f64.to_bits() as u128) } else { Val::I(1f32.to_bits() as u128) };
                let (mut r, mut x) = (one.clone(), a[0].clone());
                loop {
                    if n & 1 != 0 {
                        r = self.bin(BOp::FMul, rw, &r, &x)?;
                    }
                    n /= 2;
                    if n == 0 {
                        break;
                    }
                    x = self.bin(BOp::FMul, rw, &x, &x)?;
                }
                if neg {
                    r = self.bin(BOp::FDiv, rw, &one, &r)?;
                }
                done!(r)
            }
            Bi::Libm(k) => {
                if rw != 64 {
                    return Err(Stop::Unsupported("mathematical function of a 32-bit float".into()));
                }
                let x = f64::from_bits(self.concretize(st, &a[0])? as u64);
                let r = match k {
                    0 => x.powf(f64::from_bits(self.concretize(st, &a[1])? as u64)),
                    1 => x.exp(),
                    2 => x.exp2(),
                    3 => x.ln(),
                    4 => x.log2(),
                    5 => x.log10(),
                    6 => x.sin(),
                    _ => x.cos(),
                };
                done!(Val::I(r.to_bits() as u128))
            }
            Bi::FRound(k) => {
                let x = self.e(&a[0], rw);
                let r = self.ex.un(UnOp::FRound(k as u8), x);
                done!(self.v(r))
            }
            Bi::FMinMax(max) => {
                let c = self.fcmp(if max { 2 } else { 4 }, rw, &a[0], &a[1]);
                let r = self.select(st, &c, &a[0], &a[1], &Ty::Int(rw))?;
                done!(r)
            }
            Bi::Fmuladd => {
                let m = self.bin(BOp::FMul, rw, &a[0], &a[1])?;
                let r = self.bin(BOp::FAdd, rw, &m, &a[2])?;
                done!(r)
            }
            Bi::PtrMask => {
                let r = self.bin(BOp::And, 64, &a[0], &a[1])?;
                done!(r)
            }
            Bi::Malloc | Bi::Calloc => {
                let mut n = self.concretize(st, &a[0])?;
                if b == Bi::Calloc {
                    n *= self.concretize(st, &a[1])?;
                }
                if n > 1 << 30 {
                    // allocation failure
                    done!(Val::I(0))
                }
                if st.mem.bytes + n as u64 > 2 << 30 {
                    return Err(Stop::Limit("more than 2 GiB of memory on one path".into()));
                }
                let id = st.mem.alloc(Obj::new(n as usize, false));
                done!(Val::I((id as u128) << 32))
            }
            Bi::PosixMemalign => {
                let n = self.concretize(st, &a[2])?;
                if n > 1 << 30 {
                    done!(Val::I(12))
                }
                let id = st.mem.alloc(Obj::new(n as usize, false));
                self.store_scalar(st, &a[0], &Val::I((id as u128) << 32), 64)?;
                done!(Val::I(0))
            }
            Bi::Realloc => {
                let n = self.concretize(st, &a[1])?;
                if n > 1 << 30 {
                    done!(Val::I(0))
                }
                let p = match a[0] {
                    Val::I(x) => x as u64,
                    _ => return Err(Stop::Unsupported("realloc".into())),
                };
                let id = (p >> 32) as u32;
                if p == 0 {
                    let id = st.mem.alloc(Obj::new(n as usize, false));
                    done!(Val::I((id as u128) << 32))
                }
                let old = st.mem.get(id).map(|o| o.data.len()).unwrap_or(0) as u64;
                st.mem.bytes = st.mem.bytes - old + n as u64;
                if st.mem.bytes > 2 << 30 {
                    return Err(Stop::Limit("more than 2 GiB of memory on one path".into()));
                }
                match st.mem.get_mut(id) {
                    Some(o) if p & 0xffff_ffff == 0 => {
                        o.data.resize(n as usize, 0);
                        if let Some(s) = &mut o.sym {
                            s.resize(n as usize, 0);
                        }
                    }
                    _ => return Err(Stop::Violation("memory".into(), "realloc of an invalid pointer".into())),
                }
                done!(a[0].clone())
            }
            Bi::Free => {
                if let Val::I(p) = a[0] {
                    let p = p as u64;
                    if p != 0 && (p & 0xffff_ffff != 0 || !st.mem.free((p >> 32) as u32)) {
                        return Err(Stop::Violation("memory".into(), format!("free of an invalid pointer {:#x}", p)));
                    }
                }
                done0!()
            }
            Bi::Memcmp => {
                let n = self.concretize(st, &a[2])? as usize;
                let x = self.read_bytes(st, &a[0], n)?;
                let y = self.read_bytes(st, &a[1], n)?;
                if x.iter().chain(&y).all(|b| b.1 == 0) {
                    let r = x.iter().map(|b| b.0).cmp(y.iter().map(|b| b.0)) as i8 as i32 as u32;
                    done!(Val::I(r as u128))
                }
                let is_b = self.md.fns[fid as usize].name == "bcmp";
                if is_b {
                    let q = self.bytes_eq(&x, &y);
                    let z = self.ex.c(0, 32);
                    let o = self.ex.c(1, 32);
                    let r = self.ex.ite(q, z, o);
                    done!(self.v(r))
                }
                let mut r = self.ex.c(0, 32);
                for i in (0..n).rev() {
                    let xe = if x[i].1 != 0 { x[i].1 } else { self.ex.c(x[i].0 as u128, 8) };
                    let ye = if y[i].1 != 0 { y[i].1 } else { self.ex.c(y[i].0 as u128, 8) };
                    let q = self.ex.eq(xe, ye);
                    let lt = self.ex.bin(BinOp::Ult, xe, ye);
                    let m1 = self.ex.c(0xffff_ffff, 32);
                    let p1 = self.ex.c(1, 32);
                    let d = self.ex.ite(lt, m1, p1);
                    r = self.ex.ite(q, r, d);
                }
                done!(self.v(r))
            }
            Bi::Strlen => {
                let mut i = 0u64;
                loop {
                    let q = self.add_off(&a[0], i);
                    let x = self.load_scalar(st, &q, 8)?;
                    let z = self.icmp(32, 8, &x, &Val::I(0));
                    let t = match z {
                        Val::I(k) => k != 0,
                        Val::S(e) => self.decide(st, e)?,
                        _ => false,
                    };
                    if t {
                        break;
                    }
                    i += 1;
                }
                done!(Val::I(i as u128))
            }
            Bi::Memchr | Bi::Memrchr => {
                let n = self.concretize(st, &a[2])? as usize;
                let c = match &a[1] {
                    Val::I(x) => Val::I(*x & 0xff),
                    Val::S(e) => {
                        let t = self.ex.trunc(*e, 8);
                        self.v(t)
                    }
                    _ => return Err(Stop::Unsupported("memchr".into())),
                };
                let idx: Vec<usize> = if b == Bi::Memchr { (0..n).collect() } else { (0..n).rev().collect() };
                for i in idx {
                    let q = self.add_off(&a[0], i as u64);
                    let x = self.load_scalar(st, &q, 8)?;
                    let z = self.icmp(32, 8, &x, &c);
                    let t = match z {
                        Val::I(k) => k != 0,
                        Val::S(e) => self.decide(st, e)?,
                        _ => false,
                    };
                    if t {
                        done!(q)
                    }
                }
                done!(Val::I(0))
            }
            Bi::Errno => done!(Val::I(((GLOBAL_BASE as u128) + self.errno_g as u128) << 32)),
            Bi::Raise => {
                st.in_panic = false;
                let exc = match a[0] {
                    Val::I(x) => x as u64,
                    _ => 0,
                };
                self.unwind(st, exc)
            }
            Bi::DeleteExc => done0!(),
            Bi::FmtWrite => {
                if st.in_panic {
                    done!(Val::I(0))
                }
                self.enter(st, fid, a)
            }
            Bi::PanicFmt => {
                st.in_panic = true;
                if let Some(l) = a.last() {
                    let l = l.clone();
                    st.panic_loc = self.panic_location(st, &l);
                }
                self.enter(st, fid, a)
            }
            // ---- harness interface ----
            Bi::Any => {
                let n = self.concretize(st, &a[1])? as usize;
                let nl = self.concretize(st, &a[3])? as usize;
                let name = self.read_str(st, &a[2], nl)?;
                if n > 0 {
                    let (id, off) = self.range(st, &a[0], n)?;
                    let start = st.nvars;
                    for i in 0..n {
                        let v = start as usize + i;
                        while self.var_exprs.len() <= v {
                            let k = self.var_exprs.len();
                            let e = self.ex.new_var(format!("v{}", k), 8);
                            self.var_exprs.push(e);
                        }
                        let e = self.var_exprs[v];
                        st.mem.get_mut(id).unwrap().sym_mut()[off + i] = e;
                    }
                    st.nvars += n as u32;
                    let mut m = (*st.model).clone();
                    m.resize(st.nvars as usize, 0);
                    st.model = Rc::new(m);
                    st.vars.push(VarRec { name: name.into(), start, len: n as u32 });
                } else {
                    st.vars.push(VarRec { name: name.into(), start: st.nvars, len: 0 });
                }
                done0!()
            }
            Bi::Assume => {
                let c = self.truth(&a[0]);
                self.assume(st, c)?;
                done0!()
            }
            Bi::Assert => {
                let c = self.truth(&a[0]);
                let k = self.ex.konst(c);
                if k == Some(1) {
                    done0!()
                }
                let nl = self.concretize(st, &a[2])? as usize;
                let msg = self.read_str(st, &a[1], nl)?;
                if k == Some(0) {
                    return Err(Stop::Violation("assert".into(), msg));
                }
                let n = self.ex.not(c);
                if let Some(m) = self.query(st, n)? {
                    let mut o = st.clone();
                    o.model = m;
                    self.push_pc(&mut o, n);
                    self.record_violation(&o, "assert", &msg);
                    self.assume(st, c)?;
                }
                done0!()
            }
            Bi::Eq => {
                let n = self.concretize(st, &a[2])? as usize;
                let x = self.read_bytes(st, &a[0], n)?;
                let y = self.read_bytes(st, &a[1], n)?;
                let q = self.bytes_eq(&x, &y);
                done!(self.v(q))
            }
            Bi::Observe => {
                let tl = self.concretize(st, &a[1])? as usize;
                let tag = self.read_str(st, &a[0], tl)?;
                let n = self.concretize(st, &a[3])? as usize;
                let bytes = self.read_bytes(st, &a[2], n)?;
                st.obs.push(Obs { tag: tag.into(), bytes });
                done0!()
            }
            Bi::Reach => {
                let tl = self.concretize(st, &a[1])? as usize;
                let tag = self.read_str(st, &a[0], tl)?;
                self.res.reached.insert(tag);
                done0!()
            }
            Bi::IsSym => {
                let n = self.concretize(st, &a[1])? as usize;
                let x = self.read_bytes(st, &a[0], n)?;
                done!(Val::I(x.iter().any(|b| b.1 != 0) as u128))
            }
            Bi::Hash => {
                let n = self.concretize(st, &a[1])? as usize;
                let x = self.read_bytes(st, &a[0], n)?;
                let hs = st.hashes.clone();
                let symbolic = x.iter().any(|b| b.1 != 0);
                let key: Vec<u8> = if symbolic { vec![] } else { x.iter().map(|b| b.0).collect() };
                let mut out = None;
                if symbolic {
                    out = hs.list.iter().find(|h| *h.input == x).map(|h| h.out);
                } else if let Some(o) = hs.known.get(&key) {
                    out = Some(*o);
                }
                if out.is_none() {
                    let n = if symbolic { hs.list.len() } else { hs.symbolic.len() };
                    for k in 0..n {
                        let h = &hs.list[if symbolic { k } else { hs.symbolic[k] }];
                        if h.input.len() != x.len() {
                            continue;
                        }
                        let q = self.bytes_eq(&h.input, &x);
                        if self.decide(st, q)? {
                            out = Some(h.out);
                            break;
                        }
                    }
                }
                drop(hs);
                let (oi, oo) = self.range(st, &a[2], 32)?;
                let out = match out {
                    Some(o) => o,
                    None => {
                        let h = Rc::make_mut(&mut st.hashes);
                        let o = fresh_hash(h.list.len() as u64);
                        if symbolic {
                            h.symbolic.push(h.list.len());
                        } else {
                            h.known.insert(key, o);
                        }
                        h.list.push(HashRec { input: Rc::new(x), out: o });
                        o
                    }
                };
                let o = st.mem.get_mut(oi).unwrap();
                o.data[oo..oo + 32].copy_from_slice(&out);
                if let Some(s) = &mut o.sym {
                    for k in &mut s[oo..oo + 32] {
                        *k = 0;
                    }
                }
                done0!()
            }
            Bi::Fail => {
                let n = self.concretize(st, &a[1])? as usize;
                let msg = self.read_str(st, &a[0], n)?;
                Err(Stop::Violation("assert".into(), msg))
            }
            Bi::StopPath => Err(Stop::Done),
            Bi::FiberNew => {
                let fp = self.concretize(st, &a[0])? as u64;
                let fid = ((fp >> 32) - FN_BASE) as u32;
                let f = self.md.body(fid);
                self.res.fns.insert(fid);
                let mut regs = vec![Val::I(0); f.nregs as usize];
                regs[0] = a[1].clone();
                let fr = Frame { f, block: 0, pc: 0, regs, allocas: vec![], bytes: 0 };
                st.fibers.push(Fiber { frames: vec![Rc::new(fr)], tls: vec![], exc: 0 });
                let id = st.fibers.len() - 1;
                done!(Val::I(id as u128))
            }
            Bi::FiberSwitch => {
                let t = self.concretize(st, &a[0])? as usize;
                if t >= st.fibers.len() {
                    return Err(Stop::Unsupported("switch to an unknown fiber".into()));
                }
                // the switch completes (returns) in the current fiber when it is resumed
                self.finish_call(st, None)?;
                st.cur = t;
                Ok(())
            }
            Bi::FiberCur => done!(Val::I(st.cur as u128)),
            Bi::Concretize => {
                let x = self.concretize(st, &a[0])?;
                done!(Val::I(x))
            }
            Bi::Debug => {
                if self.cfg.verbose {
                    let n = self.concretize(st, &a[1])? as usize;
                    let msg = self.read_str(st, &a[0], n)?;
                    eprintln!("[debug] {}", msg);
                }
                done0!()
            }
            Bi::Body | Bi::Redirect(_) | Bi::Missing => unreachable!(),
        }
    }
    fn width_from_name(&self, fid: u32) -> u32 {
        let n = &self.md.fns[fid as usize].name;
        n.rsplit(".i").next().and_then(|s| s.parse().ok()).unwrap_or(64)
    }
    fn truth(&mut self, v: &Val) -> E {
        match v {
            Val::I(x) => self.ex.boolc(*x != 0),
            Val::S(e) => {
                let e = *e;
                let w = self.ex.w(e);
                if w == 1 {
                    e
                } else {
                    let z = self.ex.c(0, w);
                    self.ex.ne(e, z)
                }
            }
            _ => panic!("truth"),
        }
    }
    fn overflow(&mut self, k: u8, w: u32, a: &Val, b: &Val) -> R<(Val, Val)> {
        let op = match k {
            0 | 3 => BOp::Add,
            1 | 4 => BOp::Sub,
            _ => BOp::Mul,
        };
        let r = self.bin(op, w, a, b)?;
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let o = if w <= 64 {
                match k {
                    0 => x + y > mask(w),
                    1 => x < y,
                    2 => x * y > mask(w),
                    _ => {
                        let (p, q) = (sext(x, w), sext(y, w));
                        let t = match k {
                            3 => p + q,
                            4 => p - q,
                            _ => p * q,
                        };
                        let lim = 1i128 << (w - 1);
                        t < -lim || t >= lim
                    }
                }
            } else if w == 128 {
                match k {
                    0 => x.checked_add(y).is_none(),
                    1 => x < y,
                    2 => x.checked_mul(y).is_none(),
                    3 => (x as i128).checked_add(y as i128).is_none(),
                    4 => (x as i128).checked_sub(y as i128).is_none(),
                    _ => (x as i128).checked_mul(y as i128).is_none(),
                }
            } else {
                return Err(Stop::Unsupported("overflow width".into()));
            };
            return Ok((r, Val::I(o as u128)));
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let o = match k {
            0 => {
                if w < 128 && self.ex.ub(x).checked_add(self.ex.ub(y)).map_or(false, |s| s <= mask(w)) {
                    self.ex.ff()
                } else {
                    let re = self.e(&r, w);
                    self.ex.bin(BinOp::Ult, re, x)
                }
            }
            1 => self.ex.bin(BinOp::Ult, x, y),
            2 => {
                if self.ex.ub(x).checked_mul(self.ex.ub(y)).map_or(false, |s| s <= mask(w)) {
                    self.ex.ff()
                } else if w <= 64 {
                    let (zx, zy) = (self.ex.zext(x, 2 * w), self.ex.zext(y, 2 * w));
                    let p = self.ex.bin(BinOp::Mul, zx, zy);
                    let h = self.ex.extract(w, w, p);
                    let z = self.ex.c(0, w);
                    self.ex.ne(h, z)
                } else {
                    return Err(Stop::Unsupported("umul.with.overflow.i128".into()));
                }
            }
            _ => {
                let w2 = if k == 5 { 2 * w } else { w + 1 };
                if w2 > 128 {
                    return Err(Stop::Unsupported("signed overflow width".into()));
                }
                let (sx, sy) = (self.ex.sext(x, w2), self.ex.sext(y, w2));
                let t = self.ex.bin(
                    match k {
                        3 => BinOp::Add,
                        4 => BinOp::Sub,
                        _ => BinOp::Mul,
                    },
                    sx,
                    sy,
                );
                let re = self.e(&r, w);
                let sr = self.ex.sext(re, w2);
                self.ex.ne(t, sr)
            }
        };
        Ok((r, self.v(o)))
    }
    fn scalar_intrinsic(&mut self, st: &mut State, b: Bi, w: u32, a: &[Val]) -> R<Val> {
        let t = Ty::Int(w);
        Ok(match b {
            Bi::MinMax(k) => {
                let pred = match k {
                    0 => 34,
                    1 => 36,
                    2 => 38,
                    _ => 40,
                };
                let c = self.icmp(pred, w, &a[0], &a[1]);
                self.select(st, &c, &a[0], &a[1], &t)?
            }
            Bi::Abs => {
                let neg = self.icmp(40, w, &a[0], &Val::I(0));
                let m = self.bin(BOp::Sub, w, &Val::I(0), &a[0])?;
                self.select(st, &neg, &m, &a[0], &t)?
            }
            Bi::Ctpop => match &a[0] {
                Val::I(x) => Val::I(x.count_ones() as u128),
                v => {
                    let v = v.clone();
                    let mut acc = Val::I(0);
                    for i in 0..w {
                        let bit = self.extract_val(&v, i, 1, w);
                        let z = self.cast1(Cst::ZExt, 1, w, &bit);
                        acc = self.bin(BOp::Add, w, &acc, &z)?;
                    }
                    acc
                }
            },
            Bi::Ctlz => match &a[0] {
                Val::I(x) => Val::I((if *x == 0 { w } else { x.leading_zeros() - (128 - w) }) as u128),
                v => {
                    let v = v.clone();
                    let mut acc = Val::I(w as u128);
                    for i in 0..w {
                        let bit = self.extract_val(&v, i, 1, w);
                        acc = self.select(st, &bit, &Val::I((w - 1 - i) as u128), &acc, &t)?;
                    }
                    acc
                }
            },
            Bi::Cttz => match &a[0] {
                Val::I(x) => Val::I((if *x == 0 { w } else { x.trailing_zeros() }) as u128),
                v => {
                    let v = v.clone();
                    let mut acc = Val::I(w as u128);
                    for i in (0..w).rev() {
                        let bit = self.extract_val(&v, i, 1, w);
                        acc = self.select(st, &bit, &Val::I(i as u128), &acc, &t)?;
                    }
                    acc
                }
            },
            Bi::Bswap => {
                let mut bs: Vec<Val> = (0..w / 8).map(|i| self.extract_val(&a[0], i * 8, 8, w)).collect();
                bs.reverse();
                self.pack(&bs, 8)
            }
            Bi::BitRev => {
                let mut bs: Vec<Val> = (0..w).map(|i| self.extract_val(&a[0], i, 1, w)).collect();
                bs.reverse();
                self.pack(&bs, 1)
            }
            Bi::Fshl | Bi::Fshr => {
                let s = match &a[2] {
                    Val::I(s) => (*s as u32) % w,
                    v => {
                        let v = v.clone();
                        (self.concretize(st, &v)? as u32) % w
                    }
                };
                let (l, r) = if b == Bi::Fshl { (s, w - s) } else { (w - s, s) };
                if s == 0 {
                    return Ok(if b == Bi::Fshl { a[0].clone() } else { a[1].clone() });
                }
                let x = self.bin(BOp::Shl, w, &a[0], &Val::I(l as u128))?;
                let y = self.bin(BOp::LShr, w, &a[1], &Val::I(r as u128))?;
                self.bin(BOp::Or, w, &x, &y)?
            }
            Bi::Sat(k) => {
                let (r, o) = self.overflow(if k < 2 { k } else { k + 1 }, w, &a[0], &a[1])?;
                match k {
                    0 => self.select(st, &o, &Val::I(mask(w)), &r, &t)?,
                    1 => self.select(st, &o, &Val::I(0), &r, &t)?,
                    _ => {
                        let neg = self.icmp(40, w, &a[0], &Val::I(0));
                        let s = self.select(st, &neg, &Val::I(1u128 << (w - 1)), &Val::I(mask(w) >> 1), &t)?;
                        self.select(st, &o, &s, &r, &t)?
                    }
                }
            }
            _ => return Err(Stop::Unsupported(format!("intrinsic {:?}", b))),
        })
    }

    // ---- results ----------------------------------------------------------
    pub fn model_of(&self, st: &State) -> Vec<(String, Vec<u8>)> {
        st.vars
            .iter()
            .map(|v| (v.name.to_string(), (v.start..v.start + v.len).map(|i| *st.model.get(i as usize).unwrap_or(&0)).collect()))
            .collect()
    }
    pub fn obs_of(&mut self, st: &State) -> Vec<(String, Vec<u8>)> {
        let mut out = vec![];
        for o in &st.obs {
            let b = o.bytes.iter().map(|x| if x.1 != 0 { self.eval(st, x.1) as u8 } else { x.0 }).collect();
            out.push((o.tag.to_string(), b));
        }
        out
    }
    pub fn record_violation(&mut self, st: &State, kind: &str, msg: &str) {
        let key = format!("{}|{}", kind, msg);
        if !self.viol_keys.insert(key) {
            return;
        }
        let stack = st.fibers[st.cur].frames.iter().rev().take(25).map(|f| f.f.name.clone()).collect();
        let model = self.model_of(st);
        self.res.viols.push(ViolRec { kind: kind.into(), msg: msg.into(), stack, model });
    }
    // runs one state to the end of its path
    pub fn finish(&mut self, mut st: State) {
        let r = self.run(&mut st);
        self.res.maxdepth = self.res.maxdepth.max(st.depth);
        match r {
            Stop::Done => {
                self.res.paths += 1;
                let k = self.res.paths;
                // reservoir-style sampling, deterministic in the seed
                let h = (k ^ self.cfg.seed).wrapping_mul(0x9E3779B97F4A7C15) >> 33;
                if self.res.samples.len() < self.cfg.max_samples {
                    let s = Sample { model: self.model_of(&st), obs: self.obs_of(&st) };
                    self.res.samples.push(s);
                } else if self.cfg.max_samples > 0 && h % k < self.cfg.max_samples as u64 {
                    let i = (h % self.cfg.max_samples as u64) as usize;
                    let s = Sample { model: self.model_of(&st), obs: self.obs_of(&st) };
                    self.res.samples[i] = s;
                }
            }
            Stop::Infeasible => self.res.infeasible += 1,
            Stop::Violation(k, m) => {
                self.res.paths += 1;
                self.record_violation(&st, &k, &m);
            }
            Stop::Unsupported(m) => {
                let s = format!("unsupported: {} [{}]", m, self.top_names(&st, 8));
                self.incomplete(s)
            }
            Stop::Unknown(m) => {
                let s = format!("unknown: {} [{}]", m, self.top_names(&st, 4));
                self.incomplete(s)
            }
            Stop::Limit(m) if m != "time" => {
                self.res.paths += 1;
                self.record_violation(&st, "hang", &m);
            }
            Stop::Limit(m) => {
                let s = format!("limit: {} [{}]", m, self.top_names(&st, 4));
                self.incomplete(s)
            }
        }
    }
    fn incomplete(&mut self, s: String) {
        if self.res.incomplete.len() < 20 {
            self.res.incomplete.push(s);
        }
    }
}

fn intrinsic(n: &str) -> Option<Bi> {
    let n = n.strip_prefix("llvm.")?;
    let p = |s: &str| n.starts_with(s);
    Some(if p("memcpy") || p("memmove") {
        Bi::Memcpy
    } else if p("memset") {
        Bi::Memset
    } else if p("umax.") {
        Bi::MinMax(0)
    } else if p("umin.") {
        Bi::MinMax(1)
    } else if p("smax.") {
        Bi::MinMax(2)
    } else if p("smin.") {
        Bi::MinMax(3)
    } else if p("abs.") {
        Bi::Abs
    } else if p("ctpop.") {
        Bi::Ctpop
    } else if p("ctlz.") {
        Bi::Ctlz
    } else if p("cttz.") {
        Bi::Cttz
    } else if p("bswap.") {
        Bi::Bswap
    } else if p("bitreverse.") {
        Bi::BitRev
    } else if p("fshl.") {
        Bi::Fshl
    } else if p("fshr.") {
        Bi::Fshr
    } else if p("uadd.with") {
        Bi::Ovf(0)
    } else if p("usub.with") {
        Bi::Ovf(1)
    } else if p("umul.with") {
        Bi::Ovf(2)
    } else if p("sadd.with") {
        Bi::Ovf(3)
    } else if p("ssub.with") {
        Bi::Ovf(4)
    } else if p("smul.with") {
        Bi::Ovf(5)
    } else if p("uadd.sat") {
        Bi::Sat(0)
    } else if p("usub.sat") {
        Bi::Sat(1)
    } else if p("sadd.sat") {
        Bi::Sat(2)
    } else if p("ssub.sat") {
        Bi::Sat(3)
    } else if p("ucmp.") {
        Bi::Cmp3(false)
    } else if p("scmp.") {
        Bi::Cmp3(true)
    } else if p("is.constant") || p("eh.typeid.for") || p("stacksave") {
        Bi::Zero
    } else if p("expect") || p("launder") || p("strip.invariant") || p("ssa.copy") {
        Bi::Arg0
    } else if p("threadlocal.address") {
        Bi::Tls
    } else if p("trap") || p("ubsantrap") || p("debugtrap") {
        Bi::Trap
    } else if p("load.relative") {
        Bi::LoadRel
    } else if p("vector.reduce.or") {
        Bi::Reduce(0)
    } else if p("vector.reduce.and") {
        Bi::Reduce(1)
    } else if p("vector.reduce.add") {
        Bi::Reduce(2)
    } else if p("vector.reduce.umax") {
        Bi::Reduce(3)
    } else if p("vector.reduce.umin") {
        Bi::Reduce(4)
    } else if p("vector.reduce.xor") {
        Bi::Reduce(5)
    } else if p("x86.sse2.pmovmskb") {
        Bi::Movmsk
    } else if p("fptoui.sat") {
        Bi::FpSat(false)
    } else if p("fptosi.sat") {
        Bi::FpSat(true)
    } else if p("fabs.") {
        Bi::Fabs
    } else if p("copysign.") {
        Bi::CopySign
    } else if p("powi.") {
        Bi::Powi
    } else if p("pow.") {
        Bi::Libm(0)
    } else if p("exp.") {
        Bi::Libm(1)
    } else if p("exp2.") {
        Bi::Libm(2)
    } else if p("log.") {
        Bi::Libm(3)
    } else if p("log2.") {
        Bi::Libm(4)
    } else if p("log10.") {
        Bi::Libm(5)
    } else if p("sin.") {
        Bi::Libm(6)
    } else if p("cos.") {
        Bi::Libm(7)
    } else if p("floor.") {
        Bi::FRound(0)
    } else if p("ceil.") {
        Bi::FRound(1)
    } else if p("trunc.") {
        Bi::FRound(2)
    } else if p("round.") {
        Bi::FRound(3)
    } else if p("rint.") || p("nearbyint.") || p("roundeven.") {
        Bi::FRound(4)
    } else if p("sqrt.") {
        Bi::FRound(5)
    } else if p("maxnum.") || p("maximumnum.") {
        Bi::FMinMax(true)
    } else if p("minnum.") || p("minimumnum.") {
        Bi::FMinMax(false)
    } else if p("fmuladd.") || p("fma.") {
        Bi::Fmuladd
    } else if p("ptrmask.") {
        Bi::PtrMask
    } else if p("x86.sse2.pause") || p("prefetch") || p("invariant.") || p("stackrestore") || p("sideeffect") || p("va_") || p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg.") || p("x86.sse2.mfence") || p("x86.sse.sfence") {
        Bi::Nop
    } else {
        return None;
    })
}
