// Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FOeq,
    FOlt,
    FOle,
}
use BinOp::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum UnOp {
    Not,
    FUno, // is NaN
    FNeg,
    FRound(u8), // floor, ceil, trunc, round, round to even, square root
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum CastOp {
    UToF, // integer (unsigned) -> f64/f32 bits
    SToF,
    FToU, // f bits -> integer, truncating
    FToS,
    FToF,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Un(UnOp, E),
    Bin(BinOp, E, E),
    Cast(CastOp, E),
    ZExt(E),
    SExt(E),
    Extract(u32, E), // low bit; width from result
    Concat(E, E),    // hi, lo
    Ite(E, E, E),
    Lookup(Rc<Vec<u128>>, E), // table of 2^width(idx) entries
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub width: Vec<u32>,
    map: HashMap<(Node, u32), E>,
    ubs: Vec<u128>,
    pub support: Vec<Option<Rc<Vec<u32>>>>,
    pub var_names: Vec<String>,
    ckeys: HashMap<(u128, u32), E>,
}

impl Exprs {
    pub fn new() -> Self {
        Exprs {
            nodes: vec![Node::Const(0)],
            width: vec![0],
            map: HashMap::new(),
            ubs: vec![0],
            support: vec![Some(Rc::new(vec![]))],
            var_names: vec![],
            ckeys: HashMap::new(),
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.width[e as usize]
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn konst(&self, e: E) -> Option<u128> {
        if let Node::Const(c) = self.nodes[e as usize] {
            Some(c)
        } else {
            None
        }
    }
    pub fn ub(&self, e: E) -> u128 {
        self.ubs[e as usize]
    }
    fn compute_ub(&self, n: &Node, w: u32) -> u128 {
        let m = mask(w);
        if w > 128 {
            return u128::MAX;
        }
        // bits of a floating point number that is not negative
        if w == 64 && matches!(n, Node::Un(UnOp::FRound(_), _) | Node::Cast(CastOp::UToF, _) | Node::Cast(CastOp::SToF, _) | Node::Bin(FDiv | FMul | FAdd, _, _)) {
            return match self.frange_of(n, 6) {
                Some((lo, hi, true)) if lo >= 0.0 => hi.to_bits() as u128,
                _ => m,
            };
        }
        match n {
            Node::Const(c) => *c,
            Node::Var(_) => m,
            Node::ZExt(a) => self.ub(*a),
            Node::Concat(a, b) => {
                let wb = self.w(*b);
                if wb >= 128 {
                    m
                } else {
                    (self.ub(*a) << wb) | self.ub(*b)
                }
            }
            Node::Ite(_, a, b) => self.ub(*a).max(self.ub(*b)),
            Node::Lookup(t, _) => *t.iter().max().unwrap(),
            Node::Extract(0, a) => self.ub(*a).min(m),
            Node::Extract(lo, a) => {
                if self.w(*a) <= 128 {
                    (self.ub(*a) >> lo).min(m)
                } else {
                    m
                }
            }
            Node::Bin(op, a, b) => {
                let (x, y) = (self.ub(*a), self.ub(*b));
                match op {
                    And => x.min(y),
                    Or | Xor => {
                        let z = x | y;
                        if z == 0 {
                            0
                        } else {
                            mask(128 - z.leading_zeros())
                        }
                    }
                    Add => match x.checked_add(y) {
                        Some(s) if s <= m => s,
                        _ => m,
                    },
                    Mul => match x.checked_mul(y) {
                        Some(s) if s <= m => s,
                        _ => m,
                    },
                    UDiv => match self.konst(*b) {
                        Some(c) if c > 0 => x / c,
                        _ => m,
                    },
                    URem => match self.konst(*b) {
                        Some(c) if c > 0 => x.min(c - 1),
                        _ => x,
                    },
                    LShr => x,
                    Eq | Ult | Ule | Slt | Sle | FOeq | FOlt | FOle => 1,
                    _ => m,
                }
            }
            _ => m,
        }
        .min(m)
    }
    pub fn mk(&mut self, n: Node, w: u32) -> E {
        if let Node::Const(c) = n {
            return self.c(c, w);
        }
        let key = (n, w);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let id = self.nodes.len() as E;
        let ub = self.compute_ub(&key.0, w);
        self.nodes.push(key.0.clone());
        self.width.push(w);
        self.ubs.push(ub);
        self.support.push(None);
        self.map.insert(key, id);
        id
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        assert!(w <= 128, "constant wider than 128 bits");
        let v = v & mask(w);
        if let Some(&e) = self.ckeys.get(&(v, w)) {
            return e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(Node::Const(v));
        self.width.push(w);
        self.ubs.push(v);
        self.support.push(Some(Rc::new(vec![])));
        self.ckeys.insert((v, w), id);
        id
    }
    pub fn new_var(&mut self, name: String, w: u32) -> E {
        let id = self.var_names.len() as u32;
        self.var_names.push(name);
        self.mk(Node::Var(id), w)
    }
    pub fn children(&self, e: E) -> ([E; 3], usize) {
        match self.n(e) {
            Node::Const(_) | Node::Var(_) => ([0; 3], 0),
            Node::Un(_, a) | Node::Cast(_, a) | Node::ZExt(a) | Node::SExt(a) | Node::Extract(_, a) | Node::Lookup(_, a) => ([*a, 0, 0], 1),
            Node::Bin(_, a, b) | Node::Concat(a, b) => ([*a, *b, 0], 2),
            Node::Ite(a, b, c) => ([*a, *b, *c], 3),
        }
    }
    pub fn support(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = &self.support[e as usize] {
            return s.clone();
        }
        // iterative post-order
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.support[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let (ch, n) = self.children(x);
            let mut ready = true;
            for &c in &ch[..n] {
                if self.support[c as usize].is_none() {
                    stack.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let s = if let Node::Var(v) = self.n(x) {
                Rc::new(vec![*v])
            } else if n == 1 {
                self.support[ch[0] as usize].clone().unwrap()
            } else {
                let first = self.support[ch[0] as usize].clone().unwrap();
                let mut all: Vec<u32> = first.to_vec();
                let mut same = true;
                for &c in &ch[1..n] {
                    let o = self.support[c as usize].as_ref().unwrap();
                    if !o.is_empty() && !Rc::ptr_eq(o, &first) {
                        same = false;
                        all.extend_from_slice(o);
                    }
                }
                if same {
                    first
                } else {
                    all.sort_unstable();
                    all.dedup();
                    Rc::new(all)
                }
            };
            self.support[x as usize] = Some(s);
            stack.pop();
        }
        self.support[e as usize].clone().unwrap()
    }

    // ---------- constructors ----------
    pub fn tt(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn ff(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn boolc(&mut self, b: bool) -> E {
        self.c(b as u128, 1)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.n(a).clone() {
            Node::Const(c) => self.c(!c, w),
            Node::Un(UnOp::Not, x) => x,
            Node::Lookup(t, i) => {
                let m = mask(w);
                let t2 = t.iter().map(|v| !v & m).collect();
                self.lookup(t2, i, w)
            }
            Node::Ite(c, x, y) if self.konst(x).is_some() || self.konst(y).is_some() => {
                let x = self.not(x);
                let y = self.not(y);
                self.ite(c, x, y)
            }
            _ => self.mk(Node::Un(UnOp::Not, a), w),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        match self.n(a).clone() {
            Node::Const(c) if w <= 128 => self.c(c, w),
            Node::ZExt(x) => self.zext(x, w),
            Node::Lookup(t, i) => self.lookup((*t).clone(), i, w),
            Node::Ite(c, x, y) if self.konst(x).is_some() && self.konst(y).is_some() && w <= 128 => {
                let x = self.zext(x, w);
                let y = self.zext(y, w);
                self.ite(c, x, y)
            }
            _ => self.mk(Node::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if self.w(a) <= 128 && self.ub(a) < (1u128 << (wa - 1)) {
            return self.zext(a, w);
        }
        match self.n(a).clone() {
            Node::Const(c) if w <= 128 => self.c(sext(c, wa) as u128, w),
            Node::SExt(x) => self.sext(x, w),
            Node::Lookup(t, i) if w <= 128 => {
                let t2 = t.iter().map(|v| sext(*v, wa) as u128 & mask(w)).collect();
                self.lookup(t2, i, w)
            }
            Node::Ite(c, x, y) if self.konst(x).is_some() && self.konst(y).is_some() && w <= 128 => {
                let x = self.sext(x, w);
                let y = self.sext(y, w);
                self.ite(c, x, y)
            }
            _ => self.mk(Node::SExt(a), w),
        }
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        self.extract(0, w, a)
    }
    pub fn extract(&mut self, lo: u32, w: u32, a: E) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa);
        if w == wa {
            return a;
        }
        if lo < 128 && wa <= 128 && lo > 0 && (self.ub(a) >> lo) == 0 {
            return self.c(0, w);
        }
        match self.n(a).clone() {
            Node::Const(c) => self.c(c >> lo, w),
            Node::Extract(l2, x) => self.extract(lo + l2, w, x),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    self.extract(lo, w, l)
                } else if lo >= wl {
                    self.extract(lo - wl, w, h)
                } else {
                    let lw = wl - lo;
                    let lp = self.extract(lo, lw, l);
                    let hp = self.extract(0, w - lw, h);
                    self.concat(hp, lp)
                }
            }
            Node::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    self.c(0, w)
                } else if lo + w <= wx {
                    self.extract(lo, w, x)
                } else {
                    let p = self.extract(lo, wx - lo, x);
                    self.zext(p, w)
                }
            }
            Node::SExt(x) if lo + w <= self.w(x) => self.extract(lo, w, x),
            Node::SExt(x) if lo == 0 => self.sext(x, w),
            Node::Lookup(t, i) => {
                let t2 = t.iter().map(|v| (v >> lo) & mask(w)).collect();
                self.lookup(t2, i, w)
            }
            Node::Ite(c, x, y) if self.konst(x).is_some() || self.konst(y).is_some() => {
                let x = self.extract(lo, w, x);
                let y = self.extract(lo, w, y);
                self.ite(c, x, y)
            }
            Node::Bin(op @ (And | Or | Xor), x, y) => {
                let x2 = self.extract(lo, w, x);
                let y2 = self.extract(lo, w, y);
                self.bin(op, x2, y2)
            }
            Node::Bin(op @ (Add | Sub | Mul), x, y) if lo == 0 => {
                let x2 = self.extract(0, w, x);
                let y2 = self.extract(0, w, y);
                self.bin(op, x2, y2)
            }
            Node::Un(UnOp::Not, x) => {
                let x2 = self.extract(lo, w, x);
                self.not(x2)
            }
            _ => self.mk(Node::Extract(lo, a), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.konst(h), self.konst(l)) {
            if w <= 128 {
                return self.c((a << wl) | b, w);
            }
        }
        if self.konst(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts
        let nh = self.n(h).clone();
        let nl = self.n(l).clone();
        if let Node::Extract(lh, xh) = nh {
            if let Node::Extract(ll, xl) = nl {
                if xh == xl && lh == ll + wl {
                    return self.extract(ll, w, xh);
                }
            }
            if xh == l && lh == wl {
                return self.extract(0, w, l);
            }
            // the low part of an operation was narrowed
            if lh == wl && matches!(nl, Node::Bin(..)) && self.extract(0, wl, xh) == l {
                return self.extract(0, w, xh);
            }
            if let Node::Concat(m, rest) = nl {
                // (ext hi) ++ ((ext lo) ++ rest)
                if let Node::Extract(ll, xl) = self.n(m).clone() {
                    let wm = self.w(m);
                    if xl == xh && lh == ll + wm {
                        let j = self.extract(ll, wh + wm, xh);
                        return self.concat(j, rest);
                    }
                }
            }
        }
        // (zext x) ++ l with x adjacent: ZExt(Extract..) ++ ...
        if let Node::ZExt(x) = nh {
            let j = self.concat(x, l);
            return self.zext(j, w);
        }
        // lookups on the same index
        if w <= 128 {
            if let (Node::Lookup(t1, i1), Node::Lookup(t2, i2)) = (&nh, &nl) {
                if i1 == i2 {
                    let t = t1.iter().zip(t2.iter()).map(|(a, b)| (a << wl) | b).collect();
                    return self.lookup(t, *i1, w);
                }
            }
            if let (Node::Lookup(t1, i1), Some(b)) = (&nh, self.konst(l)) {
                let t = t1.iter().map(|a| (a << wl) | b).collect();
                let i = *i1;
                return self.lookup(t, i, w);
            }
            if let (Some(a), Node::Lookup(t2, i2)) = (self.konst(h), &nl) {
                let t = t2.iter().map(|b| (a << wl) | b).collect();
                let i = *i2;
                return self.lookup(t, i, w);
            }
        }
        if let (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2)) = (&nh, &nl) {
            if c1 == c2 {
                let (c1, a1, b1, a2, b2) = (*c1, *a1, *b1, *a2, *b2);
                let a = self.concat(a1, a2);
                let b = self.concat(b1, b2);
                return self.ite(c1, a, b);
            }
        }
        // right-associate
        if let Node::Concat(a, b) = nh {
            let r = self.concat(b, l);
            return self.concat(a, r);
        }
        self.mk(Node::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.konst(c) {
            return if k != 0 { a } else { b };
        }
        if let Node::Un(UnOp::Not, x) = self.n(c).clone() {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        // all arms/cond functions of the same small index -> lookup
        if w <= 128 {
            if let Node::Lookup(tc, i) = self.n(c).clone() {
                let ta = self.as_table(a, i, tc.len());
                let tb = self.as_table(b, i, tc.len());
                if let (Some(ta), Some(tb)) = (ta, tb) {
                    let t = (0..tc.len()).map(|k| if tc[k] != 0 { ta[k] } else { tb[k] }).collect();
                    return self.lookup(t, i, w);
                }
            }
        }
        // nested same condition
        if let Node::Ite(c2, x, _) = self.n(a).clone() {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.n(b).clone() {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    // express e as a table over index i (n entries) if it is a constant, the index itself or a lookup on it
    fn as_table(&self, e: E, i: E, n: usize) -> Option<Vec<u128>> {
        match self.n(e) {
            Node::Const(c) => Some(vec![*c; n]),
            Node::Lookup(t, j) if *j == i => Some((**t).clone()),
            Node::ZExt(x) if *x == i => Some((0..n as u128).collect()),
            _ if e == i => Some((0..n as u128).collect()),
            _ => None,
        }
    }
    pub fn lookup(&mut self, t: Vec<u128>, i: E, w: u32) -> E {
        let wi = self.w(i);
        debug_assert_eq!(t.len(), 1usize << wi);
        if let Some(c) = self.konst(i) {
            return self.c(t[c as usize], w);
        }
        let top = (self.ub(i) as usize).min(t.len() - 1);
        if t[..=top].iter().all(|x| *x == t[0]) {
            return self.c(t[0], w);
        }
        if t[..=top].iter().enumerate().all(|(k, x)| *x == k as u128) {
            return if w >= wi { self.zext(i, w) } else { self.trunc(i, w) };
        }
        if let Some((j, f)) = self.unary_chain(i) {
            let t3 = f.iter().map(|k| t[*k as usize]).collect();
            return self.lookup(t3, j, w);
        }
        if w == 1 {
            let ones = t.iter().filter(|x| **x == 1).count();
            if ones == 1 {
                let k = t.iter().position(|x| *x == 1).unwrap();
                let k = self.c(k as u128, wi);
                return self.raw_eq(i, k);
            }
            if ones == t.len() - 1 {
                let k = t.iter().position(|x| *x == 0).unwrap();
                let k = self.c(k as u128, wi);
                let e = self.raw_eq(i, k);
                return self.not(e);
            }
        }
        self.mk(Node::Lookup(Rc::new(t), i), w)
    }
    // e as a function of one narrow subterm: (subterm, table)
    fn unary_chain(&self, e: E) -> Option<(E, Vec<u128>)> {
        // path[k] is a function of path[k + 1]; `best`: the narrowest subterm so far
        let mut path: Vec<E> = vec![];
        let mut best = 0;
        let mut x = e;
        loop {
            match self.n(x) {
                Node::Lookup(_, j) => {
                    path.push(x);
                    x = *j;
                }
                Node::ZExt(a) | Node::Un(UnOp::Not, a) => {
                    path.push(x);
                    x = *a;
                }
                Node::Extract(_, a) if self.w(*a) <= 64 => {
                    path.push(x);
                    x = *a;
                }
                Node::Bin(op, a, b) if !matches!(op, FAdd | FSub | FMul | FDiv | FOeq | FOlt | FOle) => {
                    path.push(x);
                    match (self.konst(*a), self.konst(*b)) {
                        (None, Some(_)) => x = *a,
                        (Some(_), None) => x = *b,
                        _ => {
                            path.pop();
                            break;
                        }
                    }
                }
                _ => break,
            }
            let narrowest = if best == 0 { 9 } else if best < path.len() { self.w(path[best]) } else { self.w(x) };
            if self.w(x) <= narrowest {
                best = path.len();
            }
            if path.len() > 8 {
                break;
            }
        }
        if best == 0 {
            return None;
        }
        if best < path.len() {
            x = path[best];
            path.truncate(best);
        }
        let n = 1u128 << self.w(x);
        let mut out = Vec::with_capacity(n as usize);
        for k in 0..n {
            let mut v = k;
            for y in path.iter().rev() {
                v = match self.n(*y) {
                    Node::Lookup(t, _) => t[v as usize],
                    Node::ZExt(_) => v,
                    Node::Un(..) => !v & mask(self.w(*y)),
                    Node::Extract(lo, _) => (v >> lo) & mask(self.w(*y)),
                    Node::Bin(op, a, b) => {
                        let w = self.w(*a);
                        match self.konst(*b) {
                            Some(c) => Self::fold(*op, v, c, w)?,
                            None => Self::fold(*op, self.konst(*a)?, v, w)?,
                        }
                    }
                    _ => return None,
                };
            }
            out.push(v);
        }
        Some((x, out))
    }
    fn raw_eq(&mut self, a: E, b: E) -> E {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Bin(Eq, a, b), 1)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Eq, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.bin(Eq, a, b);
        self.not(e)
    }

    fn segs(&self, e: E, out: &mut Vec<(u32, Option<E>)>) {
        // from high to low; None = zero bits
        match self.n(e) {
            Node::Concat(h, l) => {
                self.segs(*h, out);
                self.segs(*l, out);
            }
            Node::ZExt(x) => {
                out.push((self.w(e) - self.w(*x), None));
                self.segs(*x, out);
            }
            Node::Const(0) => out.push((self.w(e), None)),
            _ => out.push((self.w(e), Some(e))),
        }
    }
    fn merge_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let simple = |s: &Self, e: E| matches!(s.n(e), Node::Concat(..) | Node::ZExt(_));
        if !simple(self, a) || !simple(self, b) {
            return None;
        }
        let mut sa = vec![];
        let mut sb = vec![];
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        let mut parts: Vec<E> = vec![];
        let (mut ia, mut ib) = (0, 0);
        let (mut oa, mut ob) = (0u32, 0u32); // consumed from the top of the current segment
        while ia < sa.len() && ib < sb.len() {
            let ra = sa[ia].0 - oa;
            let rb = sb[ib].0 - ob;
            let k = ra.min(rb);
            let part = match (sa[ia].1, sb[ib].1) {
                (None, None) => self.c(0, k),
                (Some(x), None) => {
                    let lo = ra - k;
                    self.extract(lo, k, x)
                }
                (None, Some(x)) => {
                    let lo = rb - k;
                    self.extract(lo, k, x)
                }
                _ => return None,
            };
            parts.push(part);
            oa += k;
            ob += k;
            if oa == sa[ia].0 {
                ia += 1;
                oa = 0;
            }
            if ob == sb[ib].0 {
                ib += 1;
                ob = 0;
            }
        }
        let mut it = parts.into_iter().rev();
        let mut r = it.next().unwrap();
        for p in it {
            r = self.concat(p, r);
        }
        Some(r)
    }

    pub fn fold(op: BinOp, a: u128, b: u128, w: u32) -> Option<u128> {
        let m = mask(w);
        Some(match op {
            Add => a.wrapping_add(b) & m,
            Sub => a.wrapping_sub(b) & m,
            Mul => a.wrapping_mul(b) & m,
            UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    (x.wrapping_div(y) as u128) & m
                }
            }
            SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    (x.wrapping_rem(y) as u128) & m
                }
            }
            And => a & b,
            Or => a | b,
            Xor => a ^ b,
            Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            AShr => {
                let s = if b >= w as u128 { (w - 1).min(127) } else { b as u32 };
                ((sext(a, w) >> s) as u128) & m
            }
            Eq => (a == b) as u128,
            Ult => (a < b) as u128,
            Ule => (a <= b) as u128,
            Slt => (sext(a, w) < sext(b, w)) as u128,
            Sle => (sext(a, w) <= sext(b, w)) as u128,
            FAdd | FSub | FMul | FDiv => {
                if w == 64 {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    (match op {
                        FAdd => x + y,
                        FSub => x - y,
                        FMul => x * y,
                        _ => x / y,
                    })
                    .to_bits() as u128
                } else if w == 32 {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    (match op {
                        FAdd => x + y,
                        FSub => x - y,
                        FMul => x * y,
                        _ => x / y,
                    })
                    .to_bits() as u128
                } else {
                    return None;
                }
            }
            FOeq | FOlt | FOle => {
                let (x, y) = if w == 64 {
                    (f64::from_bits(a as u64), f64::from_bits(b as u64))
                } else if w == 32 {
                    (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
                } else {
                    return None;
                };
                (match op {
                    FOeq => x == y,
                    FOlt => x < y,
                    _ => x <= y,
                }) as u128
            }
        })
    }
    pub fn is_cmp(op: BinOp) -> bool {
        matches!(op, Eq | Ult | Ule | Slt | Sle | FOeq | FOlt | FOle)
    }

    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if Self::is_cmp(op) { 1 } else { w };
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(r) = Self::fold(op, x, y, w) {
                return self.c(r, rw);
            }
        }
        // floating point comparisons decided by the ranges of their operands
        if w == 64 && matches!(op, FOeq | FOlt | FOle) {
            if let (Some(x), Some(y)) = (self.frange(a, 6), self.frange(b, 6)) {
                let r = match op {
                    FOeq if x.1 < y.0 || y.1 < x.0 => Some(false),
                    FOlt if x.1 < y.0 => Some(true),
                    FOlt if x.0 >= y.1 => Some(false),
                    FOle if x.1 <= y.0 => Some(true),
                    FOle if x.0 > y.1 => Some(false),
                    _ => None,
                };
                if let Some(r) = r {
                    return self.boolc(r);
                }
            }
        }
        // commutative: constant to the right
        if ka.is_some() && kb.is_none() && matches!(op, Add | Mul | And | Or | Xor | Eq | FAdd | FMul | FOeq) {
            return self.bin(op, b, a);
        }
        // table folding
        if w <= 128 {
            let idx = match (self.n(a), self.n(b)) {
                (Node::Lookup(t, i), _) => Some((*i, t.len())),
                (_, Node::Lookup(t, i)) => Some((*i, t.len())),
                _ => None,
            };
            if let Some((i, n)) = idx {
                if let (Some(ta), Some(tb)) = (self.as_table(a, i, n), self.as_table(b, i, n)) {
                    let t: Option<Vec<u128>> = (0..n).map(|k| Self::fold(op, ta[k], tb[k], w)).collect();
                    if let Some(t) = t {
                        return self.lookup(t, i, rw);
                    }
                }
            }
        }
        // ite with constant arms against constant
        if let Some(y) = kb {
            if let Node::Ite(c, t, f) = self.n(a).clone() {
                if let (Some(tv), Some(fv)) = (self.konst(t), self.konst(f)) {
                    if let (Some(rt), Some(rf)) = (Self::fold(op, tv, y, w), Self::fold(op, fv, y, w)) {
                        let rt = self.c(rt, rw);
                        let rf = self.c(rf, rw);
                        return self.ite(c, rt, rf);
                    }
                }
                if op == Eq && (self.konst(t).is_some() || self.konst(f).is_some()) {
                    let et = self.eq(t, b);
                    let ef = self.eq(f, b);
                    return self.ite(c, et, ef);
                }
            }
        }
        if let Some(x) = ka {
            if let Node::Ite(c, t, f) = self.n(b).clone() {
                if let (Some(tv), Some(fv)) = (self.konst(t), self.konst(f)) {
                    if let (Some(rt), Some(rf)) = (Self::fold(op, x, tv, w), Self::fold(op, x, fv, w)) {
                        let rt = self.c(rt, rw);
                        let rf = self.c(rf, rw);
                        return self.ite(c, rt, rf);
                    }
                }
            }
        }
        match op {
            Add => {
                if kb == Some(0) {
                    return a;
                }
                if let (Node::Bin(Add, x, y), Some(k)) = (self.n(a).clone(), kb) {
                    if let Some(k2) = self.konst(y) {
                        let k3 = self.c(k.wrapping_add(k2), w);
                        return self.bin(Add, x, k3);
                    }
                }
                if let Node::Bin(Sub, x, y) = self.n(a).clone() {
                    if y == b {
                        return x;
                    }
                }
                if let Some(r) = self.merge_disjoint(a, b) {
                    return r;
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.mk(Node::Bin(Add, a, b), w);
            }
            Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = kb {
                    if w <= 128 {
                        let nk = self.c(k.wrapping_neg(), w);
                        return self.bin(Add, a, nk);
                    }
                }
                if let Node::Bin(Add, x, y) = self.n(a).clone() {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
            }
            Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(Shl, a, s);
                    }
                }
            }
            UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(LShr, a, s);
                    }
                    if k > 0 && self.ub(a) < k {
                        return self.c(0, w);
                    }
                    // narrow
                    let need = 128 - self.ub(a).max(k).leading_zeros();
                    if need < w {
                        let a2 = self.trunc(a, need);
                        let k2 = self.c(k, need);
                        let r = self.mk(Node::Bin(UDiv, a2, k2), need);
                        return self.zext(r, w);
                    }
                }
            }
            URem => {
                if let Some(k) = kb {
                    if k > 0 && self.ub(a) < k {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = k.trailing_zeros();
                        if s == 0 {
                            return self.c(0, w);
                        }
                        let t = self.trunc(a, s);
                        return self.zext(t, w);
                    }
                    let need = 128 - self.ub(a).max(k).leading_zeros();
                    if k > 0 && need < w {
                        let a2 = self.trunc(a, need);
                        let k2 = self.c(k, need);
                        let r = self.mk(Node::Bin(URem, a2, k2), need);
                        return self.zext(r, w);
                    }
                }
            }
            SDiv | SRem => {}
            And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == mask(w) {
                        return a;
                    }
                    // contiguous mask
                    let lo = k.trailing_zeros();
                    let hi = 128 - k.leading_zeros();
                    let len = hi - lo;
                    if (k >> lo) == mask(len) {
                        let x = self.extract(lo, len, a);
                        let x = if lo > 0 {
                            let z = self.c(0, lo);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    if let Node::Un(UnOp::Not, x) = self.n(a) {
                        if *x == b {
                            return self.c(0, 1);
                        }
                    }
                    if let Node::Un(UnOp::Not, x) = self.n(b) {
                        if *x == a {
                            return self.c(0, 1);
                        }
                    }
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.mk(Node::Bin(And, a, b), w);
            }
            Or => {
                if a == b || kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if w <= 128 && k == mask(w) {
                        return b;
                    }
                }
                if w == 1 {
                    if let Node::Un(UnOp::Not, x) = self.n(a) {
                        if *x == b {
                            return self.c(1, 1);
                        }
                    }
                    if let Node::Un(UnOp::Not, x) = self.n(b) {
                        if *x == a {
                            return self.c(1, 1);
                        }
                    }
                }
                if let Some(r) = self.merge_disjoint(a, b) {
                    return r;
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.mk(Node::Bin(Or, a, b), w);
            }
            Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if w <= 128 && k == mask(w) {
                        return self.not(a);
                    }
                }
                if let Some(r) = self.merge_disjoint(a, b) {
                    return r;
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.mk(Node::Bin(Xor, a, b), w);
            }
            Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.extract(0, w - k as u32, a);
                    let z = self.c(0, k as u32);
                    return self.concat(x, z);
                }
            }
            LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let x = self.extract(k as u32, w - k as u32, a);
                    return self.zext(x, w);
                }
            }
            AShr => {
                if let Some(k) = kb {
                    let k = k.min(w as u128 - 1) as u32;
                    if k == 0 {
                        return a;
                    }
                    let x = self.extract(k, w - k, a);
                    return self.sext(x, w);
                }
            }
            Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if w == 1 {
                    if kb == Some(1) {
                        return a;
                    }
                    if kb == Some(0) {
                        return self.not(a);
                    }
                }
                if let Some(k) = kb {
                    if w <= 128 && k > self.ub(a) {
                        return self.c(0, 1);
                    }
                    match self.n(a).clone() {
                        Node::ZExt(x) => {
                            let wx = self.w(x);
                            let k2 = self.c(k, wx);
                            return self.eq(x, k2);
                        }
                        Node::SExt(x) => {
                            let wx = self.w(x);
                            let kx = k & mask(wx);
                            if (sext(kx, wx) as u128) & mask(w) != k {
                                return self.c(0, 1);
                            }
                            let k2 = self.c(kx, wx);
                            return self.eq(x, k2);
                        }
                        Node::Concat(h, l) => {
                            let (wh, wl) = (self.w(h), self.w(l));
                            let kh = self.c(k >> wl, wh);
                            let kl = self.c(k, wl);
                            let eh = self.eq(h, kh);
                            if self.konst(eh) == Some(0) {
                                return eh;
                            }
                            let el = self.eq(l, kl);
                            return self.and(eh, el);
                        }
                        Node::Bin(Add, x, y) => {
                            if let Some(k2) = self.konst(y) {
                                let k3 = self.c(k.wrapping_sub(k2), w);
                                return self.eq(x, k3);
                            }
                        }
                        Node::Bin(Xor, x, y) => {
                            if let Some(k2) = self.konst(y) {
                                let k3 = self.c(k ^ k2, w);
                                return self.eq(x, k3);
                            }
                        }
                        Node::Un(UnOp::Not, x) => {
                            let k3 = self.c(!k, w);
                            return self.eq(x, k3);
                        }
                        _ => {}
                    }
                } else {
                    match (self.n(a).clone(), self.n(b).clone()) {
                        (Node::Concat(h1, l1), Node::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                            let eh = self.eq(h1, h2);
                            if self.konst(eh) == Some(0) {
                                return eh;
                            }
                            let el = self.eq(l1, l2);
                            return self.and(eh, el);
                        }
                        (Node::ZExt(x), Node::ZExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                        (Node::SExt(x), Node::SExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                        (Node::ZExt(x), _) if w <= 128 && self.ub(b) <= mask(self.w(x)) && matches!(self.n(b), Node::ZExt(_)) => {
                            let wx = self.w(x);
                            let b2 = self.trunc(b, wx);
                            return self.eq(x, b2);
                        }
                        (Node::Un(UnOp::Not, x), Node::Un(UnOp::Not, y)) => return self.eq(x, y),
                        _ => {}
                    }
                    if w > 128 {
                        // split wide equalities
                        let h1 = self.extract(64, w - 64, a);
                        let l1 = self.extract(0, 64, a);
                        let h2 = self.extract(64, w - 64, b);
                        let l2 = self.extract(0, 64, b);
                        let eh = self.eq(h1, h2);
                        let el = self.eq(l1, l2);
                        return self.and(eh, el);
                    }
                }
                let (a, b) = if kb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.mk(Node::Bin(Eq, a, b), 1);
            }
            Ult => {
                if a == b || kb == Some(0) {
                    return self.c(0, 1);
                }
                if w <= 128 {
                    if let Some(k) = kb {
                        if self.ub(a) < k {
                            return self.c(1, 1);
                        }
                        if k == 1 {
                            let z = self.c(0, w);
                            return self.eq(a, z);
                        }
                        if let Node::ZExt(x) = self.n(a).clone() {
                            let wx = self.w(x);
                            let k2 = self.c(k, wx);
                            return self.bin(Ult, x, k2);
                        }
                    }
                    if let Some(k) = ka {
                        if k >= self.ub(b) {
                            return self.c(0, 1);
                        }
                        if k == 0 {
                            return self.ne(b, a);
                        }
                        if let Node::ZExt(x) = self.n(b).clone() {
                            let wx = self.w(x);
                            let k2 = self.c(k, wx);
                            return self.bin(Ult, k2, x);
                        }
                    }
                    if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a).clone(), self.n(b).clone()) {
                        if self.w(x) == self.w(y) {
                            return self.bin(Ult, x, y);
                        }
                    }
                }
            }
            Ule => {
                let l = self.bin(Ult, b, a);
                return self.not(l);
            }
            Slt => {
                if a == b {
                    return self.c(0, 1);
                }
                if w <= 128 {
                    let half = 1u128 << (w - 1);
                    if self.ub(a) < half && self.ub(b) < half {
                        return self.bin(Ult, a, b);
                    }
                    if kb == Some(0) {
                        return self.extract(w - 1, 1, a);
                    }
                    if kb.is_none() && ka == Some(mask(w)) {
                        // -1 < b  <=> b >= 0
                        let s = self.extract(w - 1, 1, b);
                        return self.not(s);
                    }
                }
            }
            Sle => {
                let l = self.bin(Slt, b, a);
                return self.not(l);
            }
            _ => {}
        }
        self.mk(Node::Bin(op, a, b), rw)
    }
    pub fn un(&mut self, op: UnOp, a: E) -> E {
        let w = self.w(a);
        match op {
            UnOp::Not => self.not(a),
            UnOp::FNeg => {
                let k = self.c(1u128 << (w - 1), w);
                self.bin(Xor, a, k)
            }
            UnOp::FUno => {
                if let Some(c) = self.konst(a) {
                    let nan = if w == 64 { f64::from_bits(c as u64).is_nan() } else { f32::from_bits(c as u32).is_nan() };
                    return self.boolc(nan);
                }
                if w == 64 && self.frange(a, 6).is_some() {
                    return self.boolc(false);
                }
                self.mk(Node::Un(op, a), 1)
            }
            UnOp::FRound(k) => {
                if let Some(c) = self.konst(a) {
                    let r = Self::round_fold(k, c, w);
                    return self.c(r, w);
                }
                self.mk(Node::Un(op, a), w)
            }
        }
    }
    pub fn round_f64(k: u8, d: f64) -> f64 {
        match k {
            0 => d.floor(),
            1 => d.ceil(),
            2 => d.trunc(),
            3 => d.round(),
            4 => d.round_ties_even(),
            _ => d.sqrt(),
        }
    }
    pub fn round_fold(k: u8, c: u128, w: u32) -> u128 {
        if w == 64 {
            return Self::round_f64(k, f64::from_bits(c as u64)).to_bits() as u128;
        }
        let d = f32::from_bits(c as u32);
        (match k {
            0 => d.floor(),
            1 => d.ceil(),
            2 => d.trunc(),
            3 => d.round(),
            4 => d.round_ties_even(),
            _ => d.sqrt(),
        })
        .to_bits() as u128
    }
    pub fn cast_fold(op: CastOp, a: u128, wa: u32, w: u32) -> u128 {
        let tof = |wa: u32, a: u128| -> f64 {
            if wa == 64 {
                f64::from_bits(a as u64)
            } else {
                f32::from_bits(a as u32) as f64
            }
        };
        match op {
            CastOp::UToF => {
                if w == 64 {
                    (a as f64).to_bits() as u128
                } else {
                    (a as f32).to_bits() as u128
                }
            }
            CastOp::SToF => {
                let s = sext(a, wa);
                if w == 64 {
                    (s as f64).to_bits() as u128
                } else {
                    (s as f32).to_bits() as u128
                }
            }
            CastOp::FToU => (tof(wa, a) as u128) & mask(w),
            CastOp::FToS => (tof(wa, a) as i128 as u128) & mask(w),
            CastOp::FToF => {
                if wa == w {
                    a
                } else if w == 64 {
                    (f32::from_bits(a as u32) as f64).to_bits() as u128
                } else {
                    (f64::from_bits(a as u64) as f32).to_bits() as u128
                }
            }
        }
    }
    /// A range that contains every value of a 64-bit floating point term that is never NaN
    /// (rounding is monotonic)
    fn frange(&self, e: E, depth: u32) -> Option<(f64, f64)> {
        if self.w(e) != 64 {
            return None;
        }
        self.frange_of(self.n(e), depth).map(|r| (r.0, r.1))
    }
    /// lower and upper bound, and whether it is never -0
    fn frange_of(&self, n: &Node, depth: u32) -> Option<(f64, f64, bool)> {
        if depth == 0 {
            return None;
        }
        let ok = |lo: f64, hi: f64, pz: bool| if lo.is_nan() || hi.is_nan() { None } else { Some((lo, hi, pz)) };
        let go = |e: &E| if self.w(*e) != 64 { None } else { self.frange_of(self.n(*e), depth - 1) };
        match n {
            Node::Const(c) => {
                let x = f64::from_bits(*c as u64);
                ok(x, x, *c >> 63 == 0)
            }
            Node::Cast(CastOp::UToF, a) if self.w(*a) <= 64 => ok(0.0, self.ub(*a) as f64, true),
            Node::Cast(CastOp::SToF, a) if self.w(*a) <= 64 => {
                let w = self.w(*a);
                if self.ub(*a) < 1 << (w - 1) {
                    ok(0.0, self.ub(*a) as f64, true)
                } else {
                    let m = (1u128 << (w - 1)) as f64;
                    ok(-m, m, true)
                }
            }
            Node::Un(UnOp::FRound(k), a) => {
                let x = go(a)?;
                if *k == 5 && x.0 < 0.0 {
                    return None;
                }
                ok(Self::round_f64(*k, x.0), Self::round_f64(*k, x.1), x.2)
            }
            // the absolute value
            Node::ZExt(x) if self.w(*x) == 63 => match self.n(*x) {
                Node::Extract(0, y) => {
                    let r = go(y)?;
                    ok(if r.0 > 0.0 { r.0 } else { 0.0 }, r.0.abs().max(r.1.abs()), true)
                }
                _ => None,
            },
            Node::Ite(_, a, b) => {
                let (x, y) = (go(a)?, go(b)?);
                ok(x.0.min(y.0), x.1.max(y.1), x.2 && y.2)
            }
            Node::Bin(op, a, b) if matches!(op, FAdd | FSub | FMul | FDiv) => {
                let (x, y) = (go(a)?, go(b)?);
                if !x.0.is_finite() || !x.1.is_finite() || !y.0.is_finite() || !y.1.is_finite() {
                    return None;
                }
                match op {
                    FAdd => ok(x.0 + y.0, x.1 + y.1, x.2 && y.2),
                    FSub => ok(x.0 - y.1, x.1 - y.0, x.2),
                    _ => {
                        if *op == FDiv && y.0 <= 0.0 && y.1 >= 0.0 {
                            return None;
                        }
                        let f = |p: f64, q: f64| if *op == FMul { p * q } else { p / q };
                        let v = [f(x.0, y.0), f(x.0, y.1), f(x.1, y.0), f(x.1, y.1)];
                        if v.iter().any(|z| z.is_nan()) {
                            return None;
                        }
                        let pos = x.0 >= 0.0 && x.2 && y.0 >= 0.0 && y.2;
                        ok(v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max), pos)
                    }
                }
            }
            _ => None,
        }
    }
    pub fn cast(&mut self, op: CastOp, a: E, w: u32) -> E {
        let wa = self.w(a);
        if let Some(c) = self.konst(a) {
            let v = Self::cast_fold(op, c, wa, w);
            return self.c(v, w);
        }
        self.mk(Node::Cast(op, a), w)
    }

    // concrete evaluation under an assignment; None if a node is wider than 128 bits
    pub fn eval(&self, e: E, get: &dyn Fn(u32) -> u128, memo: &mut HashMap<E, u128>) -> Option<u128> {
        if let Node::Const(c) = self.n(e) {
            return Some(*c);
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let w = self.w(x);
            if w > 128 {
                return None;
            }
            // extracts of wide concats: walk down without evaluating the wide node
            if let Node::Extract(lo, mut a) = *self.n(x) {
                let mut lo = lo;
                if self.w(a) > 128 {
                    loop {
                        match *self.n(a) {
                            Node::Concat(h, l) => {
                                let wl = self.w(l);
                                if lo >= wl {
                                    lo -= wl;
                                    a = h;
                                } else if lo + w <= wl {
                                    a = l;
                                } else {
                                    return None;
                                }
                            }
                            _ => break,
                        }
                        if self.w(a) <= 128 {
                            break;
                        }
                    }
                    if self.w(a) > 128 {
                        return None;
                    }
                    match self.lookup_memo(a, memo) {
                        Some(v) => {
                            memo.insert(x, (v >> lo) & mask(w));
                            stack.pop();
                        }
                        None => stack.push(a),
                    }
                    continue;
                }
            }
            let (ch, n) = self.children(x);
            // short-circuit ite
            if let Node::Ite(c, a, b) = *self.n(x) {
                match self.lookup_memo(c, memo) {
                    None => {
                        stack.push(c);
                        continue;
                    }
                    Some(cv) => {
                        let t = if cv != 0 { a } else { b };
                        match self.lookup_memo(t, memo) {
                            None => stack.push(t),
                            Some(v) => {
                                memo.insert(x, v);
                                stack.pop();
                            }
                        }
                        continue;
                    }
                }
            }
            let mut vals = [0u128; 3];
            let mut ready = true;
            for k in 0..n {
                match self.lookup_memo(ch[k], memo) {
                    Some(v) => vals[k] = v,
                    None => {
                        stack.push(ch[k]);
                        ready = false;
                    }
                }
            }
            if !ready {
                continue;
            }
            let v = match self.n(x) {
                Node::Const(c) => *c,
                Node::Var(v) => get(*v) & mask(w),
                Node::Un(UnOp::Not, _) => !vals[0] & mask(w),
                Node::Un(UnOp::FUno, a) => {
                    let wa = self.w(*a);
                    (if wa == 64 { f64::from_bits(vals[0] as u64).is_nan() } else { f32::from_bits(vals[0] as u32).is_nan() }) as u128
                }
                Node::Un(UnOp::FRound(k), _) => Self::round_fold(*k, vals[0], w),
                Node::Un(_, _) => return None,
                Node::Bin(op, a, _) => Self::fold(*op, vals[0], vals[1], self.w(*a))?,
                Node::Cast(op, a) => Self::cast_fold(*op, vals[0], self.w(*a), w),
                Node::ZExt(_) => vals[0],
                Node::SExt(a) => sext(vals[0], self.w(*a)) as u128 & mask(w),
                Node::Extract(lo, _) => (vals[0] >> lo) & mask(w),
                Node::Concat(_, l) => (vals[0] << self.w(*l)) | vals[1],
                Node::Ite(..) => unreachable!(),
                Node::Lookup(t, _) => t[vals[0] as usize],
            };
            memo.insert(x, v);
            stack.pop();
        }
        memo.get(&e).copied()
    }
    fn lookup_memo(&self, e: E, memo: &HashMap<E, u128>) -> Option<u128> {
        if let Node::Const(c) = self.n(e) {
            return Some(*c);
        }
        memo.get(&e).copied()
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.n(e) {
            Node::Const(c) => format!("{:#x}:{}", c, self.w(e)),
            Node::Var(v) => self.var_names[*v as usize].clone(),
            Node::Un(o, a) => format!("({:?} {})", o, self.show(*a, d)),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d), self.show(*b, d)),
            Node::Cast(o, a) => format!("({:?} {})", o, self.show(*a, d)),
            Node::ZExt(a) => format!("(zx{} {})", self.w(e), self.show(*a, d)),
            Node::SExt(a) => format!("(sx{} {})", self.w(e), self.show(*a, d)),
            Node::Extract(lo, a) => format!("(ext {}+{} {})", lo, self.w(e), self.show(*a, d)),
            Node::Concat(a, b) => format!("(cat {} {})", self.show(*a, d), self.show(*b, d)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, d), self.show(*a, d), self.show(*b, d)),
            Node::Lookup(t, a) => format!("(tab{} {})", t.len(), self.show(*a, d)),
        }
    }
}
