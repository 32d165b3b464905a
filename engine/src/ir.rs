// Converts LLVM functions lazily into a compact executable form.
use crate::llvm::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::rc::Rc;

pub const GLOBAL_BASE: u64 = 0x100;
pub const FN_BASE: u64 = 0x4000_0000;

#[derive(Clone, Debug)]
pub enum Val {
    I(u128),
    S(crate::expr::E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Agg(Rc<AggTy>),
    Vec(u32, Rc<Ty>),
    Other,
}
#[derive(Debug)]
pub struct AggTy {
    pub elems: Vec<(u64, Ty)>,
    pub size: u64,
}
impl Ty {
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Agg(a) => Val::A(Rc::new(a.elems.iter().map(|e| e.1.zero()).collect())),
            Ty::Vec(n, t) => Val::A(Rc::new((0..*n).map(|_| t.zero()).collect())),
            _ => Val::I(0),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Agg(a) => a.size,
            Ty::Vec(n, t) => (*n as u64 * t.width() as u64 + 7) / 8,
            t => (t.width() as u64 + 7) / 8,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cst {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpFp,
    Same, // ptrtoint/inttoptr/addrspacecast/freeze on scalars
    Bit,
}
#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Asm(String),
}
#[derive(Debug)]
pub enum Inst {
    Bin { op: BOp, w: u32, vec: bool, a: Opd, b: Opd, dst: u32 },
    ICmp { pred: i32, w: u32, vec: bool, a: Opd, b: Opd, dst: u32 },
    FCmp { pred: i32, w: u32, a: Opd, b: Opd, dst: u32 },
    FNeg { w: u32, a: Opd, dst: u32 },
    Select { vecc: bool, c: Opd, a: Opd, b: Opd, ty: Ty, dst: u32 },
    Cast { k: Cst, from: Ty, to: Ty, a: Opd, dst: u32 },
    Alloca { size: u64, count: Opd, dst: u32 },
    Load { ty: Ty, p: Opd, dst: u32 },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { base: Opd, off: i64, terms: Vec<(Opd, u32, i64)>, dst: u32 },
    Call { callee: Callee, args: Vec<Opd>, ret: Ty, dst: u32, invoke: Option<(u32, u32)> },
    Ret(Option<Opd>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { v: Opd, w: u32, default: u32, cases: Vec<(u128, u32)> },
    Unreachable,
    Resume(Opd),
    LandingPad { dst: u32 },
    ExtractValue { a: Opd, idx: Vec<u32>, dst: u32 },
    InsertValue { a: Opd, v: Opd, idx: Vec<u32>, dst: u32 },
    ExtractElement { a: Opd, i: Opd, dst: u32 },
    InsertElement { a: Opd, v: Opd, i: Opd, dst: u32 },
    Shuffle { a: Opd, b: Opd, mask: Vec<i32>, n: u32, dst: u32 },
    Rmw { op: i32, w: u32, p: Opd, v: Opd, dst: u32 },
    CmpXchg { w: u32, p: Opd, cmp: Opd, new: Opd, dst: u32 },
    Fence,
    Unsupported(String),
}
pub struct Block {
    pub phis: Vec<u32>,                       // dst regs
    pub incoming: Vec<(u32, Vec<Opd>)>,       // per predecessor, values aligned with phis
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    /// linkage names of the functions inlined here
    pub inlined: Vec<String>,
}

pub struct FnEntry {
    pub name: String,
    pub v: P,
    pub decl: bool,
    pub body: Option<&'static Func>,
}
pub struct GlobalEntry {
    pub name: String,
    pub v: P,
    pub size: u64,
    pub tls: bool,
    pub konst: bool,
    pub decl: bool,
}

pub struct Module {
    pub ctx: P,
    pub td: P,
    pub fns: Vec<FnEntry>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<GlobalEntry>,
    pub global_by_name: HashMap<String, u32>,
    addr: HashMap<usize, u64>,
    tys: HashMap<usize, Ty>,
    condbr: i32,
}

impl Module {
    pub fn load(path: &str) -> Module {
        unsafe {
            let ctx = LLVMContextCreate();
            let mut buf = std::ptr::null_mut();
            let mut msg = std::ptr::null_mut();
            let cp = CString::new(path).unwrap();
            if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 {
                panic!("cannot read {}", path);
            }
            let mut m = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
                panic!("cannot parse {}", path);
            }
            let td = LLVMGetModuleDataLayout(m);
            let mut md = Module {
                ctx,
                td,
                fns: vec![],
                fn_by_name: HashMap::new(),
                globals: vec![],
                global_by_name: HashMap::new(),
                addr: HashMap::new(),
                tys: HashMap::new(),
                condbr: -1,
            };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let id = md.fns.len() as u32;
                let name = name_of(f);
                md.addr.insert(f as usize, (FN_BASE + id as u64) << 32);
                md.fn_by_name.insert(name.clone(), id);
                md.fns.push(FnEntry { name, v: f, decl: LLVMIsDeclaration(f) != 0, body: None });
                f = LLVMGetNextFunction(f);
            }
            let mut g = LLVMGetFirstGlobal(m);
            while !g.is_null() {
                let id = md.globals.len() as u32;
                let name = name_of(g);
                let ty = LLVMGlobalGetValueType(g);
                md.addr.insert(g as usize, (GLOBAL_BASE + id as u64) << 32);
                md.global_by_name.insert(name.clone(), id);
                md.globals.push(GlobalEntry {
                    name,
                    v: g,
                    size: LLVMABISizeOfType(td, ty) as u64,
                    tls: LLVMIsThreadLocal(g) != 0,
                    konst: LLVMIsGlobalConstant(g) != 0,
                    decl: LLVMIsDeclaration(g) != 0,
                });
                g = LLVMGetNextGlobal(g);
            }
            let mut a = LLVMGetFirstGlobalAlias(m);
            while !a.is_null() {
                let t = LLVMAliasGetAliasee(a);
                let v = md.konst(t);
                if let Val::I(x) = v {
                    md.addr.insert(a as usize, x as u64);
                    let id = (x as u64) >> 32;
                    if id >= FN_BASE {
                        md.fn_by_name.insert(name_of(a), (id - FN_BASE) as u32);
                    }
                }
                a = LLVMGetNextGlobalAlias(a);
            }
            md
        }
    }
    pub fn ty(&mut self, t: P) -> Ty {
        if let Some(x) = self.tys.get(&(t as usize)) {
            return x.clone();
        }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                2 => Ty::F32,
                3 => Ty::F64,
                8 => Ty::Int(LLVMGetIntTypeWidth(t)),
                12 => Ty::Ptr,
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut elems = vec![];
                    for i in 0..n {
                        let et = self.ty(LLVMStructGetTypeAtIndex(t, i));
                        elems.push((LLVMOffsetOfElement(self.td, t, i) as u64, et));
                    }
                    Ty::Agg(Rc::new(AggTy { elems, size: LLVMABISizeOfType(self.td, t) as u64 }))
                }
                11 => {
                    let n = LLVMGetArrayLength2(t);
                    let e = LLVMGetElementType(t);
                    let es = LLVMABISizeOfType(self.td, e) as u64;
                    let et = self.ty(e);
                    if n > 65536 {
                        Ty::Other
                    } else {
                        Ty::Agg(Rc::new(AggTy { elems: (0..n).map(|i| (i * es, et.clone())).collect(), size: n * es }))
                    }
                }
                13 => {
                    let n = LLVMGetVectorSize(t);
                    let e = self.ty(LLVMGetElementType(t));
                    Ty::Vec(n, Rc::new(e))
                }
                _ => Ty::Other,
            }
        };
        self.tys.insert(t as usize, r.clone());
        r
    }
    pub fn int_const(&self, v: P, w: u32) -> u128 {
        unsafe {
            if w <= 64 {
                return LLVMConstIntGetZExtValue(v) as u128;
            }
            let s = print(v);
            let t = s.split_whitespace().last().unwrap().to_string();
            assert!(w <= 128 || t.parse::<u128>().is_ok(), "a constant wider than 128 bits");
            let x = if let Some(n) = t.strip_prefix('-') { (n.parse::<u128>().unwrap() as i128).wrapping_neg() as u128 } else { t.parse::<u128>().unwrap() };
            x & crate::expr::mask(w)
        }
    }
    pub fn konst(&mut self, v: P) -> Val {
        unsafe {
            if let Some(a) = self.addr.get(&(v as usize)) {
                return Val::I(*a as u128);
            }
            let t = LLVMTypeOf(v);
            let ty = self.ty(t);
            if !LLVMIsAConstantInt(v).is_null() && !matches!(ty, Ty::Vec(..)) {
                return Val::I(self.int_const(v, ty.width()));
            }
            if LLVMIsNull(v) != 0 || LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 {
                return ty.zero();
            }
            if !LLVMIsAConstantFP(v).is_null() && !matches!(ty, Ty::Vec(..)) {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                return match ty {
                    Ty::F32 => Val::I((d as f32).to_bits() as u128),
                    _ => Val::I(d.to_bits() as u128),
                };
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                return self.const_expr(v);
            }
            match &ty {
                Ty::Agg(a) => {
                    let n = a.elems.len();
                    return Val::A(Rc::new((0..n).map(|i| self.konst(LLVMGetAggregateElement(v, i as u32))).collect()));
                }
                Ty::Vec(n, _) => {
                    let n = *n;
                    return Val::A(Rc::new((0..n).map(|i| self.konst(LLVMGetAggregateElement(v, i))).collect()));
                }
                _ => {}
            }
            if !LLVMIsAGlobalAlias(v).is_null() {
                return self.konst(LLVMAliasGetAliasee(v));
            }
            panic!("unsupported constant {}", print(v));
        }
    }
    unsafe fn const_expr(&mut self, v: P) -> Val {
        let op = LLVMGetConstOpcode(v);
        let geti = |s: &mut Self, k: u32| -> u128 {
            match s.konst(LLVMGetOperand(v, k)) {
                Val::I(x) => x,
                _ => panic!("const expr operand"),
            }
        };
        match op {
            29 => {
                let base = geti(self, 0);
                let n = LLVMGetNumOperands(v) as u32;
                let st = LLVMGetGEPSourceElementType(v);
                let (off, terms) = self.gep_parts(st, v, 1, n, &mut |s, o| Opd::K(s.konst(o)));
                assert!(terms.is_empty());
                Val::I((base as u64).wrapping_add(off as u64) as u128)
            }
            39 | 40 | 41 | 60 => {
                let w = { let t = LLVMTypeOf(v); self.ty(t).width() };
                Val::I(geti(self, 0) & crate::expr::mask(w.max(1)))
            }
            30 => {
                let w = { let t = LLVMTypeOf(v); self.ty(t).width() };
                Val::I(geti(self, 0) & crate::expr::mask(w))
            }
            8 | 10 | 25 => {
                let w = { let t = LLVMTypeOf(v); self.ty(t).width() };
                let a = geti(self, 0);
                let b = geti(self, 1);
                let r = match op {
                    8 => a.wrapping_add(b),
                    10 => a.wrapping_sub(b),
                    _ => a ^ b,
                };
                Val::I(r & crate::expr::mask(w))
            }
            _ => panic!("unsupported constant expression {}", print(v)),
        }
    }
    // constant offset and symbolic terms of a GEP
    unsafe fn gep_parts(&mut self, st: P, v: P, first: u32, n: u32, mk: &mut dyn FnMut(&mut Self, P) -> Opd) -> (i64, Vec<(Opd, u32, i64)>) {
        let mut off = 0i64;
        let mut terms = vec![];
        let mut cur = st;
        for k in first..n {
            let o = LLVMGetOperand(v, k);
            let ot = LLVMTypeOf(o);
            let w = self.ty(ot).width();
            let mut scale_idx = |s: &mut Self, size: i64, off: &mut i64| {
                if !LLVMIsAConstantInt(o).is_null() {
                    let c = s.int_const(o, w);
                    *off = off.wrapping_add((crate::expr::sext(c, w) as i64).wrapping_mul(size));
                } else {
                    match mk(s, o) {
                        Opd::K(Val::I(c)) => *off = off.wrapping_add((crate::expr::sext(c, w) as i64).wrapping_mul(size)),
                        x => terms.push((x, w, size)),
                    }
                }
            };
            if k == first {
                let size = LLVMABISizeOfType(self.td, cur) as i64;
                scale_idx(self, size, &mut off);
            } else {
                match LLVMGetTypeKind(cur) {
                    10 => {
                        let i = LLVMConstIntGetZExtValue(o) as u32;
                        off += LLVMOffsetOfElement(self.td, cur, i) as i64;
                        cur = LLVMStructGetTypeAtIndex(cur, i);
                    }
                    11 | 13 => {
                        cur = LLVMGetElementType(cur);
                        let size = LLVMABISizeOfType(self.td, cur) as i64;
                        scale_idx(self, size, &mut off);
                    }
                    _ => panic!("gep type"),
                }
            }
        }
        (off, terms)
    }
    // bytes of a global's initialiser
    pub fn init_bytes(&mut self, g: u32) -> Vec<u8> {
        unsafe {
            let e = &self.globals[g as usize];
            let mut buf = vec![0u8; e.size as usize];
            if !e.decl {
                let v = LLVMGetInitializer(e.v);
                self.init_rec(v, 0, &mut buf);
            }
            buf
        }
    }
    unsafe fn init_rec(&mut self, v: P, off: usize, buf: &mut [u8]) {
        if LLVMIsNull(v) != 0 || LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 {
            return;
        }
        if !LLVMIsAConstantDataSequential(v).is_null() {
            let mut n = 0usize;
            let p = LLVMGetRawDataValues(v, &mut n);
            let s = std::slice::from_raw_parts(p as *const u8, n);
            buf[off..off + n].copy_from_slice(s);
            return;
        }
        let t = LLVMTypeOf(v);
        match LLVMGetTypeKind(t) {
            10 if self.addr.get(&(v as usize)).is_none() => {
                let n = LLVMCountStructElementTypes(t);
                for i in 0..n {
                    let o = LLVMOffsetOfElement(self.td, t, i) as usize;
                    self.init_rec(LLVMGetAggregateElement(v, i), off + o, buf);
                }
            }
            11 => {
                let n = LLVMGetArrayLength2(t);
                let es = LLVMABISizeOfType(self.td, LLVMGetElementType(t)) as usize;
                for i in 0..n {
                    self.init_rec(LLVMGetAggregateElement(v, i as u32), off + i as usize * es, buf);
                }
            }
            13 => {
                let n = LLVMGetVectorSize(t);
                let es = LLVMABISizeOfType(self.td, LLVMGetElementType(t)) as usize;
                for i in 0..n {
                    self.init_rec(LLVMGetAggregateElement(v, i), off + i as usize * es, buf);
                }
            }
            _ => {
                let ty = self.ty(t);
                let x = match self.konst(v) {
                    Val::I(x) => x,
                    _ => panic!("init"),
                };
                let n = ty.store_size() as usize;
                buf[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
    }
    pub fn body(&mut self, id: u32) -> &'static Func {
        if let Some(b) = self.fns[id as usize].body {
            return b;
        }
        let f = Box::leak(Box::new(unsafe { self.convert(id) }));
        self.fns[id as usize].body = Some(f);
        f
    }
    unsafe fn md_ops(&self, m: P) -> Vec<P> {
        let v = LLVMMetadataAsValue(self.ctx, m);
        let n = LLVMGetMDNodeNumOperands(v) as usize;
        let mut o = vec![std::ptr::null_mut(); n];
        if n > 0 {
            LLVMGetMDNodeOperands(v, o.as_mut_ptr());
        }
        o
    }
    unsafe fn inlined(&mut self, fv: P) -> Vec<String> {
        let mut locs = std::collections::HashSet::new();
        let mut out = vec![];
        let mut b = LLVMGetFirstBasicBlock(fv);
        while !b.is_null() {
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                let mut l = LLVMInstructionGetDebugLoc(i);
                while !l.is_null() && locs.insert(l as usize) {
                    let mut sc = LLVMDILocationGetScope(l);
                    // up through lexical blocks to the subprogram
                    while !sc.is_null() && locs.insert(sc as usize) {
                        let ops = self.md_ops(sc);
                        if ops.len() > 3 {
                            if !ops[3].is_null() {
                                let mut n = 0;
                                let p = LLVMGetMDString(ops[3], &mut n);
                                if !p.is_null() {
                                    out.push(String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).into_owned());
                                }
                            }
                            break;
                        }
                        sc = if ops.len() > 1 && !ops[1].is_null() { LLVMValueAsMetadata(ops[1]) } else { std::ptr::null_mut() };
                    }
                    l = LLVMDILocationGetInlinedAt(l);
                }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        out
    }
    unsafe fn convert(&mut self, id: u32) -> Func {
        let fv = self.fns[id as usize].v;
        let np = LLVMCountParams(fv);
        let mut regs: HashMap<usize, u32> = HashMap::new();
        for i in 0..np {
            regs.insert(LLVMGetParam(fv, i) as usize, i);
        }
        let mut nregs = np;
        let mut bids: HashMap<usize, u32> = HashMap::new();
        let mut blist = vec![];
        let mut b = LLVMGetFirstBasicBlock(fv);
        while !b.is_null() {
            bids.insert(b as usize, blist.len() as u32);
            blist.push(b);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if LLVMGetTypeKind(LLVMTypeOf(i)) == 0 {
                    regs.insert(i as usize, u32::MAX);
                } else {
                    regs.insert(i as usize, nregs);
                    nregs += 1;
                }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        let mut blocks = vec![];
        for &b in &blist {
            let mut phis = vec![];
            let mut incoming: Vec<(u32, Vec<Opd>)> = vec![];
            let mut insts = vec![];
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                let op = LLVMGetInstructionOpcode(i);
                if op == 44 {
                    let k = phis.len();
                    phis.push(regs[&(i as usize)]);
                    let n = LLVMCountIncoming(i);
                    for j in 0..n {
                        let pb = bids[&(LLVMGetIncomingBlock(i, j) as usize)];
                        let v = self.opd(LLVMGetIncomingValue(i, j), &regs);
                        let slot = match incoming.iter().position(|x| x.0 == pb) {
                            Some(p) => p,
                            None => {
                                incoming.push((pb, vec![]));
                                incoming.len() - 1
                            }
                        };
                        if incoming[slot].1.len() == k {
                            incoming[slot].1.push(v);
                        }
                    }
                } else {
                    let x = self.inst(i, op, &regs, &bids);
                    if let Some(x) = x {
                        insts.push(x);
                    }
                }
                i = LLVMGetNextInstruction(i);
            }
            blocks.push(Block { phis, incoming, insts });
        }
        Func { id, name: self.fns[id as usize].name.clone(), nparams: np, nregs, blocks, inlined: self.inlined(fv) }
    }
    unsafe fn opd(&mut self, v: P, regs: &HashMap<usize, u32>) -> Opd {
        if let Some(r) = regs.get(&(v as usize)) {
            return Opd::R(*r);
        }
        if LLVMIsAConstant(v).is_null() {
            return Opd::K(Val::I(0)); // metadata etc.
        }
        Opd::K(self.konst(v))
    }
    unsafe fn tyof(&mut self, v: P) -> Ty {
        let t = LLVMTypeOf(v);
        self.ty(t)
    }
    unsafe fn inst(&mut self, i: P, op: i32, regs: &HashMap<usize, u32>, bids: &HashMap<usize, u32>) -> Option<Inst> {
        let dst = regs[&(i as usize)];
        let bin = |op: BOp| -> Option<BOp> { Some(op) };
        let b = match op {
            8 => bin(BOp::Add),
            9 => bin(BOp::FAdd),
            10 => bin(BOp::Sub),
            11 => bin(BOp::FSub),
            12 => bin(BOp::Mul),
            13 => bin(BOp::FMul),
            14 => bin(BOp::UDiv),
            15 => bin(BOp::SDiv),
            16 => bin(BOp::FDiv),
            17 => bin(BOp::URem),
            18 => bin(BOp::SRem),
            20 => bin(BOp::Shl),
            21 => bin(BOp::LShr),
            22 => bin(BOp::AShr),
            23 => bin(BOp::And),
            24 => bin(BOp::Or),
            25 => bin(BOp::Xor),
            _ => None,
        };
        let o = |s: &mut Self, k: u32| s.opd(LLVMGetOperand(i, k), regs);
        if let Some(bop) = b {
            let ty = self.tyof(i);
            let (w, vec) = match &ty {
                Ty::Vec(_, t) => (t.width(), true),
                t => (t.width(), false),
            };
            return Some(Inst::Bin { op: bop, w, vec, a: o(self, 0), b: o(self, 1), dst });
        }
        Some(match op {
            66 => {
                let w = self.tyof(i).width();
                Inst::FNeg { w, a: o(self, 0), dst }
            }
            42 => {
                let ty = self.tyof(LLVMGetOperand(i, 0));
                let (w, vec) = match &ty {
                    Ty::Vec(_, t) => (t.width(), true),
                    t => (t.width(), false),
                };
                Inst::ICmp { pred: LLVMGetICmpPredicate(i), w, vec, a: o(self, 0), b: o(self, 1), dst }
            }
            43 => {
                let ty = self.tyof(LLVMGetOperand(i, 0));
                if matches!(ty, Ty::Vec(..)) {
                    return Some(Inst::Unsupported("vector fcmp".into()));
                }
                Inst::FCmp { pred: LLVMGetFCmpPredicate(i), w: ty.width(), a: o(self, 0), b: o(self, 1), dst }
            }
            46 => {
                let ct = self.tyof(LLVMGetOperand(i, 0));
                Inst::Select { vecc: matches!(ct, Ty::Vec(..)), c: o(self, 0), a: o(self, 1), b: o(self, 2), ty: self.tyof(i), dst }
            }
            30 | 31 | 32 | 33 | 34 | 35 | 36 | 37 | 38 | 39 | 40 | 41 | 60 | 68 => {
                let k = match op {
                    30 => Cst::Trunc,
                    31 => Cst::ZExt,
                    32 => Cst::SExt,
                    33 => Cst::FpToUi,
                    34 => Cst::FpToSi,
                    35 => Cst::UiToFp,
                    36 => Cst::SiToFp,
                    37 | 38 => Cst::FpFp,
                    41 => Cst::Bit,
                    _ => Cst::Same,
                };
                Inst::Cast { k, from: self.tyof(LLVMGetOperand(i, 0)), to: self.tyof(i), a: o(self, 0), dst }
            }
            26 => {
                let at = LLVMGetAllocatedType(i);
                Inst::Alloca { size: LLVMABISizeOfType(self.td, at) as u64, count: o(self, 0), dst }
            }
            27 => Inst::Load { ty: self.tyof(i), p: o(self, 0), dst },
            28 => Inst::Store { ty: self.tyof(LLVMGetOperand(i, 0)), v: o(self, 0), p: o(self, 1) },
            29 => {
                if matches!(self.tyof(i), Ty::Vec(..)) {
                    return Some(Inst::Unsupported("vector gep".into()));
                }
                let base = o(self, 0);
                let n = LLVMGetNumOperands(i) as u32;
                let st = LLVMGetGEPSourceElementType(i);
                let (off, terms) = self.gep_parts(st, i, 1, n, &mut |s, v| s.opd(v, regs));
                Inst::Gep { base, off, terms, dst }
            }
            45 | 5 => {
                let cv = LLVMGetCalledValue(i);
                let n = LLVMGetNumArgOperands(i);
                let callee = if !LLVMIsAInlineAsm(cv).is_null() {
                    Callee::Asm(print(i))
                } else {
                    match self.opd(cv, regs) {
                        Opd::K(Val::I(a)) if (a as u64 >> 32) >= FN_BASE => {
                            let id = ((a as u64 >> 32) - FN_BASE) as u32;
                            let nm = &self.fns[id as usize].name;
                            if nm.starts_with("llvm.lifetime")
                                || nm.starts_with("llvm.dbg")
                                || nm.starts_with("llvm.experimental.noalias")
                                || nm == "llvm.assume"
                                || nm == "llvm.donothing"
                            {
                                return None;
                            }
                            Callee::Direct(id)
                        }
                        x => Callee::Indirect(x),
                    }
                };
                let args = (0..n).map(|k| o(self, k)).collect();
                let invoke = if op == 5 {
                    Some((bids[&(LLVMGetNormalDest(i) as usize)], bids[&(LLVMGetUnwindDest(i) as usize)]))
                } else {
                    None
                };
                Inst::Call { callee, args, ret: self.tyof(i), dst, invoke }
            }
            1 => Inst::Ret(if LLVMGetNumOperands(i) > 0 { Some(o(self, 0)) } else { None }),
            3 => {
                let c = LLVMGetOperand(i, 0);
                let w = self.tyof(c).width();
                let v = self.opd(c, regs);
                let n = LLVMGetNumSuccessors(i);
                let default = bids[&(LLVMGetSuccessor(i, 0) as usize)];
                let mut cases = vec![];
                for k in 1..n {
                    let cv = LLVMGetSwitchCaseValue(i, k);
                    cases.push((self.int_const(cv, w), bids[&(LLVMGetSuccessor(i, k) as usize)]));
                }
                Inst::Switch { v, w, default, cases }
            }
            7 => Inst::Unreachable,
            58 => Inst::Resume(o(self, 0)),
            59 => Inst::LandingPad { dst },
            53 => {
                let n = LLVMGetNumIndices(i);
                let p = LLVMGetIndices(i);
                let idx = std::slice::from_raw_parts(p, n as usize).to_vec();
                Inst::ExtractValue { a: o(self, 0), idx, dst }
            }
            54 => {
                let n = LLVMGetNumIndices(i);
                let p = LLVMGetIndices(i);
                let idx = std::slice::from_raw_parts(p, n as usize).to_vec();
                Inst::InsertValue { a: o(self, 0), v: o(self, 1), idx, dst }
            }
            50 => Inst::ExtractElement { a: o(self, 0), i: o(self, 1), dst },
            51 => Inst::InsertElement { a: o(self, 0), v: o(self, 1), i: o(self, 2), dst },
            52 => {
                let n = LLVMGetNumMaskElements(i);
                let mask = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                let nn = match self.tyof(LLVMGetOperand(i, 0)) {
                    Ty::Vec(n, _) => n,
                    _ => 0,
                };
                Inst::Shuffle { a: o(self, 0), b: o(self, 1), mask, n: nn, dst }
            }
            55 => Inst::Fence,
            57 => {
                let w = self.tyof(i).width();
                Inst::Rmw { op: LLVMGetAtomicRMWBinOp(i), w, p: o(self, 0), v: o(self, 1), dst }
            }
            56 => {
                let w = self.tyof(LLVMGetOperand(i, 1)).width();
                Inst::CmpXchg { w, p: o(self, 0), cmp: o(self, 1), new: o(self, 2), dst }
            }
            _ => {
                let ns = if op == 2 || op > 68 { LLVMGetNumSuccessors(i) } else { 0 };
                if !LLVMIsACondBrInst(i).is_null() || (op == 2 && ns == 2) {
                    self.condbr = op;
                    let c = self.opd(LLVMGetCondition(i), regs);
                    Inst::CondBr(c, bids[&(LLVMGetSuccessor(i, 0) as usize)], bids[&(LLVMGetSuccessor(i, 1) as usize)])
                } else if ns == 1 {
                    Inst::Br(bids[&(LLVMGetSuccessor(i, 0) as usize)])
                } else {
                    Inst::Unsupported(format!("opcode {}: {}", op, print(i)))
                }
            }
        })
    }
}
