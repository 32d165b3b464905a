// Minimal hand-written bindings to the LLVM-C API exported by the toolchain's libLLVM.
#![allow(non_camel_case_types)]
use std::os::raw::{c_char, c_int, c_uint, c_ulonglong};

pub enum Opaque {}
pub type P = *mut Opaque;

// libLLVM is opened with RTLD_LOCAL | RTLD_DEEPBIND so that the C++ runtime it carries cannot
// interpose the one libz3 uses.
extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut u8;
    fn dlsym(h: *mut u8, n: *const c_char) -> *mut u8;
    fn dlerror() -> *const c_char;
}
static mut HANDLE: *mut u8 = std::ptr::null_mut();
pub fn open(path: &str) {
    unsafe {
        let p = std::ffi::CString::new(path).unwrap();
        HANDLE = dlopen(p.as_ptr(), 2 | 8);
        if HANDLE.is_null() {
            panic!("cannot open {}: {:?}", path, std::ffi::CStr::from_ptr(dlerror()));
        }
    }
}
unsafe fn sym(n: &str) -> *mut u8 {
    let c = std::ffi::CString::new(n).unwrap();
    let p = dlsym(HANDLE, c.as_ptr());
    if p.is_null() {
        panic!("no symbol {}", n);
    }
    p
}
macro_rules! api {
    ($(pub fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)?;)*) => {
        $(#[allow(non_snake_case)] pub unsafe fn $n($($a: $t),*) $(-> $r)? {
            static mut F: usize = 0;
            if F == 0 { F = sym(stringify!($n)) as usize; }
            let f: extern "C" fn($($t),*) $(-> $r)? = std::mem::transmute(F);
            f($($a),*)
        })*
    };
}
api! {
    pub fn LLVMContextCreate() -> P;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(ctx: P, buf: P, out: *mut P) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: P) -> P;
    pub fn LLVMGetFirstFunction(m: P) -> P;
    pub fn LLVMGetNextFunction(f: P) -> P;
    pub fn LLVMGetFirstGlobal(m: P) -> P;
    pub fn LLVMGetNextGlobal(g: P) -> P;
    pub fn LLVMGetFirstGlobalAlias(m: P) -> P;
    pub fn LLVMGetNextGlobalAlias(g: P) -> P;
    pub fn LLVMAliasGetAliasee(a: P) -> P;
    pub fn LLVMIsDeclaration(g: P) -> c_int;
    pub fn LLVMGetInitializer(g: P) -> P;
    pub fn LLVMIsThreadLocal(g: P) -> c_int;
    pub fn LLVMIsGlobalConstant(g: P) -> c_int;
    pub fn LLVMGlobalGetValueType(g: P) -> P;
    pub fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMGetFirstBasicBlock(f: P) -> P;
    pub fn LLVMGetNextBasicBlock(b: P) -> P;
    pub fn LLVMGetFirstInstruction(b: P) -> P;
    pub fn LLVMGetNextInstruction(i: P) -> P;
    pub fn LLVMGetInstructionOpcode(i: P) -> c_int;
    pub fn LLVMGetNumOperands(v: P) -> c_int;
    pub fn LLVMGetOperand(v: P, i: c_uint) -> P;
    pub fn LLVMTypeOf(v: P) -> P;
    pub fn LLVMGetTypeKind(t: P) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: P) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    pub fn LLVMGetArrayLength2(t: P) -> u64;
    pub fn LLVMGetElementType(t: P) -> P;
    pub fn LLVMGetVectorSize(t: P) -> c_uint;
    pub fn LLVMABISizeOfType(td: P, t: P) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(td: P, t: P) -> c_ulonglong;
    pub fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetICmpPredicate(i: P) -> c_int;
    pub fn LLVMGetFCmpPredicate(i: P) -> c_int;
    pub fn LLVMCountIncoming(i: P) -> c_uint;
    pub fn LLVMGetIncomingValue(i: P, k: c_uint) -> P;
    pub fn LLVMGetIncomingBlock(i: P, k: c_uint) -> P;
    pub fn LLVMGetCalledValue(i: P) -> P;
    pub fn LLVMGetNumArgOperands(i: P) -> c_uint;
    pub fn LLVMGetNormalDest(i: P) -> P;
    pub fn LLVMGetUnwindDest(i: P) -> P;
    pub fn LLVMGetNumSuccessors(i: P) -> c_uint;
    pub fn LLVMGetSuccessor(i: P, k: c_uint) -> P;
    pub fn LLVMGetSwitchCaseValue(i: P, k: c_uint) -> P;
    pub fn LLVMGetCondition(i: P) -> P;
    pub fn LLVMGetIndices(i: P) -> *const c_uint;
    pub fn LLVMGetNumIndices(i: P) -> c_uint;
    pub fn LLVMGetNumMaskElements(i: P) -> c_uint;
    pub fn LLVMGetMaskValue(i: P, k: c_uint) -> c_int;
    pub fn LLVMGetAllocatedType(i: P) -> P;
    pub fn LLVMGetGEPSourceElementType(i: P) -> P;
    pub fn LLVMGetAtomicRMWBinOp(i: P) -> c_int;
    pub fn LLVMConstIntGetZExtValue(c: P) -> c_ulonglong;
    pub fn LLVMConstRealGetDouble(c: P, loses: *mut c_int) -> f64;
    pub fn LLVMPrintValueToString(v: P) -> *mut c_char;
    pub fn LLVMIsNull(v: P) -> c_int;
    pub fn LLVMIsUndef(v: P) -> c_int;
    pub fn LLVMIsPoison(v: P) -> c_int;
    pub fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    pub fn LLVMGetRawDataValues(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMGetConstOpcode(v: P) -> c_int;
    pub fn LLVMIsAConstantInt(v: P) -> P;
    pub fn LLVMIsAConstantFP(v: P) -> P;
    pub fn LLVMIsAConstantExpr(v: P) -> P;
    pub fn LLVMIsAConstantDataSequential(v: P) -> P;
    pub fn LLVMIsAConstantArray(v: P) -> P;
    pub fn LLVMIsAConstantStruct(v: P) -> P;
    pub fn LLVMIsAConstantVector(v: P) -> P;
    pub fn LLVMIsAFunction(v: P) -> P;
    pub fn LLVMIsAGlobalVariable(v: P) -> P;
    pub fn LLVMIsAGlobalAlias(v: P) -> P;
    pub fn LLVMIsAInlineAsm(v: P) -> P;
    pub fn LLVMIsAConstant(v: P) -> P;
    pub fn LLVMIsAArgument(v: P) -> P;
    pub fn LLVMIsAInstruction(v: P) -> P;
    pub fn LLVMIsACondBrInst(v: P) -> P;
    pub fn LLVMIsASwitchInst(v: P) -> P;
    pub fn LLVMCountParams(f: P) -> c_uint;
    pub fn LLVMGetParam(f: P, i: c_uint) -> P;
    pub fn LLVMIsCleanup(i: P) -> c_int;
    pub fn LLVMGetModuleContext(m: P) -> P;
    pub fn LLVMInstructionGetDebugLoc(i: P) -> P;
    pub fn LLVMDILocationGetScope(l: P) -> P;
    pub fn LLVMDILocationGetInlinedAt(l: P) -> P;
    pub fn LLVMGetMetadataKind(m: P) -> c_uint;
    pub fn LLVMMetadataAsValue(c: P, m: P) -> P;
    pub fn LLVMGetMDNodeNumOperands(v: P) -> c_uint;
    pub fn LLVMGetMDNodeOperands(v: P, out: *mut P);
    pub fn LLVMGetMDString(v: P, len: *mut c_uint) -> *const c_char;
    pub fn LLVMValueAsMetadata(v: P) -> P;
    pub fn LLVMGetNumClauses(i: P) -> c_uint;
}

pub fn name_of(v: P) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        if p.is_null() {
            return String::new();
        }
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn print(v: P) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()
    }
}
