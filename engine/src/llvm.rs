//! Minimal FFI to the LLVM-C API of the libLLVM that ships with rustc.
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{CStr, CString, c_char, c_double, c_int, c_longlong, c_uint, c_ulonglong, c_void};

pub type Ctx = *mut c_void;
pub type Module = *mut c_void;
pub type V = *mut c_void;
pub type T = *mut c_void;
pub type BB = *mut c_void;
pub type TD = *mut c_void;

unsafe extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut *mut c_void, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, b: *mut c_void, m: *mut Module) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: Module) -> TD;
    pub fn LLVMGetFirstFunction(m: Module) -> V;
    pub fn LLVMGetNextFunction(v: V) -> V;
    pub fn LLVMGetFirstGlobal(m: Module) -> V;
    pub fn LLVMGetNextGlobal(v: V) -> V;
    pub fn LLVMGetFirstGlobalAlias(m: Module) -> V;
    pub fn LLVMGetNextGlobalAlias(v: V) -> V;
    pub fn LLVMAliasGetAliasee(v: V) -> V;
    pub fn LLVMGetValueName2(v: V, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: V) -> c_int;
    pub fn LLVMGetFirstBasicBlock(v: V) -> BB;
    pub fn LLVMGetNextBasicBlock(v: BB) -> BB;
    pub fn LLVMGetFirstInstruction(v: BB) -> V;
    pub fn LLVMGetNextInstruction(v: V) -> V;
    pub fn LLVMGetInstructionOpcode(v: V) -> c_uint;
    pub fn LLVMTypeOf(v: V) -> T;
    pub fn LLVMGetTypeKind(t: T) -> c_uint;
    pub fn LLVMGetIntTypeWidth(t: T) -> c_uint;
    pub fn LLVMGetNumOperands(v: V) -> c_int;
    pub fn LLVMGetOperand(v: V, i: c_uint) -> V;
    pub fn LLVMIsConstant(v: V) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: V) -> c_ulonglong;
    pub fn LLVMConstIntGetSExtValue(v: V) -> c_longlong;
    pub fn LLVMConstRealGetDouble(v: V, loses: *mut c_int) -> c_double;
    pub fn LLVMGetICmpPredicate(v: V) -> c_uint;
    pub fn LLVMGetFCmpPredicate(v: V) -> c_uint;
    pub fn LLVMCountIncoming(v: V) -> c_uint;
    pub fn LLVMGetIncomingValue(v: V, i: c_uint) -> V;
    pub fn LLVMGetIncomingBlock(v: V, i: c_uint) -> BB;
    pub fn LLVMGetNumSuccessors(v: V) -> c_uint;
    pub fn LLVMGetSuccessor(v: V, i: c_uint) -> BB;
    pub fn LLVMIsConditional(v: V) -> c_int;
    pub fn LLVMGetCondition(v: V) -> V;
    pub fn LLVMGetNumArgOperands(v: V) -> c_uint;
    pub fn LLVMGetCalledValue(v: V) -> V;
    pub fn LLVMGetAllocatedType(v: V) -> T;
    pub fn LLVMGetGEPSourceElementType(v: V) -> T;
    pub fn LLVMABISizeOfType(td: TD, t: T) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(td: TD, t: T) -> c_ulonglong;
    pub fn LLVMSizeOfTypeInBits(td: TD, t: T) -> c_ulonglong;
    pub fn LLVMABIAlignmentOfType(td: TD, t: T) -> c_uint;
    pub fn LLVMOffsetOfElement(td: TD, t: T, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetElementType(t: T) -> T;
    pub fn LLVMGetArrayLength2(t: T) -> u64;
    pub fn LLVMGetVectorSize(t: T) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: T) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: T, i: c_uint) -> T;
    pub fn LLVMGetNumIndices(v: V) -> c_uint;
    pub fn LLVMGetIndices(v: V) -> *const c_uint;
    pub fn LLVMGetConstOpcode(v: V) -> c_uint;
    pub fn LLVMGetNumMaskElements(v: V) -> c_uint;
    pub fn LLVMGetMaskValue(v: V, i: c_uint) -> c_int;
    pub fn LLVMGetInitializer(v: V) -> V;
    pub fn LLVMGetAggregateElement(v: V, i: c_uint) -> V;
    pub fn LLVMGetAsString(v: V, len: *mut usize) -> *const c_char;
    pub fn LLVMIsConstantString(v: V) -> c_int;
    pub fn LLVMIsAConstantDataSequential(v: V) -> V;
    pub fn LLVMGetRawDataValues(v: V, sz: *mut usize) -> *const c_char;
    pub fn LLVMGetAtomicRMWBinOp(v: V) -> c_uint;
    pub fn LLVMIsUndef(v: V) -> c_int;
    pub fn LLVMIsPoison(v: V) -> c_int;
    pub fn LLVMIsAConstantInt(v: V) -> V;
    pub fn LLVMIsAConstantFP(v: V) -> V;
    pub fn LLVMIsAConstantPointerNull(v: V) -> V;
    pub fn LLVMIsAConstantExpr(v: V) -> V;
    pub fn LLVMIsAConstantAggregateZero(v: V) -> V;
    pub fn LLVMIsAGlobalVariable(v: V) -> V;
    pub fn LLVMIsAGlobalAlias(v: V) -> V;
    pub fn LLVMIsAFunction(v: V) -> V;
    pub fn LLVMIsAInlineAsm(v: V) -> V;
    pub fn LLVMGlobalGetValueType(v: V) -> T;
    pub fn LLVMGetAlignment(v: V) -> c_uint;
    pub fn LLVMCountParams(v: V) -> c_uint;
    pub fn LLVMGetParam(v: V, i: c_uint) -> V;
    pub fn LLVMPrintValueToString(v: V) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: T) -> *mut c_char;
    pub fn LLVMDisposeMessage(p: *mut c_char);
    pub fn LLVMGetReturnType(t: T) -> T;
    pub fn LLVMGetNormalDest(v: V) -> BB;
    pub fn LLVMGetSwitchCaseValue(v: V, i: c_uint) -> V;
    pub fn LLVMGetSwitchDefaultDest(v: V) -> BB;
    pub fn LLVMIsThreadLocal(v: V) -> c_int;
}

pub fn name(v: V) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn show(v: V) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn show_type(t: T) -> String {
    unsafe {
        let p = LLVMPrintTypeToString(t);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn load_module(path: &str) -> Module {
    unsafe {
        let ctx = LLVMContextCreate();
        let mut buf = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        let c = CString::new(path).unwrap();
        if LLVMCreateMemoryBufferWithContentsOfFile(c.as_ptr(), &mut buf, &mut msg) != 0 {
            panic!("cannot read {path}");
        }
        let mut m = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
            panic!("cannot parse bitcode {path}");
        }
        m
    }
}
// type kinds (verified at start-up against known types)
pub const TK_VOID: u32 = 0;
pub const TK_HALF: u32 = 1;
pub const TK_FLOAT: u32 = 2;
pub const TK_DOUBLE: u32 = 3;
pub const TK_LABEL: u32 = 7;
pub const TK_INT: u32 = 8;
pub const TK_FUNC: u32 = 9;
pub const TK_STRUCT: u32 = 10;
pub const TK_ARRAY: u32 = 11;
pub const TK_PTR: u32 = 12;
pub const TK_VECTOR: u32 = 13;
pub const TK_METADATA: u32 = 14;
