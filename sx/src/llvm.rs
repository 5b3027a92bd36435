//! Minimal binding to the LLVM-C API (libLLVM-18) - only what the decoder needs.
#![allow(non_snake_case, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

macro_rules! opaque { ($($n:ident),*) => { $(
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    #[repr(transparent)]
    pub struct $n(pub *mut c_void);
    impl $n { pub fn is_null(self) -> bool { self.0.is_null() } }
)* } }
opaque!(Ctx, Module, Value, Type, Bb, MemBuf, TargetData);

extern "C" {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut MemBuf, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMGetBitcodeModuleInContext2(c: Ctx, b: MemBuf, out: *mut Module) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, b: MemBuf, out: *mut Module) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: Module) -> TargetData;
    pub fn LLVMGetFirstFunction(m: Module) -> Value;
    pub fn LLVMGetNextFunction(v: Value) -> Value;
    pub fn LLVMGetNamedFunction(m: Module, n: *const c_char) -> Value;
    pub fn LLVMGetValueName2(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: Value) -> c_int;
    pub fn LLVMCountParams(v: Value) -> c_uint;
    pub fn LLVMGetParam(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetFirstBasicBlock(f: Value) -> Bb;
    pub fn LLVMGetNextBasicBlock(b: Bb) -> Bb;
    pub fn LLVMGetFirstInstruction(b: Bb) -> Value;
    pub fn LLVMGetNextInstruction(v: Value) -> Value;
    pub fn LLVMGetInstructionOpcode(v: Value) -> c_int;
    pub fn LLVMGetConstOpcode(v: Value) -> c_int;
    pub fn LLVMTypeOf(v: Value) -> Type;
    pub fn LLVMGetTypeKind(t: Type) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Type) -> c_uint;
    pub fn LLVMGetOperand(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetNumOperands(v: Value) -> c_int;
    pub fn LLVMGetICmpPredicate(v: Value) -> c_int;
    pub fn LLVMGetFCmpPredicate(v: Value) -> c_int;
    pub fn LLVMGetCalledValue(v: Value) -> Value;
    pub fn LLVMGetNumArgOperands(v: Value) -> c_uint;
    pub fn LLVMCountIncoming(v: Value) -> c_uint;
    pub fn LLVMGetIncomingValue(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetIncomingBlock(v: Value, i: c_uint) -> Bb;
    pub fn LLVMGetSuccessor(v: Value, i: c_uint) -> Bb;
    pub fn LLVMGetNumSuccessors(v: Value) -> c_uint;
    pub fn LLVMIsConditional(v: Value) -> c_int;
    pub fn LLVMGetCondition(v: Value) -> Value;
    pub fn LLVMGetSwitchDefaultDest(v: Value) -> Bb;
    pub fn LLVMGetNormalDest(v: Value) -> Bb;
    pub fn LLVMGetIndices(v: Value) -> *const c_uint;
    pub fn LLVMGetNumIndices(v: Value) -> c_uint;
    pub fn LLVMGetGEPSourceElementType(v: Value) -> Type;
    pub fn LLVMGetAllocatedType(v: Value) -> Type;
    pub fn LLVMIsAConstantInt(v: Value) -> Value;
    pub fn LLVMIsAConstantExpr(v: Value) -> Value;
    pub fn LLVMIsAConstantPointerNull(v: Value) -> Value;
    pub fn LLVMIsAConstantAggregateZero(v: Value) -> Value;
    pub fn LLVMIsAConstantFP(v: Value) -> Value;
    pub fn LLVMIsAConstantDataSequential(v: Value) -> Value;
    pub fn LLVMIsAConstantStruct(v: Value) -> Value;
    pub fn LLVMIsAConstantArray(v: Value) -> Value;
    pub fn LLVMIsAConstantVector(v: Value) -> Value;
    pub fn LLVMIsAUndefValue(v: Value) -> Value;
    pub fn LLVMIsAPoisonValue(v: Value) -> Value;
    pub fn LLVMIsAGlobalVariable(v: Value) -> Value;
    pub fn LLVMIsAGlobalAlias(v: Value) -> Value;
    pub fn LLVMAliasGetAliasee(v: Value) -> Value;
    pub fn LLVMIsAFunction(v: Value) -> Value;
    pub fn LLVMIsAInlineAsm(v: Value) -> Value;
    pub fn LLVMIsConstant(v: Value) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: Value) -> u64;
    pub fn LLVMConstRealGetDouble(v: Value, lossy: *mut c_int) -> f64;
    pub fn LLVMGetInitializer(v: Value) -> Value;
    pub fn LLVMIsGlobalConstant(v: Value) -> c_int;
    pub fn LLVMGlobalGetValueType(v: Value) -> Type;
    pub fn LLVMGetAggregateElement(v: Value, i: c_uint) -> Value;
    pub fn LLVMGetElementAsConstant(v: Value, i: c_uint) -> Value;
    pub fn LLVMIsConstantString(v: Value) -> c_int;
    pub fn LLVMGetAsString(v: Value, len: *mut usize) -> *const c_char;
    pub fn LLVMABISizeOfType(t: TargetData, ty: Type) -> u64;
    pub fn LLVMStoreSizeOfType(t: TargetData, ty: Type) -> u64;
    pub fn LLVMOffsetOfElement(t: TargetData, ty: Type, i: c_uint) -> u64;
    pub fn LLVMStructGetTypeAtIndex(t: Type, i: c_uint) -> Type;
    pub fn LLVMCountStructElementTypes(t: Type) -> c_uint;
    pub fn LLVMGetElementType(t: Type) -> Type;
    pub fn LLVMGetArrayLength2(t: Type) -> u64;
    pub fn LLVMGetVectorSize(t: Type) -> c_uint;
    pub fn LLVMGetReturnType(t: Type) -> Type;
    pub fn LLVMGetCalledFunctionType(v: Value) -> Type;
    pub fn LLVMGetAtomicRMWBinOp(v: Value) -> c_int;
    pub fn LLVMGetDebugLocLine(v: Value) -> c_uint;
    pub fn LLVMGetDebugLocFilename(v: Value, len: *mut c_uint) -> *const c_char;
    pub fn LLVMGetNumMaskElements(v: Value) -> c_uint;
    pub fn LLVMGetMaskValue(v: Value, i: c_uint) -> c_int;
    pub fn LLVMPrintValueToString(v: Value) -> *mut c_char;
    pub fn LLVMDisposeMessage(v: *mut c_char);
}

pub fn load(path: &str) -> Result<Module, String> {
    unsafe {
        let ctx = LLVMContextCreate();
        let p = CString::new(path).unwrap();
        let mut buf = MemBuf(std::ptr::null_mut());
        let mut msg: *mut c_char = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("cannot read {}", path));
        }
        let mut m = Module(std::ptr::null_mut());
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
            return Err(format!("cannot parse bitcode {}", path));
        }
        Ok(m)
    }
}
pub fn name(v: Value) -> String {
    unsafe {
        let mut l = 0usize;
        let p = LLVMGetValueName2(v, &mut l);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned()
    }
}
pub fn print(v: Value) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn dbg_file(v: Value) -> String {
    unsafe {
        let mut l: c_uint = 0;
        let p = LLVMGetDebugLocFilename(v, &mut l);
        if p.is_null() { return String::new(); }
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l as usize)).into_owned()
    }
}
