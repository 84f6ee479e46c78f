//! Minimal bindings to the LLVM C API.
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{CStr, CString, c_char, c_int, c_uint, c_void};

macro_rules! opaque { ($($n:ident),*) => { $(
  #[repr(transparent)] #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
  pub struct $n(pub *mut c_void);
  impl $n { pub fn is_null(self) -> bool { self.0.is_null() } }
)* } }
opaque!(Ctx, Buf, Module, Type, Value, Block, TD, Meta, Attr);

unsafe extern "C" {
  pub fn LLVMContextCreate() -> Ctx;
  pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut Buf, msg: *mut *mut c_char) -> c_int;
  pub fn LLVMParseIRInContext(c: Ctx, b: Buf, m: *mut Module, msg: *mut *mut c_char) -> c_int;
  pub fn LLVMGetModuleDataLayout(m: Module) -> TD;
  pub fn LLVMABISizeOfType(t: TD, ty: Type) -> u64;
  pub fn LLVMStoreSizeOfType(t: TD, ty: Type) -> u64;
  pub fn LLVMABIAlignmentOfType(t: TD, ty: Type) -> c_uint;
  pub fn LLVMOffsetOfElement(t: TD, ty: Type, i: c_uint) -> u64;
  pub fn LLVMGetFirstFunction(m: Module) -> Value;
  pub fn LLVMGetNextFunction(f: Value) -> Value;
  pub fn LLVMGetFirstGlobal(m: Module) -> Value;
  pub fn LLVMGetNextGlobal(f: Value) -> Value;
  pub fn LLVMGetFirstGlobalAlias(m: Module) -> Value;
  pub fn LLVMGetNextGlobalAlias(f: Value) -> Value;
  pub fn LLVMAliasGetAliasee(f: Value) -> Value;
  pub fn LLVMGetValueName2(v: Value, len: *mut usize) -> *const c_char;
  pub fn LLVMGlobalGetValueType(v: Value) -> Type;
  pub fn LLVMGetInitializer(v: Value) -> Value;
  pub fn LLVMIsGlobalConstant(v: Value) -> c_int;
  pub fn LLVMGetAlignment(v: Value) -> c_uint;
  pub fn LLVMIsDeclaration(v: Value) -> c_int;
  pub fn LLVMGetFirstBasicBlock(f: Value) -> Block;
  pub fn LLVMGetNextBasicBlock(b: Block) -> Block;
  pub fn LLVMGetFirstInstruction(b: Block) -> Value;
  pub fn LLVMGetNextInstruction(v: Value) -> Value;
  pub fn LLVMGetInstructionOpcode(v: Value) -> c_int;
  pub fn LLVMGetNumOperands(v: Value) -> c_int;
  pub fn LLVMGetOperand(v: Value, i: c_uint) -> Value;
  pub fn LLVMTypeOf(v: Value) -> Type;
  pub fn LLVMGetTypeKind(t: Type) -> c_int;
  pub fn LLVMGetIntTypeWidth(t: Type) -> c_uint;
  pub fn LLVMCountStructElementTypes(t: Type) -> c_uint;
  pub fn LLVMStructGetTypeAtIndex(t: Type, i: c_uint) -> Type;
  pub fn LLVMGetArrayLength2(t: Type) -> u64;
  pub fn LLVMGetElementType(t: Type) -> Type;
  pub fn LLVMGetVectorSize(t: Type) -> c_uint;
  pub fn LLVMCountParams(f: Value) -> c_uint;
  pub fn LLVMGetParam(f: Value, i: c_uint) -> Value;
  pub fn LLVMGetICmpPredicate(v: Value) -> c_int;
  pub fn LLVMGetFCmpPredicate(v: Value) -> c_int;
  pub fn LLVMCountIncoming(v: Value) -> c_uint;
  pub fn LLVMGetIncomingValue(v: Value, i: c_uint) -> Value;
  pub fn LLVMGetIncomingBlock(v: Value, i: c_uint) -> Block;
  pub fn LLVMGetNumSuccessors(v: Value) -> c_uint;
  pub fn LLVMGetSuccessor(v: Value, i: c_uint) -> Block;
  pub fn LLVMGetCondition(v: Value) -> Value;
  pub fn LLVMGetSwitchCaseValue(v: Value, i: c_uint) -> Value;
  pub fn LLVMGetCalledValue(v: Value) -> Value;
  pub fn LLVMGetNumArgOperands(v: Value) -> c_uint;
  pub fn LLVMGetAllocatedType(v: Value) -> Type;
  pub fn LLVMGetGEPSourceElementType(v: Value) -> Type;
  pub fn LLVMGetNumIndices(v: Value) -> c_uint;
  pub fn LLVMGetIndices(v: Value) -> *const c_uint;
  pub fn LLVMGetNumMaskElements(v: Value) -> c_uint;
  pub fn LLVMGetMaskValue(v: Value, i: c_uint) -> c_int;
  pub fn LLVMGetAtomicRMWBinOp(v: Value) -> c_int;
  pub fn LLVMGetNormalDest(v: Value) -> Block;
  pub fn LLVMGetValueKind(v: Value) -> c_int;
  pub fn LLVMConstIntGetZExtValue(v: Value) -> u64;
  pub fn LLVMPrintValueToString(v: Value) -> *mut c_char;
  pub fn LLVMPrintTypeToString(v: Type) -> *mut c_char;
  pub fn LLVMDisposeMessage(v: *mut c_char);
  pub fn LLVMGetAggregateElement(v: Value, i: c_uint) -> Value;
  pub fn LLVMGetConstOpcode(v: Value) -> c_int;
  pub fn LLVMIsNull(v: Value) -> c_int;
  pub fn LLVMConstRealGetDouble(v: Value, lost: *mut c_int) -> f64;
  pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
  pub fn LLVMGetEnumAttributeAtIndex(f: Value, idx: c_uint, kind: c_uint) -> Attr;
  pub fn LLVMInstructionGetDebugLoc(v: Value) -> Meta;
  pub fn LLVMDILocationGetLine(m: Meta) -> c_uint;
  pub fn LLVMDILocationGetScope(m: Meta) -> Meta;
  pub fn LLVMDILocationGetInlinedAt(m: Meta) -> Meta;
  pub fn LLVMDIScopeGetFile(m: Meta) -> Meta;
  pub fn LLVMDIFileGetFilename(m: Meta, l: *mut c_uint) -> *const c_char;
  pub fn LLVMDIFileGetDirectory(m: Meta, l: *mut c_uint) -> *const c_char;
}

pub fn name(v: Value) -> String {
  unsafe {
    let mut l = 0;
    let p = LLVMGetValueName2(v, &mut l);
    String::from_utf8_lossy(std::slice::from_raw_parts(p.cast::<u8>(), l)).into_owned()
  }
}
pub fn print(v: Value) -> String {
  unsafe {
    let p = LLVMPrintValueToString(v);
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    LLVMDisposeMessage(p);
    s
  }
}
pub fn print_ty(v: Type) -> String {
  unsafe {
    let p = LLVMPrintTypeToString(v);
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    LLVMDisposeMessage(p);
    s
  }
}
pub fn parse(path: &str) -> Result<Module, String> {
  unsafe {
    let c = LLVMContextCreate();
    let mut b = Buf(std::ptr::null_mut());
    let mut msg: *mut c_char = std::ptr::null_mut();
    let p = CString::new(path).unwrap();
    if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut b, &mut msg) != 0 {
      return Err(CStr::from_ptr(msg).to_string_lossy().into_owned());
    }
    let mut m = Module(std::ptr::null_mut());
    if LLVMParseIRInContext(c, b, &mut m, &mut msg) != 0 {
      return Err(CStr::from_ptr(msg).to_string_lossy().into_owned());
    }
    Ok(m)
  }
}
pub fn has_fn_attr(f: Value, n: &str) -> bool {
  unsafe {
    let k = LLVMGetEnumAttributeKindForName(n.as_ptr().cast(), n.len());
    !LLVMGetEnumAttributeAtIndex(f, u32::MAX, k).is_null()
  }
}
/// The outermost-in chain of (file, line) a debug location stands for.
pub fn locs(v: Value) -> Vec<(String, u32)> {
  let mut ret = Vec::new();
  unsafe {
    let mut m = LLVMInstructionGetDebugLoc(v);
    while !m.is_null() {
      let line = LLVMDILocationGetLine(m);
      let sc = LLVMDILocationGetScope(m);
      let f = LLVMDIScopeGetFile(sc);
      if !f.is_null() {
        let mut l = 0;
        let p = LLVMDIFileGetFilename(f, &mut l);
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(p.cast::<u8>(), l as usize)).into_owned();
        let mut l = 0;
        let p = LLVMDIFileGetDirectory(f, &mut l);
        let d = if p.is_null() || l == 0 { String::new() } else { String::from_utf8_lossy(std::slice::from_raw_parts(p.cast::<u8>(), l as usize)).into_owned() };
        ret.push((if s.starts_with('/') || d.is_empty() { s } else { format!("{d}/{s}") }, line));
      }
      m = LLVMDILocationGetInlinedAt(m);
    }
  }
  ret
}

// opcodes
pub const RET: c_int = 1; pub const BR: c_int = 2; pub const UBR: c_int = 70; pub const CBR: c_int = 71; pub const SWITCH: c_int = 3; pub const INVOKE: c_int = 5;
pub const UNREACHABLE: c_int = 7; pub const FNEG: c_int = 66;
pub const ADD: c_int = 8; pub const FADD: c_int = 9; pub const SUB: c_int = 10; pub const FSUB: c_int = 11;
pub const MUL: c_int = 12; pub const FMUL: c_int = 13; pub const UDIV: c_int = 14; pub const SDIV: c_int = 15;
pub const FDIV: c_int = 16; pub const UREM: c_int = 17; pub const SREM: c_int = 18; pub const FREM: c_int = 19;
pub const SHL: c_int = 20; pub const LSHR: c_int = 21; pub const ASHR: c_int = 22; pub const AND: c_int = 23;
pub const OR: c_int = 24; pub const XOR: c_int = 25; pub const ALLOCA: c_int = 26; pub const LOAD: c_int = 27;
pub const STORE: c_int = 28; pub const GEP: c_int = 29; pub const TRUNC: c_int = 30; pub const ZEXT: c_int = 31;
pub const SEXT: c_int = 32; pub const FPTOUI: c_int = 33; pub const FPTOSI: c_int = 34; pub const UITOFP: c_int = 35;
pub const SITOFP: c_int = 36; pub const FPTRUNC: c_int = 37; pub const FPEXT: c_int = 38; pub const PTRTOINT: c_int = 39;
pub const INTTOPTR: c_int = 40; pub const BITCAST: c_int = 41; pub const ICMP: c_int = 42; pub const FCMP: c_int = 43;
pub const PHI: c_int = 44; pub const CALL: c_int = 45; pub const SELECT: c_int = 46; pub const EXTRACTELEMENT: c_int = 50;
pub const INSERTELEMENT: c_int = 51; pub const SHUFFLEVECTOR: c_int = 52; pub const EXTRACTVALUE: c_int = 53;
pub const INSERTVALUE: c_int = 54; pub const FENCE: c_int = 55; pub const CMPXCHG: c_int = 56; pub const ATOMICRMW: c_int = 57;
pub const RESUME: c_int = 58; pub const LANDINGPAD: c_int = 59; pub const ADDRSPACECAST: c_int = 60; pub const FREEZE: c_int = 68;
