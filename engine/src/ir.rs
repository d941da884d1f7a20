//! Compact IR executed by the interpreter, and its translation from LLVM bitcode
//! through the LLVM-C API exported by the toolchain's own libLLVM.
use crate::expr::{FxMap, Op, P};
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};
use std::rc::Rc;

pub type R = *mut c_void;

#[link(name = "LLVM")]
extern "C" {
    fn LLVMContextCreate() -> R;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut R, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(c: R, buf: R, out: *mut R) -> c_int;
    fn LLVMGetModuleDataLayout(m: R) -> R;
    fn LLVMGetFirstFunction(m: R) -> R;
    fn LLVMGetNextFunction(f: R) -> R;
    fn LLVMGetFirstGlobal(m: R) -> R;
    fn LLVMGetNextGlobal(f: R) -> R;
    fn LLVMGetFirstGlobalAlias(m: R) -> R;
    fn LLVMGetNextGlobalAlias(f: R) -> R;
    fn LLVMAliasGetAliasee(a: R) -> R;
    fn LLVMGetValueName2(v: R, l: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: R) -> c_int;
    fn LLVMIsThreadLocal(v: R) -> c_int;
    fn LLVMIsGlobalConstant(v: R) -> c_int;
    fn LLVMGetInitializer(v: R) -> R;
    fn LLVMGlobalGetValueType(v: R) -> R;
    fn LLVMGetAlignment(v: R) -> c_uint;
    fn LLVMGetFirstBasicBlock(f: R) -> R;
    fn LLVMGetNextBasicBlock(b: R) -> R;
    fn LLVMGetFirstInstruction(b: R) -> R;
    fn LLVMGetNextInstruction(i: R) -> R;
    fn LLVMGetInstructionOpcode(i: R) -> c_uint;
    fn LLVMGetNumOperands(i: R) -> c_int;
    fn LLVMGetOperand(i: R, n: c_uint) -> R;
    fn LLVMTypeOf(v: R) -> R;
    fn LLVMGetTypeKind(t: R) -> c_int;
    fn LLVMGetIntTypeWidth(t: R) -> c_uint;
    fn LLVMCountStructElementTypes(t: R) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: R, i: c_uint) -> R;
    fn LLVMGetElementType(t: R) -> R;
    fn LLVMGetArrayLength2(t: R) -> u64;
    fn LLVMGetVectorSize(t: R) -> c_uint;
    fn LLVMABISizeOfType(td: R, t: R) -> c_ulonglong;
    fn LLVMStoreSizeOfType(td: R, t: R) -> c_ulonglong;
    fn LLVMABIAlignmentOfType(td: R, t: R) -> c_uint;
    fn LLVMOffsetOfElement(td: R, t: R, i: c_uint) -> c_ulonglong;
    fn LLVMGetICmpPredicate(i: R) -> c_uint;
    fn LLVMGetFCmpPredicate(i: R) -> c_uint;
    fn LLVMGetAllocatedType(i: R) -> R;
    fn LLVMGetGEPSourceElementType(i: R) -> R;
    fn LLVMGetNumIndices(i: R) -> c_uint;
    fn LLVMGetIndices(i: R) -> *const c_uint;
    fn LLVMCountIncoming(i: R) -> c_uint;
    fn LLVMGetIncomingValue(i: R, n: c_uint) -> R;
    fn LLVMGetIncomingBlock(i: R, n: c_uint) -> R;
    fn LLVMGetCalledValue(i: R) -> R;
    fn LLVMGetNumArgOperands(i: R) -> c_uint;
    fn LLVMGetNumSuccessors(i: R) -> c_uint;
    fn LLVMGetSuccessor(i: R, n: c_uint) -> R;
    fn LLVMGetAtomicRMWBinOp(i: R) -> c_uint;
    fn LLVMGetNumMaskElements(i: R) -> c_uint;
    fn LLVMGetMaskValue(i: R, n: c_uint) -> c_int;
    fn LLVMIsAConstantInt(v: R) -> R;
    fn LLVMIsAConstantFP(v: R) -> R;
    fn LLVMIsAConstantExpr(v: R) -> R;
    fn LLVMIsAFunction(v: R) -> R;
    fn LLVMIsAGlobalVariable(v: R) -> R;
    fn LLVMIsAGlobalAlias(v: R) -> R;
    fn LLVMIsAInlineAsm(v: R) -> R;
    fn LLVMIsAConstant(v: R) -> R;
    fn LLVMIsAConstantDataSequential(v: R) -> R;
    fn LLVMIsUndef(v: R) -> c_int;
    fn LLVMIsNull(v: R) -> c_int;
    fn LLVMGetConstOpcode(v: R) -> c_uint;
    fn LLVMConstIntGetZExtValue(v: R) -> c_ulonglong;
    fn LLVMConstRealGetDouble(v: R, lost: *mut c_int) -> f64;
    fn LLVMGetAggregateElement(v: R, i: c_uint) -> R;
    fn LLVMGetRawDataValues(v: R, n: *mut usize) -> *const c_char;
    fn LLVMPrintValueToString(v: R) -> *const c_char;
    fn LLVMGetFirstParam(f: R) -> R;
    fn LLVMGetNextParam(p: R) -> R;
    fn LLVMGetDebugLocLine(v: R) -> c_uint;
    fn LLVMGetDebugLocFilename(v: R, l: *mut c_uint) -> *const c_char;
    fn LLVMGetDebugLocDirectory(v: R, l: *mut c_uint) -> *const c_char;
    fn LLVMInstructionGetDebugLoc(v: R) -> R;
    fn LLVMDILocationGetInlinedAt(l: R) -> R;
    fn LLVMDILocationGetScope(l: R) -> R;
    fn LLVMDIScopeGetFile(s: R) -> R;
    fn LLVMDIFileGetFilename(f: R, l: *mut c_uint) -> *const c_char;
    fn LLVMDIFileGetDirectory(f: R, l: *mut c_uint) -> *const c_char;
    fn LLVMGetOrdering(v: R) -> c_uint;
    fn LLVMGetVolatile(v: R) -> c_int;
    fn LLVMIsAInstruction(v: R) -> R;
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(u128),
    E(u32),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    I(u64),
    C(Val),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(Box<Ty>, u32),
    Agg(Rc<Vec<(u64, Ty)>>), // offset, type
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    Same, // ptrtoint etc. (zext/trunc as needed)
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
impl Pred {
    pub fn norm(self) -> (P, bool, bool) {
        // (pred, swap, negate)
        match self {
            Pred::Eq => (P::Eq, false, false),
            Pred::Ne => (P::Eq, false, true),
            Pred::Ult => (P::Ult, false, false),
            Pred::Ule => (P::Ule, false, false),
            Pred::Ugt => (P::Ult, true, false),
            Pred::Uge => (P::Ule, true, false),
            Pred::Slt => (P::Slt, false, false),
            Pred::Sle => (P::Sle, false, false),
            Pred::Sgt => (P::Slt, true, false),
            Pred::Sge => (P::Sle, true, false),
        }
    }
}

#[derive(Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Vec<(u32, Opnd)>,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, w: u32, n: u32, d: u32, a: Opnd, b: Opnd },
    FBin { op: FOp, dbl: bool, d: u32, a: Opnd, b: Opnd },
    FNeg { dbl: bool, d: u32, a: Opnd },
    Icmp { p: Pred, w: u32, n: u32, d: u32, a: Opnd, b: Opnd },
    Fcmp { p: u32, dbl: bool, d: u32, a: Opnd, b: Opnd },
    Cast { k: Cast, from: Ty, to: Ty, n: u32, d: u32, a: Opnd },
    Bitcast { from: Ty, to: Ty, d: u32, a: Opnd },
    Load { ty: Ty, d: u32, p: Opnd, atomic: bool },
    Store { ty: Ty, v: Opnd, p: Opnd, atomic: bool },
    Gep { d: u32, base: Opnd, off: u64, idx: Vec<(Opnd, u64, u32)> },
    Alloca { size: u64, align: u64, n: Opnd, d: u32 },
    Select { ty: Ty, c: Opnd, vecc: bool, a: Opnd, b: Opnd, d: u32 },
    Call { f: Callee, args: Vec<Opnd>, d: u32, rty: Ty, w: u32 },
    ExtractValue { d: u32, a: Opnd, path: Vec<u32> },
    InsertValue { d: u32, a: Opnd, v: Opnd, path: Vec<u32> },
    ExtractElem { d: u32, a: Opnd, i: Opnd },
    InsertElem { d: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, mask: Vec<i32>, n: u32 },
    CmpXchg { ty: Ty, d: u32, p: Opnd, c: Opnd, n: Opnd },
    Rmw { op: u32, ty: Ty, d: u32, p: Opnd, v: Opnd },
    Fence,
    Copy { d: u32, a: Opnd },
    Br(Edge),
    CondBr { c: Opnd, t: Edge, f: Edge },
    Switch { v: Opnd, w: u32, cases: Vec<(u128, u32)>, edges: Vec<Edge>, default: u32 },
    Ret(Option<Opnd>),
    Unreachable,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opnd),
}

/// whose code an instruction belongs to, through the inlined calls
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Origin {
    /// only the standard library: the caller decides
    Std,
    /// jubako, perhaps through the standard library (reference counts excepted)
    Repo,
    Other,
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub code: Vec<Inst>,
    pub locs: Vec<(u32, u32)>, // file index, line
    pub refs: Vec<R>,
    /// `origin` of each instruction, once known
    pub orig: Vec<std::cell::Cell<Option<Origin>>>,
    pub nregs: u32,
    pub nparams: u32,
    pub hit: Vec<std::cell::Cell<bool>>,
}

pub struct FnInfo {
    pub name: String,
    pub decl: bool,
    pub val: R,
    pub body: Option<&'static Func>,
}

pub const FN_BASE: u64 = 0x7ff0_0000_0000_0000;

pub struct GlobalInfo {
    pub name: String,
    pub val: R,
    pub size: u64,
    pub align: u64,
    pub tls: bool,
    pub constant: bool,
    pub addr: u64,
    pub init: Vec<u8>,
    pub decl: bool,
}

pub struct Module {
    pub td: R,
    pub fns: Vec<FnInfo>,
    pub fn_ix: FxMap<usize, u32>,
    pub by_name: std::collections::HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub gl_ix: FxMap<usize, u32>,
    alias: FxMap<usize, R>,
    pub files: Vec<String>,
    file_ix: std::collections::HashMap<String, u32>,
}

unsafe fn name_of(v: R) -> String {
    let mut l = 0usize;
    let p = LLVMGetValueName2(v, &mut l);
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned()
}
pub unsafe fn show(v: R) -> String {
    CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().into_owned()
}

const K_VOID: c_int = 0;
const K_FLOAT: c_int = 2;
const K_DOUBLE: c_int = 3;
const K_INT: c_int = 8;
const K_STRUCT: c_int = 10;
const K_ARRAY: c_int = 11;
const K_PTR: c_int = 12;
const K_VEC: c_int = 13;

impl Module {
    /// `place` assigns the concrete address of a (non-TLS) global of given size.
    pub fn load(path: &str) -> Module {
        unsafe {
            let ctx = LLVMContextCreate();
            let cp = CString::new(path).unwrap();
            let mut buf = std::ptr::null_mut();
            let mut msg = std::ptr::null_mut();
            if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 {
                eprintln!("cannot read {}", path);
                std::process::exit(3);
            }
            let mut m = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
                eprintln!("cannot parse {}", path);
                std::process::exit(3);
            }
            let td = LLVMGetModuleDataLayout(m);
            let mut md = Module {
                td,
                fns: vec![],
                fn_ix: Default::default(),
                by_name: Default::default(),
                globals: vec![],
                gl_ix: Default::default(),
                alias: Default::default(),
                files: vec![],
                file_ix: Default::default(),
            };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let id = md.fns.len() as u32;
                let name = name_of(f);
                md.fn_ix.insert(f as usize, id);
                md.by_name.insert(name.clone(), id);
                md.fns.push(FnInfo { name, decl: LLVMIsDeclaration(f) != 0, val: f, body: None });
                f = LLVMGetNextFunction(f);
            }
            // reachable through dlsym only
            for n in ["getrandom"] {
                if !md.by_name.contains_key(n) {
                    let id = md.fns.len() as u32;
                    md.by_name.insert(n.into(), id);
                    md.fns.push(FnInfo { name: n.into(), decl: true, val: std::ptr::null_mut(), body: None });
                }
            }
            let mut g = LLVMGetFirstGlobal(m);
            while !g.is_null() {
                let id = md.globals.len() as u32;
                md.gl_ix.insert(g as usize, id);
                let t = LLVMGlobalGetValueType(g);
                md.globals.push(GlobalInfo {
                    name: name_of(g),
                    val: g,
                    size: LLVMABISizeOfType(td, t),
                    align: LLVMGetAlignment(g) as u64,
                    tls: LLVMIsThreadLocal(g) != 0,
                    constant: LLVMIsGlobalConstant(g) != 0,
                    addr: 0,
                    init: vec![],
                    decl: LLVMIsDeclaration(g) != 0,
                });
                g = LLVMGetNextGlobal(g);
            }
            let mut a = LLVMGetFirstGlobalAlias(m);
            while !a.is_null() {
                md.alias.insert(a as usize, LLVMAliasGetAliasee(a));
                a = LLVMGetNextGlobalAlias(a);
            }
            md
        }
    }
    /// after addresses are assigned
    pub fn init_globals(&mut self) {
        unsafe {
            for i in 0..self.globals.len() {
                let g = &self.globals[i];
                let mut b = vec![0u8; g.size as usize];
                if !g.decl {
                    let ini = LLVMGetInitializer(g.val);
                    self.write_const(ini, &mut b, 0);
                }
                self.globals[i].init = b;
            }
        }
    }
    pub fn fn_addr(id: u32) -> u64 {
        FN_BASE + (id as u64) * 16
    }
    unsafe fn ty(&self, t: R) -> Ty {
        match LLVMGetTypeKind(t) {
            K_VOID => Ty::Void,
            K_FLOAT => Ty::F32,
            K_DOUBLE => Ty::F64,
            K_INT => Ty::Int(LLVMGetIntTypeWidth(t)),
            K_PTR => Ty::Ptr,
            K_VEC => Ty::Vec(Box::new(self.ty(LLVMGetElementType(t))), LLVMGetVectorSize(t)),
            K_STRUCT => {
                let n = LLVMCountStructElementTypes(t);
                Ty::Agg(Rc::new(
                    (0..n)
                        .map(|i| {
                            (
                                LLVMOffsetOfElement(self.td, t, i),
                                self.ty(LLVMStructGetTypeAtIndex(t, i)),
                            )
                        })
                        .collect(),
                ))
            }
            K_ARRAY => {
                let n = LLVMGetArrayLength2(t);
                let e = LLVMGetElementType(t);
                let es = LLVMABISizeOfType(self.td, e);
                let et = self.ty(e);
                Ty::Agg(Rc::new((0..n).map(|i| (i * es, et.clone())).collect()))
            }
            k => panic!("type kind {}", k),
        }
    }
    unsafe fn int_const(v: R, w: u32) -> u128 {
        if w <= 64 {
            let x = LLVMConstIntGetZExtValue(v) as u128;
            return x & crate::expr::mask(w);
        }
        let s = show(v);
        let t = s.split_whitespace().last().unwrap();
        let x = if let Some(n) = t.strip_prefix('-') {
            (n.parse::<u128>().unwrap()).wrapping_neg()
        } else {
            t.parse::<u128>().unwrap()
        };
        x & crate::expr::mask(w)
    }
    unsafe fn const_addr(&self, v: R) -> Option<u64> {
        if let Some(t) = self.alias.get(&(v as usize)) {
            return self.const_addr(*t);
        }
        if !LLVMIsAFunction(v).is_null() {
            return Some(Self::fn_addr(self.fn_ix[&(v as usize)]));
        }
        if !LLVMIsAGlobalVariable(v).is_null() {
            return Some(self.globals[self.gl_ix[&(v as usize)] as usize].addr);
        }
        None
    }
    /// evaluate a constant to a value
    pub unsafe fn const_val(&self, v: R) -> Val {
        if let Some(a) = self.const_addr(v) {
            return Val::I(a);
        }
        let t = LLVMTypeOf(v);
        let k = LLVMGetTypeKind(t);
        if !LLVMIsAConstantInt(v).is_null() && k == K_INT {
            let w = LLVMGetIntTypeWidth(t);
            let x = Self::int_const(v, w);
            return if w <= 64 { Val::I(x as u64) } else { Val::W(x) };
        }
        if !LLVMIsAConstantFP(v).is_null() && (k == K_FLOAT || k == K_DOUBLE) {
            let mut l = 0;
            let d = LLVMConstRealGetDouble(v, &mut l);
            return Val::I(if k == K_FLOAT { (d as f32).to_bits() as u64 } else { d.to_bits() });
        }
        if !LLVMIsAConstantExpr(v).is_null() {
            let op = LLVMGetConstOpcode(v);
            let o = |i: u32| match self.const_val(LLVMGetOperand(v, i)) {
                Val::I(x) => x,
                x => panic!("const operand {:?}", x),
            };
            let r = match op {
                8 => o(0).wrapping_add(o(1)),
                10 => o(0).wrapping_sub(o(1)),
                25 => o(0) ^ o(1),
                30 => o(0), // trunc: masked below
                39 | 40 | 41 | 60 | 69 => o(0),
                29 => {
                    let mut a = o(0);
                    let n = LLVMGetNumOperands(v) as u32;
                    let mut ct = LLVMGetGEPSourceElementType(v);
                    for i in 1..n {
                        let x = o(i);
                        if i == 1 {
                            a = a.wrapping_add(x.wrapping_mul(LLVMABISizeOfType(self.td, ct)));
                        } else if LLVMGetTypeKind(ct) == K_STRUCT {
                            a = a.wrapping_add(LLVMOffsetOfElement(self.td, ct, x as u32));
                            ct = LLVMStructGetTypeAtIndex(ct, x as u32);
                        } else {
                            ct = LLVMGetElementType(ct);
                            a = a.wrapping_add(x.wrapping_mul(LLVMABISizeOfType(self.td, ct)));
                        }
                    }
                    a
                }
                _ => panic!("const expr opcode {}: {}", op, show(v)),
            };
            let r = if k == K_INT { r & crate::expr::mask(LLVMGetIntTypeWidth(t)) as u64 } else { r };
            return Val::I(r);
        }
        match k {
            K_STRUCT | K_ARRAY | K_VEC => {
                let n = match k {
                    K_STRUCT => LLVMCountStructElementTypes(t) as u64,
                    K_ARRAY => LLVMGetArrayLength2(t),
                    _ => LLVMGetVectorSize(t) as u64,
                };
                let undef = LLVMIsUndef(v) != 0;
                let mut out = vec![];
                for i in 0..n {
                    if undef {
                        let et = if k == K_STRUCT {
                            LLVMStructGetTypeAtIndex(t, i as u32)
                        } else {
                            LLVMGetElementType(t)
                        };
                        out.push(self.zero(et));
                    } else {
                        out.push(self.const_val(LLVMGetAggregateElement(v, i as u32)));
                    }
                }
                Val::A(Rc::new(out))
            }
            _ => {
                if LLVMIsUndef(v) != 0 || LLVMIsNull(v) != 0 {
                    return self.zero(t);
                }
                panic!("constant {}", show(v))
            }
        }
    }
    unsafe fn zero(&self, t: R) -> Val {
        match LLVMGetTypeKind(t) {
            K_STRUCT => Val::A(Rc::new(
                (0..LLVMCountStructElementTypes(t))
                    .map(|i| self.zero(LLVMStructGetTypeAtIndex(t, i)))
                    .collect(),
            )),
            K_ARRAY => {
                let z = self.zero(LLVMGetElementType(t));
                Val::A(Rc::new((0..LLVMGetArrayLength2(t)).map(|_| z.clone()).collect()))
            }
            K_VEC => {
                let z = self.zero(LLVMGetElementType(t));
                Val::A(Rc::new((0..LLVMGetVectorSize(t)).map(|_| z.clone()).collect()))
            }
            K_INT if LLVMGetIntTypeWidth(t) > 64 => Val::W(0),
            _ => Val::I(0),
        }
    }
    unsafe fn write_const(&self, v: R, b: &mut [u8], off: usize) {
        let t = LLVMTypeOf(v);
        let k = LLVMGetTypeKind(t);
        if LLVMIsUndef(v) != 0 || LLVMIsNull(v) != 0 {
            return;
        }
        if !LLVMIsAConstantDataSequential(v).is_null() {
            let mut n = 0;
            let p = LLVMGetRawDataValues(v, &mut n);
            b[off..off + n].copy_from_slice(std::slice::from_raw_parts(p as *const u8, n));
            return;
        }
        match k {
            K_STRUCT => {
                for i in 0..LLVMCountStructElementTypes(t) {
                    let o = LLVMOffsetOfElement(self.td, t, i) as usize;
                    self.write_const(LLVMGetAggregateElement(v, i), b, off + o);
                }
            }
            K_ARRAY | K_VEC => {
                let es = LLVMABISizeOfType(self.td, LLVMGetElementType(t)) as usize;
                let n = if k == K_ARRAY { LLVMGetArrayLength2(t) } else { LLVMGetVectorSize(t) as u64 };
                for i in 0..n {
                    self.write_const(LLVMGetAggregateElement(v, i as u32), b, off + i as usize * es);
                }
            }
            _ => {
                let n = LLVMStoreSizeOfType(self.td, t) as usize;
                match self.const_val(v) {
                    Val::I(x) => b[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]),
                    Val::W(x) => b[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]),
                    x => panic!("{:?}", x),
                }
            }
        }
    }

    fn file_id(&mut self, v: R) -> (u32, u32) {
        unsafe {
            if LLVMIsAInstruction(v).is_null() {
                return (u32::MAX, 0);
            }
            let line = LLVMGetDebugLocLine(v);
            if line == 0 {
                return (u32::MAX, 0);
            }
            let mut l = 0;
            let p = LLVMGetDebugLocFilename(v, &mut l);
            if p.is_null() {
                return (u32::MAX, 0);
            }
            let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l as usize)).into_owned();
            let s = if s.starts_with('/') {
                s
            } else {
                let mut l = 0;
                let p = LLVMGetDebugLocDirectory(v, &mut l);
                let d = if p.is_null() {
                    String::new()
                } else {
                    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l as usize)).into_owned()
                };
                format!("{}/{}", d, s)
            };
            if let Some(i) = self.file_ix.get(&s) {
                return (*i, line);
            }
            let i = self.files.len() as u32;
            self.files.push(s.clone());
            self.file_ix.insert(s, i);
            (i, line)
        }
    }

    pub fn body(&mut self, id: u32) -> &'static Func {
        if let Some(b) = self.fns[id as usize].body {
            return b;
        }
        let f = unsafe { self.translate(id) };
        let f: &'static Func = Box::leak(Box::new(f));
        self.fns[id as usize].body = Some(f);
        f
    }

    unsafe fn translate(&mut self, id: u32) -> Func {
        let fv = self.fns[id as usize].val;
        let mut regs: FxMap<usize, u32> = Default::default();
        let mut nregs = 0u32;
        let mut p = LLVMGetFirstParam(fv);
        while !p.is_null() {
            regs.insert(p as usize, nregs);
            nregs += 1;
            p = LLVMGetNextParam(p);
        }
        let nparams = nregs;
        let mut blocks = vec![];
        let mut bix: FxMap<usize, usize> = Default::default();
        let mut bb = LLVMGetFirstBasicBlock(fv);
        while !bb.is_null() {
            bix.insert(bb as usize, blocks.len());
            let mut insts = vec![];
            let mut i = LLVMGetFirstInstruction(bb);
            while !i.is_null() {
                insts.push(i);
                if LLVMGetTypeKind(LLVMTypeOf(i)) != K_VOID {
                    regs.insert(i as usize, nregs);
                    nregs += 1;
                }
                i = LLVMGetNextInstruction(i);
            }
            blocks.push((bb, insts));
            bb = LLVMGetNextBasicBlock(bb);
        }
        let scratch = nregs;
        nregs += 1;
        // layout: compute start pc of each block (phis emit nothing)
        let mut starts = vec![];
        let mut pc = 0u32;
        for (_, ins) in &blocks {
            starts.push(pc);
            for i in ins {
                let op = LLVMGetInstructionOpcode(*i);
                if op == 5 {
                    pc += 2;
                } else if op != 44 {
                    pc += 1;
                }
            }
        }
        let mut code = Vec::with_capacity(pc as usize);
        let mut locs = Vec::with_capacity(pc as usize);
        let mut refs = Vec::with_capacity(pc as usize);
        for (bi, (_, ins)) in blocks.iter().enumerate() {
            for &i in ins {
                let opc = LLVMGetInstructionOpcode(i);
                if opc == 44 {
                    continue;
                }
                let d = regs.get(&(i as usize)).copied().unwrap_or(scratch);
                let this = &*self;
                let opnd = |v: R| -> Opnd {
                    if let Some(r) = regs.get(&(v as usize)) {
                        return Opnd::Reg(*r);
                    }
                    match this.const_val(v) {
                        Val::I(x) => Opnd::I(x),
                        x => Opnd::C(x),
                    }
                };
                let op = |n: u32| opnd(LLVMGetOperand(i, n));
                let ty = |v: R| this.ty(LLVMTypeOf(v));
                let edge = |to: R| -> Edge {
                    let tb = bix[&(to as usize)];
                    let mut moves = vec![];
                    for &pi in &blocks[tb].1 {
                        if LLVMGetInstructionOpcode(pi) != 44 {
                            break;
                        }
                        let n = LLVMCountIncoming(pi);
                        for k in 0..n {
                            if LLVMGetIncomingBlock(pi, k) == blocks[bi].0 {
                                let s = opnd(LLVMGetIncomingValue(pi, k));
                                let dr = regs[&(pi as usize)];
                                if let Opnd::Reg(r) = s {
                                    if r == dr {
                                        break;
                                    }
                                }
                                moves.push((dr, s));
                                break;
                            }
                        }
                    }
                    Edge { to: starts[tb], moves }
                };
                let scal = |t: Ty| -> (u32, u32) {
                    match t {
                        Ty::Vec(e, n) => (e.bits(), n),
                        t => (t.bits(), 0),
                    }
                };
                let ins = match opc {
                    1 => Inst::Ret(if LLVMGetNumOperands(i) > 0 { Some(op(0)) } else { None }),
                    2 | 70 | 71 | 72 | 73 => {
                        let n = LLVMGetNumSuccessors(i);
                        if n == 1 {
                            Inst::Br(edge(LLVMGetSuccessor(i, 0)))
                        } else {
                            Inst::CondBr {
                                c: op(0),
                                t: edge(LLVMGetSuccessor(i, 0)),
                                f: edge(LLVMGetSuccessor(i, 1)),
                            }
                        }
                    }
                    3 => {
                        let n = LLVMGetNumSuccessors(i);
                        let w = scal(ty(LLVMGetOperand(i, 0))).0;
                        let mut edges = vec![];
                        let mut cases = vec![];
                        // successor 0 is the default; case values come from printing since
                        // operand access for case values changed between releases
                        edges.push(edge(LLVMGetSuccessor(i, 0)));
                        let vals = switch_values(i, n, w);
                        for k in 1..n {
                            cases.push((vals[(k - 1) as usize], edges.len() as u32));
                            edges.push(edge(LLVMGetSuccessor(i, k)));
                        }
                        Inst::Switch { v: op(0), w, cases, edges, default: 0 }
                    }
                    // panics are intercepted where they are raised: nothing ever unwinds
                    6 | 7 | 58 | 59 => Inst::Unreachable,
                    8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=28 if opc <= 25 => {
                        let o = match opc {
                            8 => Op::Add,
                            10 => Op::Sub,
                            12 => Op::Mul,
                            14 => Op::UDiv,
                            15 => Op::SDiv,
                            17 => Op::URem,
                            18 => Op::SRem,
                            20 => Op::Shl,
                            21 => Op::LShr,
                            22 => Op::AShr,
                            23 => Op::And,
                            24 => Op::Or,
                            25 => Op::Xor,
                            _ => unreachable!(),
                        };
                        let (w, n) = scal(ty(i));
                        Inst::Bin { op: o, w, n, d, a: op(0), b: op(1) }
                    }
                    9 | 11 | 13 | 16 | 19 => Inst::FBin {
                        op: match opc {
                            9 => FOp::Add,
                            11 => FOp::Sub,
                            13 => FOp::Mul,
                            16 => FOp::Div,
                            _ => FOp::Rem,
                        },
                        dbl: ty(i) == Ty::F64,
                        d,
                        a: op(0),
                        b: op(1),
                    },
                    66 => Inst::FNeg { dbl: ty(i) == Ty::F64, d, a: op(0) },
                    26 => {
                        let t = LLVMGetAllocatedType(i);
                        Inst::Alloca {
                            size: LLVMABISizeOfType(this.td, t),
                            align: LLVMGetAlignment(i) as u64,
                            n: op(0),
                            d,
                        }
                    }
                    27 => Inst::Load { ty: ty(i), d, p: op(0), atomic: LLVMGetOrdering(i) != 0 },
                    28 => Inst::Store {
                        ty: ty(LLVMGetOperand(i, 0)),
                        v: op(0),
                        p: op(1),
                        atomic: LLVMGetOrdering(i) != 0,
                    },
                    29 => {
                        let mut off = 0u64;
                        let mut idx = vec![];
                        let n = LLVMGetNumOperands(i) as u32;
                        let mut ct = LLVMGetGEPSourceElementType(i);
                        for k in 1..n {
                            let ov = LLVMGetOperand(i, k);
                            let sc;
                            if k == 1 {
                                sc = LLVMABISizeOfType(this.td, ct);
                            } else if LLVMGetTypeKind(ct) == K_STRUCT {
                                let x = LLVMConstIntGetZExtValue(ov) as u32;
                                off = off.wrapping_add(LLVMOffsetOfElement(this.td, ct, x));
                                ct = LLVMStructGetTypeAtIndex(ct, x);
                                continue;
                            } else {
                                ct = LLVMGetElementType(ct);
                                sc = LLVMABISizeOfType(this.td, ct);
                            }
                            let w = ty(ov).bits();
                            match opnd(ov) {
                                Opnd::I(x) => {
                                    let x = crate::expr::sx(x as u128, w) as u64;
                                    off = off.wrapping_add(x.wrapping_mul(sc))
                                }
                                o => idx.push((o, sc, w)),
                            }
                        }
                        Inst::Gep { d, base: op(0), off, idx }
                    }
                    30..=40 | 60 | 69 => {
                        let k = match opc {
                            30 => Cast::Trunc,
                            31 => Cast::ZExt,
                            32 => Cast::SExt,
                            33 => Cast::FpToUi,
                            34 => Cast::FpToSi,
                            35 => Cast::UiToFp,
                            36 => Cast::SiToFp,
                            37 => Cast::FpTrunc,
                            38 => Cast::FpExt,
                            _ => Cast::Same,
                        };
                        let (f, t) = (ty(LLVMGetOperand(i, 0)), ty(i));
                        let (f, t, n) = match (f, t) {
                            (Ty::Vec(a, n), Ty::Vec(b, _)) => (*a, *b, n),
                            (a, b) => (a, b, 0),
                        };
                        Inst::Cast { k, from: f, to: t, n, d, a: op(0) }
                    }
                    41 => Inst::Bitcast { from: ty(LLVMGetOperand(i, 0)), to: ty(i), d, a: op(0) },
                    42 => {
                        let p = match LLVMGetICmpPredicate(i) {
                            32 => Pred::Eq,
                            33 => Pred::Ne,
                            34 => Pred::Ugt,
                            35 => Pred::Uge,
                            36 => Pred::Ult,
                            37 => Pred::Ule,
                            38 => Pred::Sgt,
                            39 => Pred::Sge,
                            40 => Pred::Slt,
                            41 => Pred::Sle,
                            x => panic!("pred {}", x),
                        };
                        let (w, n) = scal(ty(LLVMGetOperand(i, 0)));
                        Inst::Icmp { p, w, n, d, a: op(0), b: op(1) }
                    }
                    43 => Inst::Fcmp {
                        p: LLVMGetFCmpPredicate(i),
                        dbl: ty(LLVMGetOperand(i, 0)) == Ty::F64,
                        d,
                        a: op(0),
                        b: op(1),
                    },
                    5 | 45 => {
                        let cv = LLVMGetCalledValue(i);
                        let n = LLVMGetNumArgOperands(i);
                        if !LLVMIsAInlineAsm(cv).is_null() {
                            let s = show(cv);
                            if s.contains("asm sideeffect \"\", \"~{memory}\"") || s.contains("\"\", \"r,~{memory}\"") {
                                Inst::Fence
                            } else if s.contains("cpuid") {
                                // no optional CPU features
                                let z = this.zero(LLVMTypeOf(i));
                                Inst::Copy { d, a: Opnd::C(z) }
                            } else if s.contains("asm ") && s.contains("\"\"") {
                                if LLVMGetTypeKind(LLVMTypeOf(i)) == K_VOID {
                                    Inst::Fence
                                } else {
                                    // value barrier
                                    Inst::Copy { d, a: op(0) }
                                }
                            } else {
                                panic!("inline asm {} in {}", s, this.fns[id as usize].name)
                            }
                        } else {
                            let metadata = |k: u32| LLVMGetTypeKind(LLVMTypeOf(LLVMGetOperand(i, k))) == 14;
                            let args: Vec<Opnd> =
                                (0..n).map(|k| if metadata(k) { Opnd::I(0) } else { op(k) }).collect();
                            let rty = this.ty(LLVMTypeOf(i));
                            let w = if n > 0 && !metadata(0) {
                                match LLVMGetTypeKind(LLVMTypeOf(LLVMGetOperand(i, 0))) {
                                    K_INT => LLVMGetIntTypeWidth(LLVMTypeOf(LLVMGetOperand(i, 0))),
                                    _ => 64,
                                }
                            } else {
                                0
                            };
                            let mut target = cv;
                            while let Some(t) = this.alias.get(&(target as usize)) {
                                target = *t;
                            }
                            let f = if let Some(fi) = this.fn_ix.get(&(target as usize)) {
                                Callee::Fn(*fi)
                            } else {
                                Callee::Ind(opnd(cv))
                            };
                            Inst::Call { f, args, d, rty, w }
                        }
                    }
                    46 => {
                        let vecc = matches!(ty(LLVMGetOperand(i, 0)), Ty::Vec(..));
                        Inst::Select { ty: ty(i), c: op(0), vecc, a: op(1), b: op(2), d }
                    }
                    50 => Inst::ExtractElem { d, a: op(0), i: op(1) },
                    51 => Inst::InsertElem { d, a: op(0), v: op(1), i: op(2) },
                    52 => {
                        let n = LLVMGetNumMaskElements(i);
                        let mask = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                        let sn = match ty(LLVMGetOperand(i, 0)) {
                            Ty::Vec(_, n) => n,
                            _ => 0,
                        };
                        Inst::Shuffle { d, a: op(0), b: op(1), mask, n: sn }
                    }
                    53 | 54 => {
                        let n = LLVMGetNumIndices(i) as usize;
                        let path = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                        if opc == 53 {
                            Inst::ExtractValue { d, a: op(0), path }
                        } else {
                            Inst::InsertValue { d, a: op(0), v: op(1), path }
                        }
                    }
                    55 => Inst::Fence,
                    56 => Inst::CmpXchg { ty: ty(LLVMGetOperand(i, 1)), d, p: op(0), c: op(1), n: op(2) },
                    57 => Inst::Rmw {
                        op: LLVMGetAtomicRMWBinOp(i),
                        ty: ty(LLVMGetOperand(i, 1)),
                        d,
                        p: op(0),
                        v: op(1),
                    },
                    68 => Inst::Copy { d, a: op(0) },
                    x => panic!("opcode {} {}", x, show(i)),
                };
                let br = if opc == 5 { Some(Inst::Br(edge(LLVMGetSuccessor(i, 0)))) } else { None };
                code.push(ins);
                let l = self.file_id(i);
                locs.push(l);
                refs.push(i);
                if let Some(b) = br {
                    code.push(b);
                    locs.push(l);
                    refs.push(i);
                }
            }
        }
        let n = code.len();
        Func {
            id,
            name: self.fns[id as usize].name.clone(),
            code,
            locs,
            refs,
            orig: (0..n).map(|_| std::cell::Cell::new(None)).collect(),
            nregs,
            nparams,
            hit: (0..n).map(|_| std::cell::Cell::new(false)).collect(),
        }
    }
}

unsafe fn switch_values(i: R, n: u32, w: u32) -> Vec<u128> {
    // textual form: switch i64 %x, label %d [ i64 0, label %a  i64 1, label %b ]
    let s = show(i);
    let b = s.find('[').unwrap();
    let e = s.rfind(']').unwrap();
    let mut out = vec![];
    let toks: Vec<&str> = s[b + 1..e].split_whitespace().collect();
    let mut k = 0;
    while k + 3 < toks.len() + 0 || k + 3 == toks.len() - 0 {
        if k + 3 > toks.len() - 1 {
            break;
        }
        // iN VAL, label %x
        let v = toks[k + 1].trim_end_matches(',');
        let x = if v == "true" {
            1
        } else if v == "false" {
            0
        } else if let Some(m) = v.strip_prefix('-') {
            m.parse::<u128>().unwrap().wrapping_neg() & crate::expr::mask(w)
        } else {
            v.parse::<u128>().unwrap()
        };
        out.push(x);
        k += 4;
    }
    assert_eq!(out.len() as u32, n - 1, "switch: {}", s);
    out
}

impl Func {
    pub fn origin(&self, pc: u32) -> Origin {
        let c = &self.orig[pc as usize];
        if c.get().is_none() {
            c.set(Some(unsafe { origin(self.refs[pc as usize]) }));
        }
        c.get().unwrap()
    }
}
/// a source file of /repo, or of a copy of it (repo2, seedrepo3)
fn of_repo(name: &str) -> bool {
    name.find("/src/").map_or(false, |i| name[..i].trim_end_matches(|c: char| c.is_ascii_digit()).ends_with("repo"))
}
unsafe fn origin(i: R) -> Origin {
    if LLVMIsAInstruction(i).is_null() {
        return Origin::Std;
    }
    let mut l = LLVMInstructionGetDebugLoc(i);
    while !l.is_null() {
        let f = LLVMDIScopeGetFile(LLVMDILocationGetScope(l));
        if !f.is_null() {
            let get = |g: unsafe extern "C" fn(R, *mut c_uint) -> *const c_char| {
                let mut n = 0;
                let p = g(f, &mut n);
                if p.is_null() {
                    return String::new();
                }
                String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).into_owned()
            };
            let name = get(LLVMDIFileGetFilename);
            let name = if name.starts_with('/') { name } else { format!("{}/{}", get(LLVMDIFileGetDirectory), name) };
            if name.ends_with("library/alloc/src/sync.rs") {
                return Origin::Other;
            }
            if !name.contains("/library/") {
                return if of_repo(&name) { Origin::Repo } else { Origin::Other };
            }
        }
        l = LLVMDILocationGetInlinedAt(l);
    }
    Origin::Std
}
