//! Internal IR, translated from LLVM modules.

use crate::expr::E;
use crate::llvm::{self, *};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W(Arc<u128>),
    S(E),
    A(Arc<[Val]>),
}

pub fn kval(w: u8, v: u128) -> Val {
    if w <= 64 {
        Val::C((v & crate::expr::mask(w)) as u64)
    } else {
        Val::W(Arc::new(v & crate::expr::mask(w)))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Big(u32),
    Vec(Box<Ty>, u32),
    Arr(Arc<Ty>, u64, u64),               // elem, n, elem stride
    Struct(Arc<Vec<(u64, Ty)>>, u64),     // (offset, ty), size
}
impl Ty {
    pub fn w(&self) -> u8 {
        match self {
            Ty::Int(w) => *w,
            Ty::Vec(e, _) => e.w(),
            _ => 0,
        }
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vec(_, n) => *n,
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Big(w) => (*w as u64 + 7) / 8,
            Ty::Vec(e, n) => (e.w() as u64 * *n as u64 + 7) / 8,
            Ty::Arr(_, n, s) => n * s,
            Ty::Struct(_, s) => *s,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,       // lifetime, assume, dbg ...
    Memcpy,    // also memmove
    Memset,
    Expect,    // returns arg 0
    IsConst,   // returns 0
    ObjSize,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    BitRev,
    Fshl,
    Fshr,
    Umin,
    Umax,
    Smin,
    Smax,
    Abs,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    AddO(bool), // signed?
    SubO(bool),
    MulO(bool),
    ThreadLocal,
    Ptrmask,
    Ucmp,
    Scmp,
    ReduceAdd,
    ReduceAnd,
    ReduceOr,
    ReduceXor,
    ReduceUMax,
    ReduceUMin,
    Pmovmskb,
    Trap,
    FloatOp,
    LoadRelative,
    Unsupported,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ext {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memchr,
    Memrchr,
    Memcpy,
    Memset,
    Abort,
    Syscallish, // returns -1 / 0
    HashOne,
    RandomKeys,
    Panic,
    PanicOther,
    SymBytes,
    SymChoice,
    SymAssume,
    SymCheck,
    SymReach,
    SymObserve,
    SymNative,
    SymTier,
    SymConc,
    SymNote,
    SymIntern,
    Unknown,
}

#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Intr(Intr),
    Ext(Ext, String),
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: crate::expr::Op, dst: u32, w: u8, lanes: u32, a: Opd, b: Opd },
    Icmp { pred: u8, dst: u32, w: u8, lanes: u32, a: Opd, b: Opd },
    Select { dst: u32, ty: Ty, ptr: bool, c: Opd, a: Opd, b: Opd, vcond: bool },
    Cast { k: CastK, dst: u32, from: Ty, to: Ty, a: Opd },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: i64, terms: Vec<(Opd, u8, i64)> },
    Alloca { dst: u32, size: u64, count: Opd },
    Call { dst: Option<u32>, callee: Callee, args: Vec<Opd>, argw: Vec<u8>, retw: u8, retlanes: u32, normal: Option<u32> },
    ExtractVal { dst: u32, a: Opd, idx: Vec<u32> },
    InsertVal { dst: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, na: u32, mask: Vec<i32> },
    Copy { dst: u32, a: Opd },
    Rmw { dst: u32, op: i32, w: u8, p: Opd, v: Opd },
    CmpXchg { dst: u32, w: u8, p: Opd, e: Opd, n: Opd },
    Br { to: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u8, v: Opd, cases: Vec<(u128, u32)>, default: u32 },
    Ret { v: Option<Opd> },
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    /// phi moves per predecessor block
    pub phis: HashMap<u32, Vec<(u32, Opd)>>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub const PAGE: usize = 1024;
pub const GLOB_BASE: u64 = 0x0010_0000;
pub const FN_BASE: u64 = 0x4000_0000;
pub const STACK_BASE: u64 = 0x5000_0000;
pub const HEAP_BASE: u64 = 0x6000_0000;

pub struct Module {
    fptrs: Vec<usize>,
    pub fnames: Vec<String>,
    funcs: Vec<OnceLock<Option<Arc<Func>>>>,
    fidx: HashMap<usize, u32>,
    gaddr: HashMap<usize, u64>,
    td: usize,
    pub image: Vec<u8>,
    pub entry: HashMap<String, u32>,
    lock: std::sync::Mutex<()>,
}
unsafe impl Send for Module {}
unsafe impl Sync for Module {}

pub fn classify_ext(n: &str) -> Option<Ext> {
    Some(match n {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::PosixMemalign,
        "memcmp" => Ext::Memcmp,
        "bcmp" => Ext::Bcmp,
        "strlen" => Ext::Strlen,
        "memchr" => Ext::Memchr,
        "memrchr" => Ext::Memrchr,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "abort" => Ext::Abort,
        "__cxa_thread_atexit_impl" | "write" | "writev" | "pthread_key_create"
        | "pthread_setspecific" | "pthread_key_delete" => Ext::Syscallish,
        "__sym_bytes" => Ext::SymBytes,
        "__sym_choice" => Ext::SymChoice,
        "__sym_assume" => Ext::SymAssume,
        "__sym_check" => Ext::SymCheck,
        "__sym_reach" => Ext::SymReach,
        "__sym_observe" => Ext::SymObserve,
        "__sym_native" => Ext::SymNative,
        "__sym_tier" => Ext::SymTier,
        "__sym_conc" => Ext::SymConc,
        "__sym_note" => Ext::SymNote,
        "__sym_intern" => Ext::SymIntern,
        _ => {
            if n.contains("8hash_one") {
                Ext::HashOne
            } else if n.contains("20hashmap_random_keys") {
                Ext::RandomKeys
            } else if n.ends_with("9panicking9panic_fmt") {
                Ext::Panic
            } else if n.contains("9panicking19panic_cannot_unwind")
                || n.contains("9panicking18panic_nounwind_fmt")
                || n.contains("18handle_alloc_error")
            {
                Ext::PanicOther
            } else {
                return None;
            }
        }
    })
}

fn classify_intr(n: &str) -> Intr {
    let b = n.strip_prefix("llvm.").unwrap_or(n);
    let s = |p: &str| b.starts_with(p);
    if s("lifetime.") || s("dbg.") || s("assume") || s("experimental.noalias") || s("donothing")
        || s("prefetch") || s("invariant.") || s("sideeffect")
    {
        Intr::Nop
    } else if s("memcpy.") || s("memmove.") {
        Intr::Memcpy
    } else if s("memset.") {
        Intr::Memset
    } else if s("expect.") || s("launder.invariant") || s("ssa.copy") || s("strip.invariant") {
        Intr::Expect
    } else if s("is.constant") {
        Intr::IsConst
    } else if s("objectsize") {
        Intr::ObjSize
    } else if s("ctpop.") {
        Intr::Ctpop
    } else if s("ctlz.") {
        Intr::Ctlz
    } else if s("cttz.") {
        Intr::Cttz
    } else if s("bswap.") {
        Intr::Bswap
    } else if s("bitreverse.") {
        Intr::BitRev
    } else if s("fshl.") {
        Intr::Fshl
    } else if s("fshr.") {
        Intr::Fshr
    } else if s("umin.") {
        Intr::Umin
    } else if s("umax.") {
        Intr::Umax
    } else if s("smin.") {
        Intr::Smin
    } else if s("smax.") {
        Intr::Smax
    } else if s("abs.") {
        Intr::Abs
    } else if s("uadd.sat") {
        Intr::UAddSat
    } else if s("usub.sat") {
        Intr::USubSat
    } else if s("sadd.sat") {
        Intr::SAddSat
    } else if s("ssub.sat") {
        Intr::SSubSat
    } else if s("uadd.with.overflow") {
        Intr::AddO(false)
    } else if s("sadd.with.overflow") {
        Intr::AddO(true)
    } else if s("usub.with.overflow") {
        Intr::SubO(false)
    } else if s("ssub.with.overflow") {
        Intr::SubO(true)
    } else if s("umul.with.overflow") {
        Intr::MulO(false)
    } else if s("smul.with.overflow") {
        Intr::MulO(true)
    } else if s("threadlocal.address") {
        Intr::ThreadLocal
    } else if s("ptrmask") {
        Intr::Ptrmask
    } else if s("ucmp.") {
        Intr::Ucmp
    } else if s("scmp.") {
        Intr::Scmp
    } else if s("vector.reduce.add") {
        Intr::ReduceAdd
    } else if s("vector.reduce.and") {
        Intr::ReduceAnd
    } else if s("vector.reduce.or") {
        Intr::ReduceOr
    } else if s("vector.reduce.xor") {
        Intr::ReduceXor
    } else if s("vector.reduce.umax") {
        Intr::ReduceUMax
    } else if s("vector.reduce.umin") {
        Intr::ReduceUMin
    } else if s("x86.sse2.pmovmskb.128") {
        Intr::Pmovmskb
    } else if s("trap") || s("debugtrap") {
        Intr::Trap
    } else if s("load.relative") {
        Intr::LoadRelative
    } else {
        Intr::Unsupported
    }
}

impl Module {
    pub fn new(m: P, entries: &[String]) -> Arc<Module> {
        let fs = functions(m);
        let mut fidx = HashMap::new();
        let mut fnames = vec![];
        let mut entry = HashMap::new();
        for (i, f) in fs.iter().enumerate() {
            fidx.insert(*f as usize, i as u32);
            let n = llvm::name(*f);
            if entries.contains(&n) {
                entry.insert(n.clone(), i as u32);
            }
            fnames.push(n);
        }
        let td = unsafe { LLVMGetModuleDataLayout(m) };
        let mut gaddr = HashMap::new();
        let mut addr = GLOB_BASE;
        let gs = globals(m);
        for g in &gs {
            unsafe {
                let t = LLVMGlobalGetValueType(*g);
                let size = LLVMABISizeOfType(td, t);
                let align = (LLVMGetAlignment(*g) as u64)
                    .max(LLVMABIAlignmentOfType(td, t) as u64)
                    .max(1);
                addr = (addr + align - 1) / align * align;
                gaddr.insert(*g as usize, addr);
                addr += size.max(1);
            }
        }
        let total = (addr - GLOB_BASE) as usize;
        let mut me = Module {
            fptrs: fs.iter().map(|f| *f as usize).collect(),
            funcs: fs.iter().map(|_| OnceLock::new()).collect(),
            fnames,
            fidx,
            gaddr,
            td: td as usize,
            image: vec![0; (total + PAGE - 1) / PAGE * PAGE],
            entry,
            lock: std::sync::Mutex::new(()),
        };
        for a in aliases(m) {
            let tgt = unsafe { LLVMAliasGetAliasee(a) };
            if unsafe { !LLVMIsAFunction(tgt).is_null() } {
                let i = me.fidx[&(tgt as usize)];
                me.fidx.insert(a as usize, i);
            } else if let Some(&x) = me.gaddr.get(&(tgt as usize)) {
                me.gaddr.insert(a as usize, x);
            }
        }
        for g in &gs {
            unsafe {
                if LLVMIsDeclaration(*g) == 0 {
                    let init = LLVMGetInitializer(*g);
                    let a = me.gaddr[&(*g as usize)];
                    me.init_const(a, init);
                }
            }
        }
        Arc::new(me)
    }

    pub fn fn_of_addr(&self, a: u64) -> Option<u32> {
        if a >= FN_BASE && (a - FN_BASE) % 16 == 0 && ((a - FN_BASE) / 16) < self.fptrs.len() as u64 {
            Some(((a - FN_BASE) / 16) as u32)
        } else {
            None
        }
    }

    fn put(&mut self, addr: u64, bytes: &[u8]) {
        let o = (addr - GLOB_BASE) as usize;
        self.image[o..o + bytes.len()].copy_from_slice(bytes);
    }

    fn init_const(&mut self, addr: u64, v: P) {
        unsafe {
            let td = self.td as P;
            if !LLVMIsAConstantAggregateZero(v).is_null() || !LLVMIsAUndefValue(v).is_null() {
                return;
            }
            if !LLVMIsAConstantDataSequential(v).is_null() {
                let mut n = 0usize;
                let p = LLVMGetRawDataValues(v, &mut n) as *const u8;
                let b = std::slice::from_raw_parts(p, n).to_vec();
                self.put(addr, &b);
                return;
            }
            let t = LLVMTypeOf(v);
            match LLVMGetTypeKind(t) {
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    for i in 0..n {
                        let e = LLVMGetAggregateElement(v, i);
                        self.init_const(addr + LLVMOffsetOfElement(td, t, i), e);
                    }
                }
                11 | 13 => {
                    let n = if LLVMGetTypeKind(t) == 11 {
                        LLVMGetArrayLength2(t)
                    } else {
                        LLVMGetVectorSize(t) as u64
                    };
                    let s = LLVMABISizeOfType(td, LLVMGetElementType(t));
                    for i in 0..n {
                        let e = LLVMGetAggregateElement(v, i as u32);
                        self.init_const(addr + i * s, e);
                    }
                }
                _ => {
                    let n = LLVMStoreSizeOfType(td, t) as usize;
                    let x = match self.constant(v) {
                        Ok(Val::C(x)) => x as u128,
                        Ok(Val::W(x)) => *x,
                        Ok(_) => panic!("aggregate scalar"),
                        Err(e) => panic!("initialiser: {e}"),
                    };
                    let b = x.to_le_bytes()[..n].to_vec();
                    self.put(addr, &b);
                }
            }
        }
    }

    pub fn ty(&self, t: P) -> Ty {
        unsafe {
            let td = self.td as P;
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                8 => {
                    let w = LLVMGetIntTypeWidth(t);
                    if w <= 128 {
                        Ty::Int(w as u8)
                    } else {
                        Ty::Big(w)
                    }
                }
                12 => Ty::Int(64),
                2 => Ty::Int(32),
                3 => Ty::Int(64),
                1 => Ty::Int(16),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut v = vec![];
                    for i in 0..n {
                        v.push((
                            LLVMOffsetOfElement(td, t, i),
                            self.ty(LLVMStructGetTypeAtIndex(t, i)),
                        ));
                    }
                    Ty::Struct(Arc::new(v), LLVMABISizeOfType(td, t))
                }
                11 => {
                    let e = LLVMGetElementType(t);
                    Ty::Arr(Arc::new(self.ty(e)), LLVMGetArrayLength2(t), LLVMABISizeOfType(td, e))
                }
                13 => Ty::Vec(Box::new(self.ty(LLVMGetElementType(t))), LLVMGetVectorSize(t)),
                _ => Ty::Void,
            }
        }
    }

    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) => kval(*w, 0),
            Ty::Vec(e, n) => Val::A((0..*n).map(|_| Self::zero(e)).collect()),
            Ty::Arr(e, n, _) => Val::A((0..*n).map(|_| Self::zero(e)).collect()),
            Ty::Struct(f, _) => Val::A(f.iter().map(|(_, t)| Self::zero(t)).collect()),
            _ => Val::C(0),
        }
    }

    fn constant(&self, v: P) -> Result<Val, String> {
        unsafe {
            let t = LLVMTypeOf(v);
            if !LLVMIsAConstantInt(v).is_null() {
                // scalar (or splat) integer
                if LLVMGetTypeKind(t) == 8 {
                    let w = LLVMGetIntTypeWidth(t);
                    if w <= 64 {
                        return Ok(Val::C(LLVMConstIntGetZExtValue(v)));
                    }
                    let s = llvm::print(v);
                    let d = s.rsplit(' ').next().unwrap().to_string();
                    let x = if let Some(neg) = d.strip_prefix('-') {
                        (neg.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
                    } else {
                        d.parse::<u128>().map_err(|e| format!("{s}: {e}"))?
                    };
                    if w > 128 {
                        return Err("big const".into());
                    }
                    return Ok(kval(w as u8, x));
                }
            }
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() {
                return Ok(Self::zero(&self.ty(t)));
            }
            if !LLVMIsAConstantPointerNull(v).is_null() {
                return Ok(Val::C(0));
            }
            if !LLVMIsAFunction(v).is_null() {
                return Ok(Val::C(FN_BASE + 16 * self.fidx[&(v as usize)] as u64));
            }
            if let Some(&a) = self.gaddr.get(&(v as usize)) {
                return Ok(Val::C(a));
            }
            if let Some(&a) = self.fidx.get(&(v as usize)) {
                return Ok(Val::C(FN_BASE + 16 * a as u64));
            }
            if !LLVMIsAConstantFP(v).is_null() && matches!(LLVMGetTypeKind(t), 2 | 3) {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                return Ok(if LLVMGetTypeKind(t) == 2 {
                    Val::C((d as f32).to_bits() as u64)
                } else {
                    Val::C(d.to_bits())
                });
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                let get = |i: u32| -> Result<u64, String> {
                    match self.constant(LLVMGetOperand(v, i))? {
                        Val::C(x) => Ok(x),
                        _ => Err("const operand".into()),
                    }
                };
                return match op {
                    29 => {
                        // GEP
                        let mut a = get(0)? as i64;
                        let mut ty = LLVMGetGEPSourceElementType(v);
                        let n = LLVMGetNumOperands(v);
                        let td = self.td as P;
                        for k in 1..n {
                            let i = get(k as u32)? as i64;
                            // sign extension of narrower indices
                            let it = LLVMTypeOf(LLVMGetOperand(v, k as u32));
                            let w = LLVMGetIntTypeWidth(it);
                            let i = if w < 64 { (i << (64 - w)) >> (64 - w) } else { i };
                            if k == 1 {
                                a = a.wrapping_add(i.wrapping_mul(LLVMABISizeOfType(td, ty) as i64));
                            } else if LLVMGetTypeKind(ty) == 10 {
                                a += LLVMOffsetOfElement(td, ty, i as u32) as i64;
                                ty = LLVMStructGetTypeAtIndex(ty, i as u32);
                            } else {
                                ty = LLVMGetElementType(ty);
                                a += i * LLVMABISizeOfType(td, ty) as i64;
                            }
                        }
                        Ok(Val::C(a as u64))
                    }
                    39 | 40 | 41 | 69 => {
                        let x = get(0)?;
                        match self.ty(t) {
                            Ty::Int(w) => Ok(kval(w, x as u128)),
                            _ => Err("const cast".into()),
                        }
                    }
                    30 => Ok(Val::C(get(0)? & crate::expr::mask(self.ty(t).w()) as u64)),
                    8 => Ok(Val::C(get(0)?.wrapping_add(get(1)?))),
                    10 => {
                        let w = self.ty(t).w();
                        Ok(kval(w, get(0)?.wrapping_sub(get(1)?) as u128))
                    }
                    _ => Err(format!("const expr op {op}: {}", llvm::print(v))),
                };
            }
            match LLVMGetTypeKind(t) {
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut r = vec![];
                    for i in 0..n {
                        r.push(self.constant(LLVMGetAggregateElement(v, i))?);
                    }
                    Ok(Val::A(r.into()))
                }
                11 | 13 => {
                    let n = if LLVMGetTypeKind(t) == 11 {
                        LLVMGetArrayLength2(t) as u32
                    } else {
                        LLVMGetVectorSize(t)
                    };
                    let mut r = vec![];
                    for i in 0..n {
                        r.push(self.constant(LLVMGetAggregateElement(v, i))?);
                    }
                    Ok(Val::A(r.into()))
                }
                k => Err(format!("constant kind {k}: {}", llvm::print(v))),
            }
        }
    }

    pub fn func(&self, i: u32) -> Option<Arc<Func>> {
        if let Some(f) = self.funcs[i as usize].get() {
            return f.clone();
        }
        let _g = self.lock.lock().unwrap();
        self.funcs[i as usize].get_or_init(|| self.translate(i)).clone()
    }

    fn translate(&self, id: u32) -> Option<Arc<Func>> {
        unsafe {
            let f = self.fptrs[id as usize] as P;
            if LLVMIsDeclaration(f) != 0 {
                return None;
            }
            let mut regs: HashMap<usize, u32> = HashMap::new();
            let mut nregs = 0u32;
            let mut params = vec![];
            for i in 0..LLVMCountParams(f) {
                regs.insert(LLVMGetParam(f, i) as usize, nregs);
                params.push(nregs);
                nregs += 1;
            }
            let mut bidx: HashMap<usize, u32> = HashMap::new();
            let mut bbs = vec![];
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                bidx.insert(b as usize, bbs.len() as u32);
                bbs.push(b);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 {
                        regs.insert(i as usize, nregs);
                        nregs += 1;
                    }
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut blocks = vec![];
            for &b in &bbs {
                let mut insts = vec![];
                let mut phis: HashMap<u32, Vec<(u32, Opd)>> = HashMap::new();
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    let op = LLVMGetInstructionOpcode(i);
                    if op == 44 {
                        let dst = regs[&(i as usize)];
                        for k in 0..LLVMCountIncoming(i) {
                            let p = bidx[&(LLVMGetIncomingBlock(i, k) as usize)];
                            let v = match self.opd(&regs, LLVMGetIncomingValue(i, k)) {
                                Ok(v) => v,
                                Err(e) => {
                                    insts.push(Inst::Unsupported(e));
                                    continue;
                                }
                            };
                            let l = phis.entry(p).or_default();
                            if !l.iter().any(|(d, _)| *d == dst) {
                                l.push((dst, v));
                            }
                        }
                    } else {
                        match self.inst(i, op, &regs, &bidx) {
                            Ok(Some(x)) => insts.push(x),
                            Ok(None) => {}
                            Err(e) => insts.push(Inst::Unsupported(format!("{e} in {}", llvm::print(i)))),
                        }
                    }
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(Block { insts, phis });
            }
            Some(Arc::new(Func { name: self.fnames[id as usize].clone(), id, nregs, params, blocks }))
        }
    }

    fn opd(&self, regs: &HashMap<usize, u32>, v: P) -> Result<Opd, String> {
        if let Some(&r) = regs.get(&(v as usize)) {
            return Ok(Opd::R(r));
        }
        Ok(Opd::K(self.constant(v)?))
    }

    unsafe fn inst(
        &self,
        i: P,
        op: i32,
        regs: &HashMap<usize, u32>,
        bidx: &HashMap<usize, u32>,
    ) -> Result<Option<Inst>, String> {
        use crate::expr::Op as X;
        let dst = regs.get(&(i as usize)).copied().unwrap_or(0);
        let o = |k: u32| self.opd(regs, LLVMGetOperand(i, k));
        let ty = self.ty(LLVMTypeOf(i));
        let td = self.td as P;
        let bin = |x: X| -> Result<Option<Inst>, String> {
            if matches!(ty, Ty::Big(_)) {
                return Err("wide int".into());
            }
            Ok(Some(Inst::Bin { op: x, dst, w: ty.w(), lanes: ty.lanes(), a: o(0)?, b: o(1)? }))
        };
        match op {
            1 => Ok(Some(Inst::Ret { v: if LLVMGetNumOperands(i) == 0 { None } else { Some(o(0)?) } })),
            // br (conditional or not; LLVM 23 split the opcodes)
            2 | 70 | 71 => {
                let n = LLVMGetNumSuccessors(i);
                if n == 1 {
                    Ok(Some(Inst::Br { to: bidx[&(LLVMGetSuccessor(i, 0) as usize)] }))
                } else {
                    let c = self.opd(regs, LLVMGetCondition(i))?;
                    Ok(Some(Inst::CondBr {
                        c,
                        t: bidx[&(LLVMGetSuccessor(i, 0) as usize)],
                        f: bidx[&(LLVMGetSuccessor(i, 1) as usize)],
                    }))
                }
            }
            3 => {
                let v = LLVMGetOperand(i, 0);
                let w = self.ty(LLVMTypeOf(v)).w();
                let n = LLVMGetNumSuccessors(i);
                let mut cases = vec![];
                for k in 1..n {
                    let cv = LLVMGetSwitchCaseValue(i, k);
                    let c = match self.constant(cv)? {
                        Val::C(x) => x as u128,
                        Val::W(x) => *x,
                        _ => return Err("case".into()),
                    };
                    cases.push((c, bidx[&(LLVMGetSuccessor(i, k) as usize)]));
                }
                Ok(Some(Inst::Switch {
                    w,
                    v: self.opd(regs, v)?,
                    cases,
                    default: bidx[&(LLVMGetSuccessor(i, 0) as usize)],
                }))
            }
            7 => Ok(Some(Inst::Unreachable)),
            8 => bin(X::Add),
            10 => bin(X::Sub),
            12 => bin(X::Mul),
            14 => bin(X::UDiv),
            15 => bin(X::SDiv),
            17 => bin(X::URem),
            18 => bin(X::SRem),
            20 => bin(X::Shl),
            21 => bin(X::LShr),
            22 => bin(X::AShr),
            23 => bin(X::And),
            24 => bin(X::Or),
            25 => bin(X::Xor),
            26 => {
                let t = LLVMGetAllocatedType(i);
                Ok(Some(Inst::Alloca { dst, size: LLVMABISizeOfType(td, t), count: o(0)? }))
            }
            27 => Ok(Some(Inst::Load { dst, ty, p: o(0)? })),
            28 => {
                let t = self.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
                Ok(Some(Inst::Store { ty: t, v: o(0)?, p: o(1)? }))
            }
            29 => {
                if ty.lanes() != 0 {
                    return Err("vector gep".into());
                }
                let base = o(0)?;
                let mut t = LLVMGetGEPSourceElementType(i);
                let n = LLVMGetNumOperands(i);
                let mut off = 0i64;
                let mut terms = vec![];
                for k in 1..n as u32 {
                    let iv = LLVMGetOperand(i, k);
                    if k > 1 && LLVMGetTypeKind(t) == 10 {
                        let idx = LLVMConstIntGetZExtValue(iv) as u32;
                        off += LLVMOffsetOfElement(td, t, idx) as i64;
                        t = LLVMStructGetTypeAtIndex(t, idx);
                        continue;
                    }
                    if k > 1 {
                        t = LLVMGetElementType(t);
                    }
                    let s = LLVMABISizeOfType(td, t) as i64;
                    let w = self.ty(LLVMTypeOf(iv)).w();
                    match self.opd(regs, iv)? {
                        Opd::K(Val::C(x)) => {
                            let x = crate::expr::sext(x as u128, w) as i64;
                            off = off.wrapping_add(x.wrapping_mul(s));
                        }
                        x => terms.push((x, w, s)),
                    }
                }
                Ok(Some(Inst::Gep { dst, base, off, terms }))
            }
            30 | 38 | 39 | 40 | 41 | 60 | 69 | 31 | 32 => {
                let from = self.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
                if matches!(from, Ty::Big(_)) || matches!(ty, Ty::Big(_)) {
                    return Err("wide int".into());
                }
                let k = match op {
                    30 => CastK::Trunc,
                    31 => CastK::ZExt,
                    32 => CastK::SExt,
                    41 => CastK::Bit,
                    39 | 40 | 69 => {
                        // ptrtoint / inttoptr / ptrtoaddr
                        if ty.w() < from.w() {
                            CastK::Trunc
                        } else {
                            CastK::ZExt
                        }
                    }
                    _ => return Err(format!("cast {op}")),
                };
                Ok(Some(Inst::Cast { k, dst, from, to: ty, a: o(0)? }))
            }
            42 => {
                let t = self.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
                let pred = (LLVMGetICmpPredicate(i) - 32) as u8;
                Ok(Some(Inst::Icmp { pred, dst, w: t.w(), lanes: t.lanes(), a: o(0)?, b: o(1)? }))
            }
            46 => {
                let ct = self.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
                let ptr = LLVMGetTypeKind(LLVMTypeOf(i)) == 12;
                Ok(Some(Inst::Select {
                    dst,
                    ty,
                    ptr,
                    c: o(0)?,
                    a: o(1)?,
                    b: o(2)?,
                    vcond: ct.lanes() != 0,
                }))
            }
            45 | 5 => {
                let callee = LLVMGetCalledValue(i);
                let n = LLVMGetNumArgOperands(i);
                let mut args = vec![];
                let mut argw = vec![];
                let nm = llvm::name(callee);
                let is_fn = !LLVMIsAFunction(callee).is_null();
                let c = if !LLVMIsAInlineAsm(callee).is_null() {
                    // optimisation barriers with no instructions
                    let s = llvm::print(callee);
                    if s.contains("asm sideeffect \"\"") || s.contains("asm \"\"") {
                        if dst != 0 || LLVMGetTypeKind(LLVMTypeOf(i)) != 0 {
                            return Err("asm with result".into());
                        }
                        return Ok(None);
                    }
                    return Err("inline asm".into());
                } else if is_fn && nm.starts_with("llvm.") {
                    let it = classify_intr(&nm);
                    if it == Intr::Nop {
                        return Ok(None);
                    }
                    if it == Intr::Unsupported {
                        return Err(format!("intrinsic {nm}"));
                    }
                    Callee::Intr(it)
                } else if let (true, Some(e)) = (is_fn, classify_ext(&nm)) {
                    Callee::Ext(e, nm.clone())
                } else if is_fn && LLVMIsDeclaration(callee) != 0 {
                    Callee::Ext(Ext::Unknown, nm.clone())
                } else if let Some(&x) = self.fidx.get(&(callee as usize)) {
                    Callee::Direct(x)
                } else {
                    Callee::Indirect(self.opd(regs, callee)?)
                };
                for k in 0..n {
                    let a = LLVMGetOperand(i, k);
                    let t = LLVMTypeOf(a);
                    if LLVMGetTypeKind(t) == 16 || LLVMGetTypeKind(t) == 14 {
                        // metadata / token
                        continue;
                    }
                    args.push(self.opd(regs, a)?);
                    argw.push(match self.ty(t) {
                        Ty::Int(w) => w,
                        t => t.w(),
                    });
                }
                let normal = if op == 5 {
                    // successor 0 of an invoke is the normal destination
                    Some(bidx[&(LLVMGetSuccessor(i, 0) as usize)])
                } else {
                    None
                };
                let has = LLVMGetTypeKind(LLVMTypeOf(i)) != 0;
                Ok(Some(Inst::Call {
                    dst: if has { Some(dst) } else { None },
                    callee: c,
                    args,
                    argw,
                    retw: match &ty {
                        Ty::Struct(f, _) => f.first().map_or(0, |x| x.1.w()),
                        t => t.w(),
                    },
                    retlanes: ty.lanes(),
                    normal,
                }))
            }
            53 => {
                let n = LLVMGetNumIndices(i);
                let p = LLVMGetIndices(i);
                let idx = std::slice::from_raw_parts(p, n as usize).to_vec();
                Ok(Some(Inst::ExtractVal { dst, a: o(0)?, idx }))
            }
            54 => {
                let n = LLVMGetNumIndices(i);
                let p = LLVMGetIndices(i);
                let idx = std::slice::from_raw_parts(p, n as usize).to_vec();
                Ok(Some(Inst::InsertVal { dst, a: o(0)?, v: o(1)?, idx }))
            }
            50 => Ok(Some(Inst::ExtractElem { dst, a: o(0)?, i: o(1)? })),
            51 => Ok(Some(Inst::InsertElem { dst, a: o(0)?, v: o(1)?, i: o(2)? })),
            52 => {
                let na = self.ty(LLVMTypeOf(LLVMGetOperand(i, 0))).lanes();
                let n = LLVMGetNumMaskElements(i);
                let mask = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                Ok(Some(Inst::Shuffle { dst, a: o(0)?, b: o(1)?, na, mask }))
            }
            55 => Ok(None), // fence
            56 => Ok(Some(Inst::CmpXchg {
                dst,
                w: self.ty(LLVMTypeOf(LLVMGetOperand(i, 1))).w(),
                p: o(0)?,
                e: o(1)?,
                n: o(2)?,
            })),
            57 => Ok(Some(Inst::Rmw {
                dst,
                op: LLVMGetAtomicRMWBinOp(i),
                w: ty.w(),
                p: o(0)?,
                v: o(1)?,
            })),
            68 => Ok(Some(Inst::Copy { dst, a: o(0)? })),
            _ => Err(format!("opcode {op}")),
        }
    }
}
