//! Minimal LLVM-C bindings (rustc's own libLLVM).
#![allow(non_snake_case)]
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

pub type P = *mut c_void;

extern "C" {
    pub fn LLVMContextCreate() -> P;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: P, buf: P, out: *mut P) -> c_int;
    pub fn LLVMWriteBitcodeToFile(m: P, p: *const c_char) -> c_int;
    pub fn LLVMStripModuleDebugInfo(m: P) -> c_int;
    pub fn LLVMGetFirstFunction(m: P) -> P;
    pub fn LLVMGetNextFunction(f: P) -> P;
    pub fn LLVMGetFirstGlobal(m: P) -> P;
    pub fn LLVMGetNextGlobal(g: P) -> P;
    pub fn LLVMGetFirstGlobalAlias(m: P) -> P;
    pub fn LLVMGetNextGlobalAlias(g: P) -> P;
    pub fn LLVMAliasGetAliasee(g: P) -> P;
    pub fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: P) -> c_int;
    pub fn LLVMSetLinkage(v: P, l: c_int);
    pub fn LLVMGetLinkage(v: P) -> c_int;
    pub fn LLVMSetVisibility(v: P, l: c_int);
    pub fn LLVMGetInitializer(v: P) -> P;
    pub fn LLVMGlobalGetValueType(v: P) -> P;
    pub fn LLVMGetAlignment(v: P) -> c_uint;
    pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    pub fn LLVMCreateEnumAttribute(c: P, k: c_uint, v: u64) -> P;
    pub fn LLVMAddAttributeAtIndex(f: P, idx: c_uint, a: P);
    pub fn LLVMRemoveEnumAttributeAtIndex(f: P, idx: c_uint, k: c_uint);
    pub fn LLVMCreatePassBuilderOptions() -> P;
    pub fn LLVMRunPasses(m: P, passes: *const c_char, tm: P, opts: P) -> P;
    pub fn LLVMGetErrorMessage(e: P) -> *mut c_char;

    pub fn LLVMGetFirstBasicBlock(f: P) -> P;
    pub fn LLVMGetNextBasicBlock(b: P) -> P;
    pub fn LLVMGetFirstInstruction(b: P) -> P;
    pub fn LLVMGetNextInstruction(b: P) -> P;
    pub fn LLVMGetInstructionOpcode(i: P) -> c_int;
    pub fn LLVMGetNumOperands(i: P) -> c_int;
    pub fn LLVMGetOperand(i: P, n: c_uint) -> P;
    pub fn LLVMTypeOf(v: P) -> P;
    pub fn LLVMGetTypeKind(t: P) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: P) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    pub fn LLVMGetElementType(t: P) -> P;
    pub fn LLVMGetArrayLength2(t: P) -> u64;
    pub fn LLVMGetVectorSize(t: P) -> c_uint;
    pub fn LLVMGetModuleDataLayout(m: P) -> P;
    pub fn LLVMABISizeOfType(td: P, t: P) -> u64;
    pub fn LLVMStoreSizeOfType(td: P, t: P) -> u64;
    pub fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    pub fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> u64;
    pub fn LLVMGetICmpPredicate(i: P) -> c_int;
    pub fn LLVMCountIncoming(i: P) -> c_uint;
    pub fn LLVMGetIncomingValue(i: P, n: c_uint) -> P;
    pub fn LLVMGetIncomingBlock(i: P, n: c_uint) -> P;
    pub fn LLVMGetNumSuccessors(i: P) -> c_uint;
    pub fn LLVMGetSuccessor(i: P, n: c_uint) -> P;
    pub fn LLVMGetCondition(i: P) -> P;
    pub fn LLVMIsConditional(i: P) -> c_int;
    pub fn LLVMGetSwitchCaseValue(i: P, n: c_uint) -> P;
    pub fn LLVMGetGEPSourceElementType(i: P) -> P;
    pub fn LLVMGetNumIndices(i: P) -> c_uint;
    pub fn LLVMGetIndices(i: P) -> *const c_uint;
    pub fn LLVMGetAllocatedType(i: P) -> P;
    pub fn LLVMGetCalledValue(i: P) -> P;
    pub fn LLVMGetNumArgOperands(i: P) -> c_uint;
    pub fn LLVMConstIntGetZExtValue(v: P) -> u64;
    pub fn LLVMIsAConstantInt(v: P) -> P;
    pub fn LLVMIsAUndefValue(v: P) -> P;
    pub fn LLVMIsAConstantFP(v: P) -> P;
    pub fn LLVMIsAConstantExpr(v: P) -> P;
    pub fn LLVMIsAConstantPointerNull(v: P) -> P;
    pub fn LLVMIsAConstantAggregateZero(v: P) -> P;
    pub fn LLVMIsAConstantDataSequential(v: P) -> P;
    pub fn LLVMIsAConstant(v: P) -> P;
    pub fn LLVMIsAFunction(v: P) -> P;
    pub fn LLVMIsAGlobalVariable(v: P) -> P;
    pub fn LLVMIsAGlobalAlias(v: P) -> P;
    pub fn LLVMIsAInlineAsm(v: P) -> P;
    pub fn LLVMGetRawDataValues(v: P, size: *mut usize) -> *const c_char;
    pub fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    pub fn LLVMGetConstOpcode(v: P) -> c_int;
    pub fn LLVMConstRealGetDouble(v: P, lossy: *mut c_int) -> f64;
    pub fn LLVMPrintValueToString(v: P) -> *mut c_char;
    pub fn LLVMDisposeMessage(v: *mut c_char);
    pub fn LLVMGetNumMaskElements(v: P) -> c_uint;
    pub fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(v: P) -> c_int;
    pub fn LLVMCountParams(f: P) -> c_uint;
    pub fn LLVMGetParam(f: P, i: c_uint) -> P;
    pub fn LLVMGetTailCallKind(i: P) -> c_int;
}

pub fn name(v: P) -> String {
    unsafe {
        let mut l = 0usize;
        let p = LLVMGetValueName2(v, &mut l);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned()
    }
}
pub fn print(v: P) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

pub fn load(path: &str) -> P {
    unsafe {
        let ctx = LLVMContextCreate();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        let p = cs(path);
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 {
            panic!("cannot read {path}");
        }
        let mut m: P = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
            panic!("cannot parse bitcode {path}");
        }
        m
    }
}

pub fn functions(m: P) -> Vec<P> {
    let mut v = vec![];
    unsafe {
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            v.push(f);
            f = LLVMGetNextFunction(f);
        }
    }
    v
}
pub fn globals(m: P) -> Vec<P> {
    let mut v = vec![];
    unsafe {
        let mut f = LLVMGetFirstGlobal(m);
        while !f.is_null() {
            v.push(f);
            f = LLVMGetNextGlobal(f);
        }
    }
    v
}
pub fn aliases(m: P) -> Vec<P> {
    let mut v = vec![];
    unsafe {
        let mut f = LLVMGetFirstGlobalAlias(m);
        while !f.is_null() {
            v.push(f);
            f = LLVMGetNextGlobalAlias(f);
        }
    }
    v
}

/// Names whose bodies the engine replaces; they must survive as calls.
pub fn is_intercepted(n: &str) -> bool {
    n.starts_with("__sym_")
        || n.contains("8hash_one")
        || n.contains("20hashmap_random_keys")
        || n.ends_with("9panicking9panic_fmt")
        || n.contains("9panicking19panic_cannot_unwind")
        || n.contains("9panicking18panic_nounwind_fmt")
        || n.contains("18handle_alloc_error")
}

pub fn optimise(m: P, entries: &[String]) -> Result<(), String> {
    unsafe {
        LLVMStripModuleDebugInfo(m);
        let ni = "noinline";
        let k_noinline = LLVMGetEnumAttributeKindForName(ni.as_ptr() as *const c_char, ni.len());
        let ai = "alwaysinline";
        let k_always = LLVMGetEnumAttributeKindForName(ai.as_ptr() as *const c_char, ai.len());
        let mut found = 0;
        // A context for attributes: obtain through module's own types.
        extern "C" {
            fn LLVMGetModuleContext(m: P) -> P;
        }
        let ctx = LLVMGetModuleContext(m);
        for f in functions(m) {
            if LLVMIsDeclaration(f) != 0 {
                continue;
            }
            let n = name(f);
            let entry = entries.iter().any(|e| *e == n);
            if entry {
                found += 1;
                LLVMSetLinkage(f, 0);
            } else {
                LLVMSetLinkage(f, 8); // internal
            }
            LLVMSetVisibility(f, 0);
            if is_intercepted(&n) || entry {
                LLVMRemoveEnumAttributeAtIndex(f, !0, k_always);
                let a = LLVMCreateEnumAttribute(ctx, k_noinline, 0);
                LLVMAddAttributeAtIndex(f, !0, a);
            }
        }
        for g in globals(m) {
            if LLVMIsDeclaration(g) == 0 {
                let n = name(g);
                if !n.starts_with("llvm.") {
                    LLVMSetLinkage(g, 8);
                    LLVMSetVisibility(g, 0);
                } else if n == "llvm.used" || n == "llvm.compiler.used" {
                    // drop so that globaldce can work
                    extern "C" {
                        fn LLVMDeleteGlobal(g: P);
                    }
                    LLVMDeleteGlobal(g);
                }
            }
        }
        for g in aliases(m) {
            LLVMSetLinkage(g, 8);
            LLVMSetVisibility(g, 0);
        }
        if found != entries.len() {
            return Err(format!("only {found} of entries {entries:?} found"));
        }
        let simp = "sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg<bonus-inst-threshold=12;switch-range-to-icmp;switch-to-lookup>,dce";
        let passes = std::env::var("SX_PASSES").unwrap_or_else(|_| {
            format!(
                "globaldce,always-inline,globaldce,function({simp}),cgscc(inline),globaldce,function({simp}),cgscc(inline),function({simp},adce),globaldce"
            )
        });
        let o = LLVMCreatePassBuilderOptions();
        let p = cs(&passes);
        let e = LLVMRunPasses(m, p.as_ptr(), std::ptr::null_mut(), o);
        if !e.is_null() {
            let s = CStr::from_ptr(LLVMGetErrorMessage(e)).to_string_lossy().into_owned();
            return Err(s);
        }
    }
    Ok(())
}
