//! Z3 back end (C API) plus a query cache shared by all workers.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::Mutex;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, o: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}
pub fn z3_global_init() {
    let _ = Z3_global_param_set as usize;
}

#[derive(Clone)]
pub enum Ans {
    Sat(Vec<(u16, u64)>),
    Unsat,
    Unknown,
}

const SHARDS: usize = 64;
pub struct Cache {
    shards: Vec<Mutex<HashMap<u128, Ans>>>,
}
impl Cache {
    pub fn new() -> Self {
        Cache { shards: (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect() }
    }
    fn get(&self, k: u128) -> Option<Ans> {
        self.shards[(k as usize) % SHARDS].lock().unwrap().get(&k).cloned()
    }
    fn put(&self, k: u128, a: Ans) {
        self.shards[(k as usize) % SHARDS].lock().unwrap().insert(k, a);
    }
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    ctx: P,
    s: P,
    memo_b: FxMap<E, P>,
    memo_v: FxMap<E, P>,
    sorts: Vec<P>,
    pub stats: SolverStats,
    dump: Option<String>,
    dumped: usize,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            let s = if std::env::var("SX_Z3_SIMPLE").is_ok() {
                Z3_mk_simple_solver(ctx)
            } else {
                let l = CString::new("QF_BV").unwrap();
                let sym = Z3_mk_string_symbol(ctx, l.as_ptr());
                Z3_mk_solver_for_logic(ctx, sym)
            };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            let ks = Z3_mk_string_symbol(ctx, k.as_ptr());
            Z3_params_set_uint(ctx, p, ks, timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            let sorts = (0..=128)
                .map(|w| if w == 0 { std::ptr::null_mut() } else { Z3_mk_bv_sort(ctx, w) })
                .collect();
            Solver {
                ctx,
                s,
                memo_b: Default::default(),
                memo_v: Default::default(),
                sorts,
                stats: Default::default(),
                dump: std::env::var("SX_DUMP").ok(),
                dumped: 0,
            }
        }
    }

    fn num(&self, w: u8, v: u128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), self.sorts[w as usize]) }
    }

    fn var(&self, i: u32, w: u8) -> P {
        let s = CString::new(format!("v{i}_{w}")).unwrap();
        unsafe {
            let sym = Z3_mk_string_symbol(self.ctx, s.as_ptr());
            Z3_mk_const(self.ctx, sym, self.sorts[w as usize])
        }
    }

    /// Translation of a width-1 expression to a Boolean.
    fn tb(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.memo_b.get(&e) {
            return p;
        }
        let n = a.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if a.cv(e) == Some(1) {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let x = self.tb(a, n.a);
                    Z3_mk_not(c, x)
                }
                Op::And | Op::Mul => {
                    let v = [self.tb(a, n.a), self.tb(a, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.tb(a, n.a), self.tb(a, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor | Op::Add | Op::Sub => {
                    let (x, y) = (self.tb(a, n.a), self.tb(a, n.b));
                    Z3_mk_xor(c, x, y)
                }
                Op::Ite => {
                    let (x, y, z) = (self.tb(a, n.a), self.tb(a, n.b), self.tb(a, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq => {
                    if a.w(n.a) == 1 {
                        let (x, y) = (self.tb(a, n.a), self.tb(a, n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.tv(a, n.a), self.tv(a, n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.tv(a, n.a), self.tv(a, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::Extract => {
                    let x = self.tv(a, n.a);
                    let b = Z3_mk_extract(c, n.b, n.b, x);
                    Z3_mk_eq(c, b, self.num(1, 1))
                }
                _ => {
                    let x = self.tv_raw(a, e);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        self.memo_b.insert(e, r);
        r
    }

    fn tv(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.memo_v.get(&e) {
            return p;
        }
        let r = if a.w(e) == 1 && a.n(e).op != Op::Var {
            let b = self.tb(a, e);
            unsafe { Z3_mk_ite(self.ctx, b, self.num(1, 1), self.num(1, 0)) }
        } else {
            self.tv_raw(a, e)
        };
        self.memo_v.insert(e, r);
        r
    }

    fn tv_raw(&mut self, a: &Arena, e: E) -> P {
        let n = a.n(e);
        let c = self.ctx;
        unsafe {
            match n.op {
                Op::Const => self.num(n.w, a.cv(e).unwrap()),
                Op::Var => self.var(n.a, n.w),
                Op::Not => {
                    let x = self.tv(a, n.a);
                    Z3_mk_bvnot(c, x)
                }
                Op::Ite => {
                    let b = self.tb(a, n.a);
                    let (x, y) = (self.tv(a, n.b), self.tv(a, n.c));
                    Z3_mk_ite(c, b, x, y)
                }
                Op::Concat => {
                    let (x, y) = (self.tv(a, n.a), self.tv(a, n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Extract => {
                    let x = self.tv(a, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, x)
                }
                Op::ZExt => {
                    let x = self.tv(a, n.a);
                    Z3_mk_zero_ext(c, (n.w - a.w(n.a)) as u32, x)
                }
                Op::SExt => {
                    let x = self.tv(a, n.a);
                    Z3_mk_sign_ext(c, (n.w - a.w(n.a)) as u32, x)
                }
                op => {
                    let (x, y) = (self.tv(a, n.a), self.tv(a, n.b));
                    match op {
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!("{op:?}"),
                    }
                }
            }
        }
    }

    /// Decides the conjunction of `cs` (already sliced to be connected or small).
    pub fn check(&mut self, a: &Arena, cs: &[E], cache: &Cache) -> Ans {
        // key
        let mut supp: Supp = [0; NW];
        for &c in cs {
            let s = a.support(c);
            for i in 0..NW {
                supp[i] |= s[i];
            }
        }
        let nvars: u32 = supp.iter().map(|x| x.count_ones()).sum();
        let vars: Vec<u16> = (0..NW * 64)
            .filter(|i| supp[i / 64] >> (i % 64) & 1 == 1)
            .map(|i| i as u16)
            .collect();
        let mut hs: Vec<u128> = cs
            .iter()
            .map(|&c| if nvars == 1 { a.h0[c as usize] } else { a.h[c as usize] })
            .collect();
        hs.sort_unstable();
        hs.dedup();
        let mut key = mix(nvars.min(2) as u128);
        for h in hs {
            key = mix2(key, h);
        }
        if let Some(ans) = cache.get(key) {
            self.stats.cache_hits += 1;
            if nvars == 1 {
                if let Ans::Sat(m) = ans {
                    return Ans::Sat(m.iter().map(|&(_, v)| (vars[0], v)).collect());
                }
            }
            return ans;
        }
        let ans = self.solve(a, cs, &vars);
        cache.put(key, ans.clone());
        ans
    }

    /// Decides without consulting the cache.
    pub fn solve(&mut self, a: &Arena, cs: &[E], vars: &[u16]) -> Ans {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let ans = unsafe {
            let asts: Vec<P> = cs.iter().map(|&c| self.tb(a, c)).collect();
            Z3_solver_reset(self.ctx, self.s);
            for x in asts {
                Z3_solver_assert(self.ctx, self.s, x);
            }
            let err = Z3_get_error_code(self.ctx);
            assert!(err == 0, "z3 error {err}");
            let r = Z3_solver_check(self.ctx, self.s);
            match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for &v in vars {
                        let ast = self.var(v as u32, a.var_w[v as usize]);
                        let mut r: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.ctx, m, ast, true, &mut r);
                        let mut x = 0u64;
                        let ok2 = ok && Z3_get_numeral_uint64(self.ctx, r, &mut x);
                        assert!(ok2, "model eval");
                        out.push((v, x));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.stats.sat += 1;
                    Ans::Sat(out)
                }
                -1 => {
                    self.stats.unsat += 1;
                    Ans::Unsat
                }
                _ => {
                    self.stats.unknown += 1;
                    Ans::Unknown
                }
            }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        if let Some(d) = &self.dump {
            if self.dumped < 200 || us > 300_000 {
                self.dumped += 1;
                let txt = unsafe { CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)) };
                let st = match ans {
                    Ans::Sat(_) => "sat",
                    Ans::Unsat => "unsat",
                    Ans::Unknown => "unknown",
                };
                let _ = std::fs::write(
                    format!("{d}/q{:?}_{}_{st}.smt2", std::thread::current().id(), self.stats.queries),
                    format!("(set-logic QF_BV)\n{}\n(check-sat)\n", txt.to_string_lossy()),
                );
            }
        }
        ans
    }
    #[allow(dead_code)]
    fn unused(&self) {
        let _ = (Z3_solver_push as usize, Z3_solver_pop as usize);
    }
}

extern "C" {
    fn Z3_del_context(c: P);
    fn Z3_solver_dec_ref(c: P, s: P);
}
impl Solver {
    pub fn dispose(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.s);
            Z3_del_context(self.ctx);
        }
    }
}
