//! Random differential test of the expression simplifier and of the Z3 translation.
use crate::expr::*;
use crate::solver::*;

struct Rng(u64);
impl Rng {
    fn n(&mut self, k: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % k
    }
    fn val(&mut self, w: u8) -> u128 {
        let v = match self.n(6) {
            0 => 0,
            1 => !0,
            2 => 1,
            3 => 1u128 << self.n(w as u64),
            4 => self.n(256) as u128,
            _ => (self.0 as u128) << 64 | (self.0.rotate_left(17) as u128),
        };
        v & mask(w)
    }
}

/// Builds a random expression together with its value under `model`.
fn gen(a: &mut Arena, r: &mut Rng, w: u8, d: u32, model: &[u64]) -> (E, u128) {
    if d == 0 || r.n(8) == 0 {
        if w == 8 && r.n(2) == 0 {
            let i = r.n(4) as usize;
            return (a.var(i, 8), model[i] as u128);
        }
        if r.n(2) == 0 && w >= 8 {
            let i = r.n(4) as usize;
            let v = a.var(i, 8);
            return (a.zext(v, w), model[i] as u128);
        }
        let v = r.val(w);
        return (a.konst(w, v), v);
    }
    let ws = [1u8, 8, 16, 32, 64, 24, 7, 128];
    match r.n(12) {
        0..=4 => {
            let ops = [
                Op::And, Op::Or, Op::Xor, Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem,
                Op::SRem, Op::Shl, Op::LShr, Op::AShr,
            ];
            let op = ops[r.n(13) as usize];
            let (x, xv) = gen(a, r, w, d - 1, model);
            let (y, yv) = gen(a, r, w, d - 1, model);
            (a.bin(op, x, y), fold2(op, w, xv, yv))
        }
        5 => {
            let (x, xv) = gen(a, r, w, d - 1, model);
            (a.not(x), !xv & mask(w))
        }
        6 => {
            let (c, cv) = gen(a, r, 1, d - 1, model);
            let (x, xv) = gen(a, r, w, d - 1, model);
            let (y, yv) = gen(a, r, w, d - 1, model);
            (a.ite(c, x, y), if cv == 1 { xv } else { yv })
        }
        7 if w > 1 => {
            let k = 1 + r.n(w as u64 - 1) as u8;
            let (x, xv) = gen(a, r, w - k, d - 1, model);
            let (y, yv) = gen(a, r, k, d - 1, model);
            (a.concat(x, y), xv << k | yv)
        }
        8 if w < 120 => {
            let k = 1 + r.n(8) as u8;
            let lo = r.n(k as u64 + 1) as u8;
            let (x, xv) = gen(a, r, w + k, d - 1, model);
            (a.extract(x, lo + w - 1, lo), (xv >> lo) & mask(w))
        }
        9 if w > 1 => {
            let k = 1 + r.n(w as u64 - 1) as u8;
            let (x, xv) = gen(a, r, k, d - 1, model);
            if r.n(2) == 0 {
                (a.zext(x, w), xv)
            } else {
                (a.sext(x, w), sext(xv, k) as u128 & mask(w))
            }
        }
        _ if w == 1 => {
            let ops = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
            let op = ops[r.n(5) as usize];
            let ww = ws[r.n(8) as usize];
            let (x, xv) = gen(a, r, ww, d - 1, model);
            let (y, yv) = gen(a, r, ww, d - 1, model);
            (a.bin(op, x, y), fold2(op, ww, xv, yv))
        }
        _ => {
            // structured: mask / shift by constants, common in compiled code
            let ops = [Op::And, Op::Or, Op::Xor, Op::Add, Op::Sub, Op::Shl, Op::LShr, Op::AShr, Op::Mul];
            let op = ops[r.n(9) as usize];
            let (x, xv) = gen(a, r, w, d - 1, model);
            let yv = if r.n(2) == 0 { r.n(w as u64 + 1) as u128 & mask(w) } else { r.val(w) };
            let y = a.konst(w, yv);
            (a.bin(op, x, y), fold2(op, w, xv, yv))
        }
    }
}

pub fn run(n: u64) {
    let mut r = Rng(0x1234_5678_9abc_def1);
    let mut a = Arena::new();
    let mut s = Solver::new(20_000);
    let cache = Cache::new();
    let mut sat = 0;
    for k in 0..n {
        if k % 5000 == 4999 {
            a = Arena::new();
            s.dispose();
            s = Solver::new(20_000);
        }
        let model: Vec<u64> = (0..4).map(|_| if r.n(3) == 0 { r.n(4) } else { r.n(256) }).collect();
        let ws = [1u8, 8, 16, 32, 64, 24, 7, 128];
        let w = ws[r.n(8) as usize];
        let (e, v) = gen(&mut a, &mut r, w, 4, &model);
        a.new_epoch();
        let got = a.eval(e, &model);
        if got != v {
            eprintln!("SIMPLIFIER BUG: {} = {got}, expected {v} under {model:?}", a.show(e));
            std::process::exit(5);
        }
        // translation: e == v must be satisfiable under the model's bindings, e != v must not be
        if k % 20 == 0 && a.cv(e).is_none() {
            let kk = a.konst(w, v);
            let eq = a.bin(Op::Eq, e, kk);
            let ne = a.not(eq);
            let mut cs = vec![ne];
            for i in 0..4 {
                let x = a.var(i, 8);
                let kk = a.konst(8, model[i] as u128);
                cs.push(a.bin(Op::Eq, x, kk));
            }
            if a.cv(ne) != Some(0) {
                match s.check(&a, &cs, &cache) {
                    Ans::Unsat => {}
                    Ans::Sat(_) => {
                        eprintln!("TRANSLATION BUG: {}", a.show(e));
                        std::process::exit(5);
                    }
                    Ans::Unknown => {}
                }
                cs[0] = eq;
                if a.cv(eq).is_none() {
                    match s.check(&a, &cs, &cache) {
                        Ans::Sat(_) => sat += 1,
                        Ans::Unsat => {
                            eprintln!("TRANSLATION BUG (unsat): {}", a.show(e));
                            std::process::exit(5);
                        }
                        Ans::Unknown => {}
                    }
                }
            }
        }
    }
    println!("selftest ok: {n} expressions, {sat} solver round trips");
}
