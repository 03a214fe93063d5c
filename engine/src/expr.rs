//! Hash-consed bit-vector expressions (widths 1..=128) with local simplification.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}

/// Fast non-cryptographic hasher.
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub const NW: usize = 8; // support bitset words: up to 512 symbolic variables
pub type Supp = [u64; NW];

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    supp: Vec<u32>,
    supps: Vec<Supp>,
    suppmap: FxMap<Supp, u32>,
    suppun: FxMap<(u32, u32), u32>,
    extmemo: FxMap<(E, u8, u8), E>,
    // evaluation memo
    eval_epoch: u32,
    eval_memo: Vec<(u32, u128)>,
    pub var_w: Vec<u8>,
    /// structural hash with variable indexes / with variables anonymised
    pub h: Vec<u128>,
    pub h0: Vec<u128>,
}

pub fn mix(mut x: u128) -> u128 {
    let mut a = x as u64;
    let mut b = (x >> 64) as u64;
    a ^= a >> 33;
    a = a.wrapping_mul(0xff51afd7ed558ccd) ^ b.rotate_left(31);
    a ^= a >> 33;
    b ^= b >> 29;
    b = b.wrapping_mul(0xc4ceb9fe1a85ec53) ^ a.rotate_left(17);
    b ^= b >> 32;
    a = a.wrapping_add(b.wrapping_mul(0x9e3779b97f4a7c15));
    a ^= a >> 29;
    x = (b as u128) << 64 | a as u128;
    x
}
pub fn mix2(x: u128, y: u128) -> u128 {
    mix(x.rotate_left(47) ^ mix(y ^ 0x9e3779b97f4a7c15f39cc0605cedc835))
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold2(op: Op, w: u8, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u128 - 1 } else { y };
            ((sext(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![],
            map: Default::default(),
            supp: vec![],
            supps: vec![[0; NW]],
            suppmap: {
                let mut m: FxMap<Supp, u32> = Default::default();
                m.insert([0; NW], 0);
                m
            },
            suppun: Default::default(),
            extmemo: Default::default(),
            eval_epoch: 0,
            eval_memo: vec![],
            var_w: vec![],
            h: vec![],
            h0: vec![],
        }
    }

    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn support(&self, e: E) -> &Supp {
        &self.supps[self.supp[e as usize] as usize]
    }

    fn supp_union(&mut self, x: u32, y: u32) -> u32 {
        if x == y || y == 0 {
            return x;
        }
        if x == 0 {
            return y;
        }
        let k = (x.min(y), x.max(y));
        if let Some(&r) = self.suppun.get(&k) {
            return r;
        }
        let mut s = self.supps[x as usize];
        for i in 0..NW {
            s[i] |= self.supps[y as usize][i];
        }
        let r = self.supp_id(s);
        self.suppun.insert(k, r);
        r
    }
    fn supp_id(&mut self, s: Supp) -> u32 {
        if let Some(&r) = self.suppmap.get(&s) {
            return r;
        }
        let r = self.supps.len() as u32;
        self.supps.push(s);
        self.suppmap.insert(s, r);
        r
    }

    fn mk(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let e = self.nodes.len() as E;
        let s = match nd.op {
            Op::Const => 0,
            Op::Var => {
                let mut s = [0; NW];
                let v = nd.a as usize;
                assert!(v < NW * 64, "too many symbolic variables");
                s[v / 64] |= 1 << (v % 64);
                self.supp_id(s)
            }
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.supp[nd.a as usize],
            Op::Ite => {
                let s1 = self.supp_union(self.supp[nd.a as usize], self.supp[nd.b as usize]);
                self.supp_union(s1, self.supp[nd.c as usize])
            }
            _ => self.supp_union(self.supp[nd.a as usize], self.supp[nd.b as usize]),
        };
        let tag = (nd.op as u128) | (nd.w as u128) << 8;
        let (h, h0) = match nd.op {
            Op::Const => {
                let v = nd.a as u128
                    | (nd.b as u128) << 32
                    | (nd.c as u128) << 64
                    | (nd.d as u128) << 96;
                let h = mix2(mix(tag), v);
                (h, h)
            }
            Op::Var => (mix2(mix(tag), nd.a as u128 + 1), mix2(mix(tag), 0)),
            _ => {
                let f = |hs: &Vec<u128>| {
                    let x = mix2(mix(tag), hs[nd.a as usize]);
                    match nd.op {
                        Op::Extract => mix2(x, nd.b as u128),
                        Op::Not | Op::ZExt | Op::SExt => x,
                        Op::Ite => mix2(mix2(x, hs[nd.b as usize]), hs[nd.c as usize]),
                        _ => mix2(x, hs[nd.b as usize]),
                    }
                };
                (f(&self.h), f(&self.h0))
            }
        };
        self.h.push(h);
        self.h0.push(h0);
        self.nodes.push(nd);
        self.supp.push(s);
        self.map.insert(nd, e);
        e
    }
    fn mk1(&mut self, op: Op, w: u8, a: E) -> E {
        self.mk(Node { op, w, a, b: 0, c: 0, d: 0 })
    }
    fn mk2(&mut self, op: Op, w: u8, a: E, b: E) -> E {
        self.mk(Node { op, w, a, b, c: 0, d: 0 })
    }

    pub fn konst(&mut self, w: u8, v: u128) -> E {
        let v = v & mask(w);
        self.mk(Node {
            op: Op::Const,
            w,
            a: v as u32,
            b: (v >> 32) as u32,
            c: (v >> 64) as u32,
            d: (v >> 96) as u32,
        })
    }
    pub fn var(&mut self, idx: usize, w: u8) -> E {
        while self.var_w.len() <= idx {
            self.var_w.push(0);
        }
        self.var_w[idx] = w;
        self.mk(Node { op: Op::Var, w, a: idx as u32, b: 0, c: 0, d: 0 })
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96)
        } else {
            None
        }
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        if let Some(v) = self.cv(a) {
            return self.konst(n.w, !v);
        }
        match n.op {
            Op::Not => return n.a,
            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
            Op::Ite => {
                if self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let (x, y) = (self.not(n.b), self.not(n.c));
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk1(Op::Not, n.w, a)
    }

    /// Returns the smallest k such that the top bits above k are known zero.
    pub fn active_bits(&self, e: E) -> u8 {
        self.active_bits_d(e, 6)
    }
    fn active_bits_d(&self, e: E, depth: u32) -> u8 {
        let n = self.n(e);
        if depth == 0 {
            return n.w;
        }
        let d = depth - 1;
        match n.op {
            Op::Const => (128 - self.cv(e).unwrap().leading_zeros()) as u8,
            Op::ZExt => self.active_bits_d(n.a, d),
            Op::And => self.active_bits_d(n.a, d).min(self.active_bits_d(n.b, d)),
            Op::Or | Op::Xor => self.active_bits_d(n.a, d).max(self.active_bits_d(n.b, d)),
            Op::Ite => self.active_bits_d(n.b, d).max(self.active_bits_d(n.c, d)),
            Op::Add => (self.active_bits_d(n.a, d).max(self.active_bits_d(n.b, d)) + 1).min(n.w),
            Op::Mul => (self.active_bits_d(n.a, d) as u16 + self.active_bits_d(n.b, d) as u16)
                .min(n.w as u16) as u8,
            Op::LShr => {
                let ab = self.active_bits_d(n.a, d);
                match self.cv(n.b) {
                    Some(k) if k < 128 => ab.saturating_sub(k as u8),
                    Some(_) => 0,
                    None => ab,
                }
            }
            Op::Shl => match self.cv(n.b) {
                Some(k) if k < 128 => (self.active_bits_d(n.a, d) as u128 + k).min(n.w as u128) as u8,
                _ => n.w,
            },
            Op::UDiv | Op::URem if self.cv(n.b).map_or(false, |k| k != 0) => {
                self.active_bits_d(n.a, d)
            }
            Op::Concat => {
                let hi = self.active_bits_d(n.a, d);
                if hi > 0 {
                    hi + self.w(n.b)
                } else {
                    self.active_bits_d(n.b, d)
                }
            }
            _ => n.w,
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let (ca, cb) = (self.cv(a), self.cv(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold2(op, w, x, y);
            return self.konst(rw, r);
        }
        let m = mask(w);
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin_noncomm(op, b, a);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    let na = self.n(a);
                    if na.op == Op::And {
                        if let Some(z) = self.cv(na.b) {
                            let k = self.konst(w, y & z);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    // low mask over zext/concat
                    if y.count_ones() == 128 - y.leading_zeros() {
                        let k = y.count_ones() as u8;
                        if self.active_bits(a) <= k {
                            return a;
                        }
                        let x = self.extract(a, k - 1, 0);
                        return self.zext(x, w);
                    }
                    // a single contiguous high part cleared
                    let ab = self.active_bits(a);
                    if ab < w && y > mask(ab) {
                        let k = self.konst(w, y & mask(ab));
                        return self.bin(Op::And, a, k);
                    }
                }
                if w == 1 {
                    // a & !a
                    let (na, nb) = (self.n(a), self.n(b));
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.konst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin_noncomm(op, b, a);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                if w == 1 {
                    let (na, nb) = (self.n(a), self.n(b));
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.konst(1, 1);
                    }
                } else if w <= 128 {
                    // disjoint or -> concat:  zext(x) | (y << k)
                    if let Some(r) = self.or_concat(a, b) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin_noncomm(op, b, a);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return self.not(a);
                    }
                    let na = self.n(a);
                    if na.op == Op::Xor {
                        if let Some(z) = self.cv(na.b) {
                            let k = self.konst(w, y ^ z);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                }
            }
            Op::Add => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin_noncomm(op, b, a);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let na = self.n(a);
                    if na.op == Op::Add {
                        if let Some(z) = self.cv(na.b) {
                            let k = self.konst(w, y.wrapping_add(z));
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let (p, q) = (self.bin(Op::Add, na.b, b), self.bin(Op::Add, na.c, b));
                        return self.ite(na.a, p, q);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(y) = cb {
                    let k = self.konst(w, y.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                // (x + k) - x
                let na = self.n(a);
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
            }
            Op::Mul => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin_noncomm(op, b, a);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                if self.active_bits(a) < w && self.active_bits(b) < w {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let y = y as u8;
                    let lo = self.extract(a, w - y - 1, 0);
                    let z = self.konst(y, 0);
                    return self.concat(lo, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let hi = self.extract(a, w - 1, y as u8);
                    return self.zext(hi, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = (y.min(w as u128 - 1)) as u8;
                    let hi = self.extract(a, w - 1, y);
                    return self.sext(hi, w);
                }
                if self.active_bits(a) < w {
                    return self.bin(Op::LShr, a, b);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin_noncomm(op, b, a);
                }
                if w == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                let na = self.n(a);
                if let Some(y) = cb {
                    match na.op {
                        Op::ZExt => {
                            let wi = self.w(na.a);
                            if y > mask(wi) {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(wi, y);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let wi = self.w(na.a);
                            let t = y & mask(wi);
                            if (sext(t, wi) as u128) & m != y {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(wi, t);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let wh = self.w(na.a);
                            let kh = self.konst(wh, y >> wl);
                            let kl = self.konst(wl, y);
                            let eh = self.bin(Op::Eq, na.a, kh);
                            if self.cv(eh) == Some(0) {
                                return eh;
                            }
                            let el = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, eh, el);
                        }
                        Op::Ite => {
                            let (p, q) = (self.cv(na.b), self.cv(na.c));
                            if p.is_some() || q.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let z = self.bin(Op::Eq, na.c, b);
                                if self.cv(x).is_some() || self.cv(z).is_some() {
                                    return self.ite(na.a, x, z);
                                }
                            }
                        }
                        Op::Add => {
                            if let Some(z) = self.cv(na.b) {
                                let k = self.konst(w, y.wrapping_sub(z));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(z) = self.cv(na.b) {
                                let k = self.konst(w, y ^ z);
                                return self.bin(Op::Eq, na.a, k);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Sub => {
                            if y == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Not => {
                            let k = self.konst(w, !y);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Or => {
                            if y == 0 {
                                let z = self.konst(w, 0);
                                let x = self.bin(Op::Eq, na.a, z);
                                let y = self.bin(Op::Eq, na.b, z);
                                return self.bin(Op::And, x, y);
                            }
                        }
                        _ => {}
                    }
                    if y > mask(self.active_bits(a)) {
                        return self.konst(1, 0);
                    }
                } else {
                    let nb = self.n(b);
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let wm = wa.max(wb);
                        let x = self.zext(na.a, wm);
                        let y = self.zext(nb.a, wm);
                        return self.bin(Op::Eq, x, y);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        if self.cv(x) == Some(0) {
                            return x;
                        }
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.konst(1, 0);
                }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(Op::And, x, b);
                }
                if cb == Some(0) || ca == Some(m) {
                    return self.konst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let e = self.bin(Op::Eq, b, a);
                    return self.not(e);
                }
                if let Some(y) = cb {
                    let ab = self.active_bits(a);
                    if y > mask(ab) {
                        return self.konst(1, 1);
                    }
                    if ab < w && ab > 0 {
                        let x = self.extract(a, ab - 1, 0);
                        let k = self.konst(ab, y);
                        return self.bin(Op::Ult, x, k);
                    }
                }
                if let Some(x) = ca {
                    let bb = self.active_bits(b);
                    if x >= mask(bb) {
                        return self.konst(1, 0);
                    }
                    if bb < w && bb > 0 {
                        let y = self.extract(b, bb - 1, 0);
                        let k = self.konst(bb, x);
                        return self.bin(Op::Ult, k, y);
                    }
                }
                if let Some(r) = self.cmp_ite(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                // normalise a <= b to !(b < a)
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(x) = ca {
                    if x == 0 {
                        return self.konst(1, 1);
                    }
                    let k = self.konst(w, x - 1);
                    return self.bin(Op::Ult, k, b);
                }
                if let Some(y) = cb {
                    if y == m {
                        return self.konst(1, 1);
                    }
                    let k = self.konst(w, y + 1);
                    return self.bin(Op::Ult, a, k);
                }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(Op::Or, x, b);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                if w > 1 && self.active_bits(a) < w && self.active_bits(b) < w {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // sign test
                if op == Op::Slt && cb == Some(0) && w > 1 {
                    return self.extract(a, w - 1, w - 1);
                }
                if op == Op::Slt && ca == Some(m) && w > 1 {
                    let s = self.extract(b, w - 1, w - 1);
                    return self.not(s);
                }
                if op == Op::Sle {
                    if let Some(y) = cb {
                        if y == (m >> 1) {
                            return self.konst(1, 1);
                        }
                        let k = self.konst(w, y.wrapping_add(1));
                        return self.bin(Op::Slt, a, k);
                    }
                    if let Some(x) = ca {
                        if x == (m >> 1) + 1 {
                            return self.konst(1, 1);
                        }
                        let k = self.konst(w, x.wrapping_sub(1));
                        return self.bin(Op::Slt, k, b);
                    }
                }
                if let Some(r) = self.cmp_ite(op, a, b) {
                    return r;
                }
            }
            _ => {}
        }
        self.bin_noncomm_raw(op, rw, a, b)
    }
    fn cmp_ite(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite
            && self.cv(b).is_some()
            && self.cv(na.b).is_some()
            && self.cv(na.c).is_some()
        {
            let (p, q) = (self.bin(op, na.b, b), self.bin(op, na.c, b));
            return Some(self.ite(na.a, p, q));
        }
        if nb.op == Op::Ite
            && self.cv(a).is_some()
            && self.cv(nb.b).is_some()
            && self.cv(nb.c).is_some()
        {
            let (p, q) = (self.bin(op, a, nb.b), self.bin(op, a, nb.c));
            return Some(self.ite(nb.a, p, q));
        }
        None
    }
    fn bin_noncomm(&mut self, op: Op, a: E, b: E) -> E {
        self.bin(op, a, b)
    }
    fn bin_noncomm_raw(&mut self, op: Op, rw: u8, a: E, b: E) -> E {
        self.mk2(op, rw, a, b)
    }
    /// a | b where a's active bits end where b's low zero bits end.
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        let nb = self.n(b);
        if nb.op != Op::Concat {
            return None;
        }
        // low part of b must be constant zero
        if self.cv(nb.b) != Some(0) {
            return None;
        }
        let k = self.w(nb.b);
        if self.active_bits(a) > k {
            return None;
        }
        let lo = self.extract(a, k - 1, 0);
        Some(self.concat(nb.a, lo))
    }

    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        debug_assert_eq!(self.w(c), 1);
        debug_assert_eq!(self.w(t), self.w(f));
        if let Some(v) = self.cv(c) {
            return if v == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.cv(t), self.cv(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        let (nt, nf) = (self.n(t), self.n(f));
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        if nf.op == Op::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        if w > 1 && nt.op == Op::ZExt && nf.op == Op::ZExt && self.w(nt.a) == self.w(nf.a) {
            let i = self.ite(c, nt.a, nf.a);
            return self.zext(i, w);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: f, d: 0 })
    }

    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        if let Some(v) = self.cv(a) {
            return self.konst(w, v);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
            let (x, y) = (self.zext(n.b, w), self.zext(n.c, w));
            return self.ite(n.a, x, y);
        }
        self.mk1(Op::ZExt, w, a)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.konst(w, sext(v, n.w) as u128);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if self.active_bits(a) < n.w {
            return self.zext(a, w);
        }
        if n.w == 1 {
            let (x, y) = (self.konst(w, !0), self.konst(w, 0));
            return self.ite(a, x, y);
        }
        self.mk1(Op::SExt, w, a)
    }
    pub fn trunc(&mut self, a: E, w: u8) -> E {
        self.extract(a, w - 1, 0)
    }
    pub fn extract(&mut self, a: E, hi: u8, lo: u8) -> E {
        let n = self.n(a);
        debug_assert!(hi >= lo && hi < n.w);
        let w = hi - lo + 1;
        if w == n.w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.konst(w, v >> lo);
        }
        if let Some(&r) = self.extmemo.get(&(a, hi, lo)) {
            return r;
        }
        let r = self.extract_new(a, hi, lo);
        self.extmemo.insert((a, hi, lo), r);
        r
    }
    fn extract_new(&mut self, a: E, hi: u8, lo: u8) -> E {
        let n = self.n(a);
        let w = hi - lo + 1;
        match n.op {
            Op::Extract => {
                let l0 = n.b as u8;
                return self.extract(n.a, hi + l0, lo + l0);
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if hi < wl {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= wl {
                    return self.extract(n.a, hi - wl, lo - wl);
                }
                let h = self.extract(n.a, hi - wl, 0);
                let l = self.extract(n.b, wl - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.konst(w, 0);
                }
                if hi < wi {
                    return self.extract(n.a, hi, lo);
                }
                let x = self.extract(n.a, wi - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if hi < wi {
                    return self.extract(n.a, hi, lo);
                }
                if lo < wi {
                    let x = self.extract(n.a, wi - 1, lo);
                    return self.sext(x, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                // push through when an operand is constant
                if self.cv(n.b).is_some() || lo == 0 {
                    let x = self.extract(n.a, hi, lo);
                    let y = self.extract(n.b, hi, lo);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul => {
                if lo == 0 {
                    let x = self.extract(n.a, hi, 0);
                    let y = self.extract(n.b, hi, 0);
                    return self.bin(n.op, x, y);
                }
                let ab = self.active_bits(a);
                if lo >= ab {
                    return self.konst(w, 0);
                }
            }
            Op::Ite => {
                if self.cv(n.b).is_some()
                    || self.cv(n.c).is_some()
                    || matches!(self.n(n.b).op, Op::Concat | Op::ZExt)
                    || matches!(self.n(n.c).op, Op::Concat | Op::ZExt)
                {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {
                if lo >= self.active_bits(a) {
                    return self.konst(w, 0);
                }
            }
        }
        self.mk(Node { op: Op::Extract, w, a, b: lo as u32, c: 0, d: 0 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w + nl.w;
        match (self.cv(h), self.cv(l)) {
            (Some(x), Some(y)) => return self.konst(w, x << nl.w | y),
            (Some(0), None) => return self.zext(l, w),
            _ => {}
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let (x, y) = (self.cv(nh.b), self.cv(nh.c));
            let (p, q) = (self.cv(nl.b), self.cv(nl.c));
            if let (Some(x), Some(y), Some(p), Some(q)) = (x, y, p, q) {
                let t = self.konst(w, x << nl.w | p);
                let e = self.konst(w, y << nl.w | q);
                return self.ite(nh.a, t, e);
            }
        }
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a {
            let lo_h = nh.b as u8;
            let lo_l = nl.b as u8;
            if lo_l + nl.w == lo_h {
                return self.extract(nh.a, lo_h + nh.w - 1, lo_l);
            }
        }
        // h = extract(x, top.., n) ; l = (x truncated form == smaller expr)
        if nh.op == Op::Extract && nh.b as u8 == nl.w && self.w(nh.a) == nh.b as u8 + nh.w {
            let t = self.extract(nh.a, nl.w - 1, 0);
            if t == l {
                return nh.a;
            }
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        // right-nest: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let lo = self.concat(nh.b, l);
            return self.concat(nh.a, lo);
        }
        if nl.op == Op::Concat {
            // try to merge h with l's high part
            let m = self.n(nl.a);
            if nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && m.b as u8 + m.w == nh.b as u8 {
                let hh = self.extract(nh.a, nh.b as u8 + nh.w - 1, m.b as u8);
                return self.concat(hh, nl.b);
            }
            if let (Some(x), Some(y)) = (self.cv(h), self.cv(nl.a)) {
                let k = self.konst(nh.w + m.w, x << m.w | y);
                return self.concat(k, nl.b);
            }
        }
        self.mk2(Op::Concat, w, h, l)
    }

    // ---- evaluation under a model -------------------------------------------------

    pub fn new_epoch(&mut self) {
        self.eval_epoch = self.eval_epoch.wrapping_add(1);
        if self.eval_epoch == 0 {
            self.eval_memo.clear();
            self.eval_epoch = 1;
        }
    }
    /// Evaluates under `model` (missing variables are 0).  The memo is valid within one epoch.
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        if self.eval_memo.len() < self.nodes.len() {
            self.eval_memo.resize(self.nodes.len(), (0, 0));
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.cv(e).unwrap(),
            Op::Var => return model.get(n.a as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        let (ep, v) = self.eval_memo[e as usize];
        if ep == self.eval_epoch {
            return v;
        }
        let r = match n.op {
            Op::Not => !self.eval_rec(n.a, model) & mask(n.w),
            Op::Ite => {
                if self.eval_rec(n.a, model) == 1 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                self.eval_rec(n.a, model) << wl | self.eval_rec(n.b, model)
            }
            Op::Extract => (self.eval_rec(n.a, model) >> n.b) & mask(n.w),
            Op::ZExt => self.eval_rec(n.a, model),
            Op::SExt => {
                let wa = self.w(n.a);
                (sext(self.eval_rec(n.a, model), wa) as u128) & mask(n.w)
            }
            op => {
                let wa = self.w(n.a);
                let x = self.eval_rec(n.a, model);
                let y = self.eval_rec(n.b, model);
                fold2(op, wa, x, y)
            }
        };
        self.eval_memo[e as usize] = (self.eval_epoch, r);
        r
    }

    pub fn show(&self, e: E) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}:{}", self.cv(e).unwrap(), n.w),
            Op::Var => format!("v{}", n.a),
            Op::Not => format!("!{}", self.show(n.a)),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a), n.b, n.w),
            Op::ZExt => format!("zx{}({})", n.w, self.show(n.a)),
            Op::SExt => format!("sx{}({})", n.w, self.show(n.a)),
            Op::Ite => format!("({} ? {} : {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            op => format!("({:?} {} {})", op, self.show(n.a), self.show(n.b)),
        }
    }
}
