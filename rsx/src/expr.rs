//! Hash-consed bit-vector expressions (width 1 = boolean) with local simplification.

use crate::ir::BinOp;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum N {
    C(u128),
    Var(u32),
    Bin(BinOp, E, E),
    Not(E),
    ZExt(E),
    SExt(E),
    /// bits lo .. lo+w
    Extract(E, u32),
    /// hi, lo
    Concat(E, E),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
}

#[derive(Debug, Clone, Copy)]
pub struct Node {
    pub n: N,
    pub w: u32,
    /// unsigned bounds (saturating at u64::MAX when the width exceeds 64)
    pub lo: u64,
    pub hi: u64,
    /// number of leaves if this is a tree of Ite over constants (0: not such a tree)
    pub leaves: u32,
    /// structural hash, the same in every arena (orders the operands of commutative operators)
    pub h: u64,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(N, u32), E>,
    pub nvars: u32,
    pub var_e: Vec<E>,
    var_map: FxMap<(u32, u32), E>,
    // evaluation cache
    ev_stamp: Vec<u64>,
    ev_val: Vec<u128>,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold_bin(op: BinOp, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        BinOp::Add => a.wrapping_add(b) & m,
        BinOp::Sub => a.wrapping_sub(b) & m,
        BinOp::Mul => a.wrapping_mul(b) & m,
        BinOp::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        BinOp::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        BinOp::SDiv => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_div(sext(b, w))) as u128 & m
        }
        BinOp::SRem => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_rem(sext(b, w))) as u128 & m
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128 & m
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        _ => return None,
    })
}

const MAX_PUSH: u32 = 64;

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: FxMap::default(),
            nvars: 0,
            var_e: vec![],
            var_map: FxMap::default(),
            ev_stamp: vec![],
            ev_val: vec![],
        };
        // E 0 is reserved (means "concrete byte" in memory overlays)
        a.nodes.push(Node { n: N::C(0), w: 0, lo: 0, hi: 0, leaves: 0, h: 0 });
        a
    }

    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn node(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn cst(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].n {
            N::C(v) => Some(v),
            _ => None,
        }
    }

    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let (lo, hi) = self.bounds(&n, w);
        let leaves = match n {
            N::C(_) => 1,
            N::Ite(_, a, b) => {
                let (x, y) = (self.nodes[a as usize].leaves, self.nodes[b as usize].leaves);
                if x > 0 && y > 0 {
                    x.saturating_add(y)
                } else {
                    0
                }
            }
            _ => 0,
        };
        let h = self.shash(&n, w);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { n, w, lo, hi, leaves, h });
        self.map.insert((n, w), e);
        // bounds may pin the value
        if !matches!(n, N::C(_)) && w <= 64 && lo == hi {
            let c = self.c(lo as u128, w);
            self.map.insert((n, w), c);
            return c;
        }
        e
    }

    fn shash(&self, n: &N, w: u32) -> u64 {
        fn mx(a: u64, b: u64) -> u64 {
            let x = (a.rotate_left(23) ^ b).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            x ^ (x >> 29)
        }
        let g = |e: E| self.nodes[e as usize].h;
        let h = mx(0x1234_5678, w as u64);
        match *n {
            N::C(v) => mx(mx(mx(h, 1), v as u64), (v >> 64) as u64),
            N::Var(i) => mx(mx(h, 2), i as u64),
            N::Bin(op, a, b) => mx(mx(mx(h, 0x100 + op as u64), g(a)), g(b)),
            N::Not(a) => mx(mx(h, 3), g(a)),
            N::ZExt(a) => mx(mx(h, 4), g(a)),
            N::SExt(a) => mx(mx(h, 5), g(a)),
            N::Extract(a, lo) => mx(mx(mx(h, 6), g(a)), lo as u64),
            N::Concat(a, b) => mx(mx(mx(h, 7), g(a)), g(b)),
            N::Ite(c, a, b) => mx(mx(mx(mx(h, 8), g(c)), g(a)), g(b)),
            N::Eq(a, b) => mx(mx(mx(h, 9), g(a)), g(b)),
            N::Ult(a, b) => mx(mx(mx(h, 10), g(a)), g(b)),
            N::Slt(a, b) => mx(mx(mx(h, 11), g(a)), g(b)),
        }
    }

    /// The operands of a commutative operator in an order that does not depend on the arena.
    #[inline]
    fn swapped(&self, a: E, b: E) -> bool {
        (self.nodes[a as usize].h, a) > (self.nodes[b as usize].h, b)
    }

    fn bounds(&self, n: &N, w: u32) -> (u64, u64) {
        let full = (0u64, mask64(w));
        if w > 64 {
            return match n {
                N::C(v) => {
                    let x = if *v > u64::MAX as u128 { u64::MAX } else { *v as u64 };
                    (x, x)
                }
                N::ZExt(a) => {
                    let x = self.node(*a);
                    if x.w <= 64 {
                        (x.lo, x.hi)
                    } else {
                        full
                    }
                }
                _ => full,
            };
        }
        match *n {
            N::C(v) => (v as u64, v as u64),
            N::Var(_) => full,
            N::ZExt(a) => {
                let x = self.node(a);
                (x.lo, x.hi)
            }
            N::Ite(_, a, b) => {
                let (x, y) = (self.node(a), self.node(b));
                (x.lo.min(y.lo), x.hi.max(y.hi))
            }
            N::Concat(h, l) => {
                let (x, y) = (self.node(h), self.node(l));
                let s = y.w;
                ((x.lo << s) | y.lo, (x.hi << s) | y.hi)
            }
            N::Extract(a, lo) => {
                let x = self.node(a);
                if x.w <= 64 && lo == 0 && x.hi <= mask64(w) {
                    (x.lo, x.hi)
                } else if x.w <= 64 && lo > 0 && lo + w == x.w {
                    (x.lo >> lo, x.hi >> lo)
                } else {
                    full
                }
            }
            N::Bin(op, a, b) => {
                let (x, y) = (self.node(a), self.node(b));
                match op {
                    BinOp::Add => match (x.hi.checked_add(y.hi), x.lo.checked_add(y.lo)) {
                        (Some(h), Some(l)) if h <= mask64(w) => (l, h),
                        _ => full,
                    },
                    BinOp::Sub => {
                        if x.lo >= y.hi {
                            (x.lo - y.hi, x.hi - y.lo)
                        } else {
                            full
                        }
                    }
                    BinOp::Mul => match x.hi.checked_mul(y.hi) {
                        Some(h) if h <= mask64(w) => (x.lo * y.lo, h),
                        _ => full,
                    },
                    BinOp::UDiv => {
                        if y.lo > 0 {
                            (x.lo / y.hi, x.hi / y.lo)
                        } else {
                            full
                        }
                    }
                    BinOp::URem => {
                        if y.lo > 0 {
                            (0, (y.hi - 1).min(x.hi))
                        } else {
                            full
                        }
                    }
                    BinOp::And => (0, x.hi.min(y.hi)),
                    BinOp::Or => {
                        let h = x.hi | y.hi;
                        let bits = 64 - h.leading_zeros();
                        (x.lo.max(y.lo), mask64(bits))
                    }
                    BinOp::LShr => (0, x.hi),
                    _ => full,
                }
            }
            _ => full,
        }
    }

    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(N::C(v & mask(w)), w)
    }
    pub fn tru(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn fls(&mut self) -> E {
        self.c(0, 1)
    }
    /// The `i`-th symbolic input of a path, of width w.
    pub fn var(&mut self, i: u32, w: u32) -> E {
        if let Some(e) = self.var_map.get(&(i, w)) {
            return *e;
        }
        let k = self.nvars;
        self.nvars += 1;
        let e = self.mk(N::Var(k), w);
        // k depends on the arena; the input's position and width do not
        let h = ((i as u64) << 8 | w as u64).wrapping_add(0x51).wrapping_mul(0xd6e8_feb8_6659_fd93);
        self.nodes[e as usize].h = h ^ (h >> 31);
        self.var_e.push(e);
        self.var_map.insert((i, w), e);
        e
    }

    /// The `i`-th symbolic input, known to lie in lo..=hi, with the conditions that say so.
    pub fn var_in(&mut self, i: u32, w: u32, lo: u64, hi: u64) -> (E, E, E) {
        let key = (i, 1 << 31 | w << 24 | ((lo & 0xfff) << 12 | (hi & 0xfff)) as u32);
        let e = match self.var_map.get(&key) {
            Some(e) => *e,
            None => {
                let k = self.nvars;
                self.nvars += 1;
                let e = self.mk(N::Var(k), w);
                let h = ((i as u64) << 8 | w as u64).wrapping_add(lo << 40 | hi << 52).wrapping_add(0x51).wrapping_mul(0xd6e8_feb8_6659_fd93);
                let n = &mut self.nodes[e as usize];
                n.h = h ^ (h >> 31);
                n.lo = lo;
                n.hi = hi;
                self.var_e.push(e);
                self.var_map.insert(key, e);
                e
            }
        };
        let l = self.c(lo as u128, w);
        let h = self.c(hi as u128, w);
        // not simplified: the bounds of e would make them plain truths
        let a = self.mk(N::Ult(e, l), 1);
        let b = self.mk(N::Ult(h, e), 1);
        let a = self.mk(N::Not(a), 1);
        let b = self.mk(N::Not(b), 1);
        (e, a, b)
    }

    fn pushable(&self, e: E) -> bool {
        let l = self.node(e).leaves;
        l >= 2 && l <= MAX_PUSH
    }

    /// The constants a tree of choices chooses among.
    pub fn leaf_values(&self, e: E, out: &mut Vec<u64>) {
        match self.node(e).n {
            N::Ite(_, a, b) => {
                self.leaf_values(a, out);
                self.leaf_values(b, out);
            }
            N::C(v) => out.push(v as u64),
            _ => {}
        }
    }

    fn map_leaves(&mut self, e: E, f: &mut dyn FnMut(&mut Arena, E) -> E) -> E {
        match self.node(e).n {
            N::Ite(c, a, b) => {
                let x = self.map_leaves(a, f);
                let y = self.map_leaves(b, f);
                self.ite(c, x, y)
            }
            _ => f(self, e),
        }
    }

    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold_bin(op, x, y, w) {
                return self.c(r, w);
            }
        }
        if w == 1 {
            // booleans
            return match op {
                BinOp::And | BinOp::Mul => self.and(a, b),
                BinOp::Or => self.or(a, b),
                BinOp::Xor | BinOp::Add | BinOp::Sub => {
                    if let Some(x) = ca {
                        return if x == 0 { b } else { self.not(b) };
                    }
                    if let Some(y) = cb {
                        return if y == 0 { a } else { self.not(a) };
                    }
                    if a == b {
                        return self.c(0, 1);
                    }
                    let e = self.eq(a, b);
                    self.not(e)
                }
                _ => self.mk(N::Bin(op, a, b), 1),
            };
        }
        // push into small constant-leaf trees when the other side is constant
        if cb.is_some() && self.pushable(a) && !matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem if cb == Some(0)) {
            return self.map_leaves(a, &mut |s, l| s.bin(op, l, b));
        }
        if ca.is_some() && self.pushable(b) && !matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            return self.map_leaves(b, &mut |s, l| s.bin(op, a, l));
        }
        match op {
            BinOp::Add => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if let N::Bin(BinOp::Add, p, q) = self.node(a).n {
                        if let Some(z) = self.cst(q) {
                            let k = self.c(y.wrapping_add(z), w);
                            return self.bin(BinOp::Add, p, k);
                        }
                    }
                }
                // (p + k) + b -> (p + b) + k
                if let N::Bin(BinOp::Add, p, q) = self.node(a).n {
                    if self.cst(q).is_some() && cb.is_none() {
                        let s = self.bin(BinOp::Add, p, b);
                        return self.bin(BinOp::Add, s, q);
                    }
                }
                if let N::Bin(BinOp::Add, p, q) = self.node(b).n {
                    if self.cst(q).is_some() {
                        let s = self.bin(BinOp::Add, a, p);
                        return self.bin(BinOp::Add, s, q);
                    }
                }
                // x + (y - x) -> y
                if let N::Bin(BinOp::Sub, p, q) = self.node(b).n {
                    if q == a {
                        return p;
                    }
                }
                if let N::Bin(BinOp::Sub, p, q) = self.node(a).n {
                    if q == b {
                        return p;
                    }
                }
            }
            BinOp::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    let k = self.c((!y).wrapping_add(1), w);
                    return self.bin(BinOp::Add, a, k);
                }
                let (pa, ka) = self.split_add(a);
                let (pb, kb) = self.split_add(b);
                if ka != 0 || kb != 0 {
                    let k = self.c(ka.wrapping_sub(kb), w);
                    let s = if pa == pb {
                        return k;
                    } else {
                        self.bin(BinOp::Sub, pa, pb)
                    };
                    return self.bin(BinOp::Add, s, k);
                }
                // (x + y) - x
                if let N::Bin(BinOp::Add, p, q) = self.node(a).n {
                    if p == b {
                        return q;
                    }
                    if q == b {
                        return p;
                    }
                }
                // x - (x - y)
                if let N::Bin(BinOp::Sub, p, q) = self.node(b).n {
                    if p == a {
                        return q;
                    }
                }
            }
            BinOp::Mul => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if let N::Bin(BinOp::Mul, p, q) = self.node(a).n {
                        if let Some(z) = self.cst(q) {
                            let k = self.c(y.wrapping_mul(z), w);
                            return self.bin(BinOp::Mul, p, k);
                        }
                    }
                    if let N::Bin(BinOp::Add, p, q) = self.node(a).n {
                        if let Some(z) = self.cst(q) {
                            let k = self.c(y.wrapping_mul(z), w);
                            let m = self.bin(BinOp::Mul, p, b);
                            return self.bin(BinOp::Add, m, k);
                        }
                    }
                }
            }
            BinOp::And => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == mask(w) {
                        return a;
                    }
                    // x already fits the low mask
                    if w <= 64 && (y + 1).is_power_of_two() && self.node(a).hi as u128 <= y {
                        return a;
                    }
                    if (y + 1).is_power_of_two() {
                        let k = 128 - y.leading_zeros();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    if let N::Bin(BinOp::And, p, q) = self.node(a).n {
                        if let Some(z) = self.cst(q) {
                            let k = self.c(y & z, w);
                            return self.bin(BinOp::And, p, k);
                        }
                    }
                    if let N::ZExt(x) = self.node(a).n {
                        let xw = self.w(x);
                        if xw > 1 {
                            let k = self.c(y, xw);
                            let r = self.bin(BinOp::And, x, k);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            BinOp::Or => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == mask(w) {
                        return b;
                    }
                }
                // disjoint concat/zext -> concat
                for (p, q) in [(a, b), (b, a)] {
                    if let N::Concat(h, l) = self.node(p).n {
                        if self.cst(l) == Some(0) {
                            let lw = self.w(l);
                            if w <= 64 && self.node(q).hi <= mask64(lw) {
                                let x = self.extract(q, 0, lw);
                                return self.concat(h, x);
                            }
                        }
                    }
                }
            }
            BinOp::Xor => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return self.c(0, w);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == mask(w) {
                        return self.not(a);
                    }
                }
            }
            BinOp::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = y as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(x, z);
                }
            }
            BinOp::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = y as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            BinOp::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y < w as u128 {
                        let k = y as u32;
                        let x = self.extract(a, k, w - k);
                        return self.sext(x, w);
                    }
                }
            }
            BinOp::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.c(y.trailing_zeros() as u128, w);
                        return self.bin(BinOp::LShr, a, k);
                    }
                }
            }
            BinOp::URem => {
                if let Some(y) = cb {
                    if y == 1 {
                        return self.c(0, w);
                    }
                    if y.is_power_of_two() {
                        let k = self.c(y - 1, w);
                        return self.bin(BinOp::And, a, k);
                    }
                }
            }
            _ => {}
        }
        if matches!(op, BinOp::Add | BinOp::Sub) && cb.is_none() && (self.is_sum(a) || self.is_sum(b)) {
            let mut t = vec![];
            let mut k = 0u128;
            if self.flat(a, false, &mut t, &mut k) && self.flat(b, op == BinOp::Sub, &mut t, &mut k) {
                self.cancel(&mut t);
                return self.sum(&t, k, w);
            }
        }
        let (a, b) = match op {
            BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor if cb.is_none() && self.swapped(a, b) => (b, a),
            _ => (a, b),
        };
        self.mk(N::Bin(op, a, b), w)
    }

    fn is_sum(&self, e: E) -> bool {
        matches!(self.node(e).n, N::Bin(BinOp::Add | BinOp::Sub, _, _))
    }
    /// Adds the terms of e (negated if neg) to t; false if there are too many.
    fn flat(&self, e: E, neg: bool, t: &mut Vec<(E, bool)>, k: &mut u128) -> bool {
        match self.node(e).n {
            N::C(v) => *k = if neg { k.wrapping_sub(v) } else { k.wrapping_add(v) },
            N::Bin(BinOp::Add, a, b) => return self.flat(a, neg, t, k) && self.flat(b, neg, t, k),
            N::Bin(BinOp::Sub, a, b) => return self.flat(a, neg, t, k) && self.flat(b, !neg, t, k),
            _ => {
                if t.len() >= 16 {
                    return false;
                }
                t.push((e, neg));
            }
        }
        true
    }
    /// Removes pairs of opposite terms and puts the rest into a canonical order.
    fn cancel(&self, t: &mut Vec<(E, bool)>) {
        t.sort_by_key(|(e, n)| (self.node(*e).h, *e, *n));
        let mut i = 0;
        while i < t.len() {
            // equal terms are adjacent, positive ones first
            let mut j = i;
            while j < t.len() && t[j].0 == t[i].0 {
                j += 1;
            }
            let p = t[i..j].iter().filter(|x| !x.1).count();
            let n = j - i - p;
            let c = p.min(n);
            if c > 0 {
                let e = t[i].0;
                let keep = vec![(e, n > p); p.max(n) - c];
                let l = keep.len();
                t.splice(i..j, keep);
                i += l;
            } else {
                i = j;
            }
        }
    }
    fn sum(&mut self, t: &[(E, bool)], k: u128, w: u32) -> E {
        let k = self.c(k, w);
        let mut s: [Option<E>; 2] = [None, None];
        for (e, n) in t {
            let i = *n as usize;
            s[i] = Some(match s[i] {
                None => *e,
                Some(x) => self.mk(N::Bin(BinOp::Add, x, *e), w),
            });
        }
        let r = match (s[0], s[1]) {
            (None, None) => return k,
            (Some(p), None) => p,
            (Some(p), Some(n)) => self.mk(N::Bin(BinOp::Sub, p, n), w),
            (None, Some(n)) => return self.mk(N::Bin(BinOp::Sub, k, n), w),
        };
        if self.cst(k) == Some(0) {
            return r;
        }
        if self.cst(r).is_some() {
            return self.bin(BinOp::Add, r, k);
        }
        self.mk(N::Bin(BinOp::Add, r, k), w)
    }
    /// no addition inside the sum e can overflow
    fn exact(&self, e: E) -> bool {
        match self.node(e).n {
            N::Bin(BinOp::Add, a, b) => {
                let (x, y) = (self.node(a), self.node(b));
                x.hi.checked_add(y.hi).map_or(false, |h| h <= mask64(x.w)) && self.exact(a) && self.exact(b)
            }
            N::Bin(BinOp::Sub, _, _) => false,
            _ => true,
        }
    }

    /// e = p + k
    pub fn split_add(&self, e: E) -> (E, u128) {
        if let N::Bin(BinOp::Add, p, q) = self.node(e).n {
            if let Some(k) = self.cst(q) {
                return (p, k);
            }
        }
        (e, 0)
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.node(a).n {
            N::C(v) => self.c(!v, w),
            N::Not(x) => x,
            _ => {
                if w > 1 && self.pushable(a) {
                    return self.map_leaves(a, &mut |s, l| s.not(l));
                }
                self.mk(N::Not(a), w)
            }
        }
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        match (self.cst(a), self.cst(b)) {
            (Some(0), _) => return a,
            (_, Some(0)) => return b,
            (Some(_), _) => return b,
            (_, Some(_)) => return a,
            _ => {}
        }
        if a == b {
            return a;
        }
        if self.is_neg(a, b) {
            return self.fls();
        }
        // a & (a & x)
        if let N::Bin(BinOp::And, p, q) = self.node(b).n {
            if p == a || q == a {
                return b;
            }
        }
        if let N::Bin(BinOp::And, p, q) = self.node(a).n {
            if p == b || q == b {
                return a;
            }
        }
        let (a, b) = if self.swapped(a, b) { (b, a) } else { (a, b) };
        self.mk(N::Bin(BinOp::And, a, b), 1)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        match (self.cst(a), self.cst(b)) {
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            (Some(_), _) => return a,
            (_, Some(_)) => return b,
            _ => {}
        }
        if a == b {
            return a;
        }
        if self.is_neg(a, b) {
            return self.tru();
        }
        let (a, b) = if self.swapped(a, b) { (b, a) } else { (a, b) };
        self.mk(N::Bin(BinOp::Or, a, b), 1)
    }
    fn is_neg(&self, a: E, b: E) -> bool {
        matches!(self.node(a).n, N::Not(x) if x == b) || matches!(self.node(b).n, N::Not(x) if x == a)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match self.node(a).n {
            N::C(v) => self.c(v, w),
            N::ZExt(x) => self.zext(x, w),
            // the upper bits that were cut off are known to be zero
            N::Extract(x, 0) if self.w(x) == w && w <= 64 && self.node(x).hi <= mask64(aw) => x,
            _ => {
                if self.pushable(a) {
                    return self.map_leaves(a, &mut |s, l| s.zext(l, w));
                }
                self.mk(N::ZExt(a), w)
            }
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.node(a).n {
            N::C(v) => self.c(sext(v, aw) as u128, w),
            N::SExt(x) => self.sext(x, w),
            N::ZExt(x) => self.zext(x, w),
            _ => {
                if self.pushable(a) {
                    return self.map_leaves(a, &mut |s, l| s.sext(l, w));
                }
                if aw <= 64 && aw > 1 && self.node(a).hi < (1u64 << (aw - 1)) {
                    return self.zext(a, w);
                }
                self.mk(N::SExt(a), w)
            }
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        match self.node(a).n {
            N::C(v) => self.c(v >> lo, w),
            N::Extract(x, l) => self.extract(x, l + lo, w),
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.c(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let y = self.extract(x, lo, xw - lo);
                    self.zext(y, w)
                }
            }
            N::SExt(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            N::SExt(x) if lo == 0 && w > self.w(x) => self.sext(x, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let x = self.extract(h, 0, lo + w - lw);
                    let y = self.extract(l, lo, lw - lo);
                    self.concat(x, y)
                }
            }
            N::Ite(c, x, y) if self.cst(x).is_some() || self.cst(y).is_some() => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.ite(c, p, q)
            }
            N::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            N::Not(x) => {
                let p = self.extract(x, lo, w);
                self.not(p)
            }
            N::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 && w > 8 && (aw > 64 || self.node(a).hi >> w != 0 || w == 64) => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                self.bin(op, p, q)
            }
            _ => {
                let nd = *self.node(a);
                if aw <= 64 && lo < 64 && lo > 0 && nd.hi >> lo == 0 {
                    return self.c(0, w);
                }
                self.mk(N::Extract(a, lo), w)
            }
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cst(h), self.cst(l)) {
            return self.c((x << lw) | y, w);
        }
        if self.cst(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (N::Extract(x, xl), N::Extract(y, yl)) = (self.node(h).n, self.node(l).n) {
            if x == y && xl == yl + lw {
                return self.extract(x, yl, w);
            }
        }
        // concat(concat(a, extract x hi), extract x lo)
        if let (N::Concat(a, b), N::Extract(y, yl)) = (self.node(h).n, self.node(l).n) {
            if let N::Extract(x, xl) = self.node(b).n {
                if x == y && xl == yl + lw {
                    let bw = self.w(b);
                    let m = self.extract(x, yl, lw + bw);
                    return self.concat(a, m);
                }
            }
        }
        // zext(extract(x)) ++ extract(x)
        if let (N::ZExt(b), N::Extract(y, yl)) = (self.node(h).n, self.node(l).n) {
            if let N::Extract(x, xl) = self.node(b).n {
                if x == y && xl == yl + lw {
                    let bw = self.w(b);
                    let m = self.extract(x, yl, lw + bw);
                    return self.zext(m, w);
                }
            }
        }
        if let N::ZExt(b) = self.node(h).n {
            let x = self.concat(b, l);
            return self.zext(x, w);
        }
        // both are Ite on the same condition
        if let (N::Ite(c1, a1, b1), N::Ite(c2, a2, b2)) = (self.node(h).n, self.node(l).n) {
            if c1 == c2 {
                let x = self.concat(a1, a2);
                let y = self.concat(b1, b2);
                return self.ite(c1, x, y);
            }
        }
        if let (N::Ite(c1, a1, b1), Some(_)) = (self.node(h).n, self.cst(l)) {
            if self.pushable(h) {
                let x = self.concat(a1, l);
                let y = self.concat(b1, l);
                return self.ite(c1, x, y);
            }
        }
        if let (Some(_), N::Ite(c1, a1, b1)) = (self.cst(h), self.node(l).n) {
            if self.pushable(l) {
                let x = self.concat(h, a1);
                let y = self.concat(h, b1);
                return self.ite(c1, x, y);
            }
        }
        self.mk(N::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cst(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(x) = self.node(c).n {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // nested same condition
        let a = match self.node(a).n {
            N::Ite(c2, x, _) if c2 == c => x,
            _ => a,
        };
        let b = match self.node(b).n {
            N::Ite(c2, _, y) if c2 == c => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        self.mk(N::Ite(c, a, b), w)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tru();
        }
        let (ca, cb) = (self.cst(a), self.cst(b));
        if ca.is_some() && cb.is_some() {
            return self.fls();
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        let w = self.w(a);
        {
            let (x, y) = (self.node(a), self.node(b));
            if w <= 64 && (x.hi < y.lo || y.hi < x.lo) {
                return self.fls();
            }
        }
        if w == 1 {
            if let Some(v) = cb {
                return if v == 1 { a } else { self.not(a) };
            }
        }
        if let Some(v) = cb {
            match self.node(a).n {
                N::ZExt(x) => {
                    let xw = self.w(x);
                    if v > mask(xw) {
                        return self.fls();
                    }
                    let k = self.c(v, xw);
                    return self.eq(x, k);
                }
                N::SExt(x) => {
                    let xw = self.w(x);
                    if sext(v & mask(xw), xw) as u128 & mask(w) != v {
                        return self.fls();
                    }
                    let k = self.c(v, xw);
                    return self.eq(x, k);
                }
                N::Bin(BinOp::Add, p, q) => {
                    if let Some(z) = self.cst(q) {
                        let k = self.c(v.wrapping_sub(z), w);
                        return self.eq(p, k);
                    }
                }
                N::Bin(BinOp::Sub, p, q) if v == 0 => return self.eq(p, q),
                N::Bin(BinOp::Xor, p, q) => {
                    if v == 0 {
                        return self.eq(p, q);
                    }
                    if let Some(z) = self.cst(q) {
                        let k = self.c(v ^ z, w);
                        return self.eq(p, k);
                    }
                }
                N::Bin(BinOp::Or, p, q) if v == 0 && w > 1 => {
                    let x = self.eq(p, b);
                    let y = self.eq(q, b);
                    return self.and(x, y);
                }
                N::Not(x) => {
                    let k = self.c(!v, w);
                    return self.eq(x, k);
                }
                N::Concat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kh = self.c(v >> lw, hw);
                    let kl = self.c(v, lw);
                    let x = self.eq(h, kh);
                    let y = self.eq(l, kl);
                    return self.and(x, y);
                }
                N::Ite(c, x, y) => {
                    // at least one leaf constant
                    if self.cst(x).is_some() || self.cst(y).is_some() || self.pushable(a) {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
                _ => {}
            }
        } else {
            if let (N::ZExt(x), N::ZExt(y)) = (self.node(a).n, self.node(b).n) {
                let (xw, yw) = (self.w(x), self.w(y));
                if xw == yw {
                    return self.eq(x, y);
                } else if xw < yw {
                    let z = self.zext(x, yw);
                    return self.eq(z, y);
                } else {
                    let z = self.zext(y, xw);
                    return self.eq(x, z);
                }
            }
            if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.node(a).n, self.node(b).n) {
                if self.w(l1) == self.w(l2) {
                    let x = self.eq(h1, h2);
                    let y = self.eq(l1, l2);
                    return self.and(x, y);
                }
            }
            let (pa, ka) = self.split_add(a);
            let (pb, kb) = self.split_add(b);
            if pa == pb {
                return self.c((ka & mask(w) == kb & mask(w)) as u128, 1);
            }
            if ka == kb && ka != 0 {
                return self.eq(pa, pb);
            }
        }
        if w > 1 && cb.is_none() && (self.is_sum(a) || self.is_sum(b)) {
            let mut t = vec![];
            let mut k = 0u128;
            if self.flat(a, false, &mut t, &mut k) && self.flat(b, true, &mut t, &mut k) {
                let n = t.len();
                self.cancel(&mut t);
                if t.len() < n {
                    let (p, q): (Vec<(E, bool)>, Vec<(E, bool)>) = t.iter().partition(|x| !x.1);
                    let q: Vec<_> = q.iter().map(|x| (x.0, false)).collect();
                    // a constant goes to the right when the left is all that remains
                    return if q.is_empty() {
                        let x = self.sum(&p, 0, w);
                        let y = self.c(k.wrapping_neg(), w);
                        self.eq(x, y)
                    } else {
                        let x = self.sum(&p, k, w);
                        let y = self.sum(&q, 0, w);
                        self.eq(x, y)
                    };
                }
            }
        }
        let (a, b) = if cb.is_none() && self.swapped(a, b) { (b, a) } else { (a, b) };
        self.mk(N::Eq(a, b), 1)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c((x < y) as u128, 1);
        }
        if w <= 64 {
            let (x, y) = (*self.node(a), *self.node(b));
            if x.hi < y.lo {
                return self.tru();
            }
            if x.lo >= y.hi {
                return self.fls();
            }
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if let Some(v) = self.cst(b) {
            if v == 0 {
                return self.fls();
            }
            if v == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if let N::ZExt(x) = self.node(a).n {
                let xw = self.w(x);
                if v > mask(xw) {
                    return self.tru();
                }
                let k = self.c(v, xw);
                return self.ult(x, k);
            }
            if self.pushable(a) {
                return self.map_leaves_bool(a, &mut |s, l| s.ult(l, b));
            }
        }
        if let Some(v) = self.cst(a) {
            if v == mask(w) {
                return self.fls();
            }
            if v == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if let N::ZExt(x) = self.node(b).n {
                let xw = self.w(x);
                if v >= mask(xw) {
                    return self.fls();
                }
                let k = self.c(v, xw);
                return self.ult(k, x);
            }
            if self.pushable(b) {
                return self.map_leaves_bool(b, &mut |s, l| s.ult(a, l));
            }
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.node(a).n, self.node(b).n) {
            let (xw, yw) = (self.w(x), self.w(y));
            if xw == yw {
                return self.ult(x, y);
            }
        }
        if w > 1 && w <= 64 && (self.is_sum(a) || self.is_sum(b)) && self.exact(a) && self.exact(b) {
            let mut t = vec![];
            let (mut k, mut l) = (0u128, 0u128);
            if self.flat(a, false, &mut t, &mut k) && {
                let n = t.len();
                self.flat(b, false, &mut t, &mut l) && {
                    for x in t[n..].iter_mut() {
                        x.1 = true;
                    }
                    true
                }
            } {
                let n = t.len();
                self.cancel(&mut t);
                if t.len() < n || (k > 0 && l > 0) {
                    let m = k.min(l);
                    let (p, q): (Vec<(E, bool)>, Vec<(E, bool)>) = t.iter().partition(|x| !x.1);
                    let q: Vec<_> = q.iter().map(|x| (x.0, false)).collect();
                    let x = self.sum(&p, k - m, w);
                    let y = self.sum(&q, l - m, w);
                    return self.ult(x, y);
                }
            }
        }
        self.mk(N::Ult(a, b), 1)
    }
    fn map_leaves_bool(&mut self, e: E, f: &mut dyn FnMut(&mut Arena, E) -> E) -> E {
        self.map_leaves(e, f)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.fls();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c((sext(x, w) < sext(y, w)) as u128, 1);
        }
        if w <= 64 && w > 1 {
            let half = 1u64 << (w - 1);
            let (x, y) = (*self.node(a), *self.node(b));
            let xn = x.hi < half;
            let yn = y.hi < half;
            let xm = x.lo >= half;
            let ym = y.lo >= half;
            if (xn && yn) || (xm && ym) {
                return self.ult(a, b);
            }
            if xn && ym {
                return self.fls();
            }
            if xm && yn {
                return self.tru();
            }
            if self.cst(b).is_some() && self.pushable(a) {
                return self.map_leaves_bool(a, &mut |s, l| s.slt(l, b));
            }
            if self.cst(a).is_some() && self.pushable(b) {
                return self.map_leaves_bool(b, &mut |s, l| s.slt(a, l));
            }
            if let (N::SExt(p), N::SExt(q)) = (self.node(a).n, self.node(b).n) {
                if self.w(p) == self.w(q) {
                    return self.slt(p, q);
                }
            }
            if let (N::SExt(p), Some(v)) = (self.node(a).n, self.cst(b)) {
                let pw = self.w(p);
                if sext(v & mask(pw), pw) as u128 & mask(w) == v && pw > 1 {
                    let k = self.c(v, pw);
                    return self.slt(p, k);
                }
            }
        }
        self.mk(N::Slt(a, b), 1)
    }

    // ------------------------------------------------------------ evaluation

    /// Evaluates e under the assignment; `stamp` identifies the assignment (cache key, never 0).
    pub fn eval(&mut self, e: E, vals: &[u64], stamp: u64) -> u128 {
        if self.ev_stamp.len() < self.nodes.len() {
            self.ev_stamp.resize(self.nodes.len(), 0);
            self.ev_val.resize(self.nodes.len(), 0);
        }
        self.ev(e, vals, stamp)
    }
    fn ev(&mut self, e: E, vals: &[u64], stamp: u64) -> u128 {
        let i = e as usize;
        if self.ev_stamp[i] == stamp {
            return self.ev_val[i];
        }
        let nd = self.nodes[i];
        let w = nd.w;
        let r = match nd.n {
            N::C(v) => return v,
            N::Var(k) => vals.get(k as usize).copied().unwrap_or(0) as u128 & mask(w),
            N::Bin(op, a, b) => {
                let x = self.ev(a, vals, stamp);
                if op == BinOp::And && x == 0 {
                    0
                } else {
                    let y = self.ev(b, vals, stamp);
                    match fold_bin(op, x, y, w) {
                        Some(v) => v,
                        // SMT-LIB semantics of division by zero
                        None => match op {
                            BinOp::UDiv => mask(w),
                            BinOp::SDiv => {
                                if sext(x, w) < 0 {
                                    1
                                } else {
                                    mask(w)
                                }
                            }
                            _ => x,
                        },
                    }
                }
            }
            N::Not(a) => !self.ev(a, vals, stamp) & mask(w),
            N::ZExt(a) => self.ev(a, vals, stamp),
            N::SExt(a) => {
                let aw = self.w(a);
                sext(self.ev(a, vals, stamp), aw) as u128 & mask(w)
            }
            N::Extract(a, lo) => (self.ev(a, vals, stamp) >> lo) & mask(w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                (self.ev(h, vals, stamp) << lw) | self.ev(l, vals, stamp)
            }
            N::Ite(c, a, b) => {
                if self.ev(c, vals, stamp) == 1 {
                    self.ev(a, vals, stamp)
                } else {
                    self.ev(b, vals, stamp)
                }
            }
            N::Eq(a, b) => (self.ev(a, vals, stamp) == self.ev(b, vals, stamp)) as u128,
            N::Ult(a, b) => (self.ev(a, vals, stamp) < self.ev(b, vals, stamp)) as u128,
            N::Slt(a, b) => {
                let aw = self.w(a);
                (sext(self.ev(a, vals, stamp), aw) < sext(self.ev(b, vals, stamp), aw)) as u128
            }
        };
        self.ev_stamp[i] = stamp;
        self.ev_val[i] = r;
        r
    }

    /// e as const + sum coef*term (terms are non-Add, non-const-multiple expressions)
    pub fn linear(&self, e: E) -> (u64, Vec<(u64, E)>) {
        let mut k = 0u64;
        let mut v: Vec<(u64, E)> = vec![];
        let mut todo = vec![(1u64, e)];
        while let Some((c, e)) = todo.pop() {
            match self.node(e).n {
                N::C(x) => k = k.wrapping_add(c.wrapping_mul(x as u64)),
                N::Bin(BinOp::Add, a, b) => {
                    todo.push((c, a));
                    todo.push((c, b));
                }
                N::Bin(BinOp::Mul, a, b) if self.cst(b).is_some() => {
                    todo.push((c.wrapping_mul(self.cst(b).unwrap() as u64), a))
                }
                // x << k is represented as concat(extract(x, 0, w-k), 0_k); zext may sit on top
                N::Concat(_, l) if self.cst(l) == Some(0) && self.w(l) < 64 => {
                    // value = hi * 2^lw: keep the whole expression but remember the factor
                    v.push((c.wrapping_mul(1u64 << self.w(l)), e | 0x8000_0000));
                }
                N::ZExt(x) => match self.node(x).n {
                    N::Concat(_, l) if self.cst(l) == Some(0) && self.w(l) < 64 => {
                        v.push((c.wrapping_mul(1u64 << self.w(l)), e | 0x8000_0000));
                    }
                    _ => v.push((c, e)),
                },
                _ => v.push((c, e)),
            }
        }
        (k, v)
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let nd = self.node(e);
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match nd.n {
            N::C(v) => format!("{v}"),
            N::Var(i) => format!("v{i}"),
            N::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a, d), self.show(b, d)),
            N::Not(a) => format!("!{}", self.show(a, d)),
            N::ZExt(a) => format!("z{}({})", nd.w, self.show(a, d)),
            N::SExt(a) => format!("s{}({})", nd.w, self.show(a, d)),
            N::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d), lo, nd.w),
            N::Concat(a, b) => format!("({}++{})", self.show(a, d), self.show(b, d)),
            N::Ite(c, a, b) => format!("({}?{}:{})", self.show(c, d), self.show(a, d), self.show(b, d)),
            N::Eq(a, b) => format!("({}=={})", self.show(a, d), self.show(b, d)),
            N::Ult(a, b) => format!("({}<{})", self.show(a, d), self.show(b, d)),
            N::Slt(a, b) => format!("({}<s{})", self.show(a, d), self.show(b, d)),
        }
    }
}
