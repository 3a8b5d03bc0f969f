//! Minimal Z3 C-API binding and an incremental solver whose assertion stack follows the path.

use crate::expr::*;
use crate::ir::BinOp;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[allow(non_snake_case, dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, v: P) -> c_int;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_numeral(c: P, v: *const c_char, t: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_ge(c: P, a: P, b: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::exit(3);
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub ns: u64,
    pub max_ns: u64,
}

pub struct Solver {
    c: P,
    s: P,
    memo: Vec<P>,
    /// asserted expressions, one scope each
    stack: Vec<E>,
    pub stats: Stats,
    pub timeout_ms: u32,
    /// queries that take longer are printed (RSX_SLOW, in ms)
    slow: u64,
    /// also try linear integer arithmetic (exact: every wrap-around is spelt out)
    pub lia: bool,
    /// use Z3's incremental SAT-based solver
    pub bv: bool,
    li: Lia,
}

/// The second solver: bit vectors as integers.
#[derive(Default)]
struct Lia {
    s: Option<P>,
    /// None: not tried, Some(null): cannot be expressed
    memo: Vec<Option<P>>,
    stack: Vec<E>,
    /// (variable, width used) -> integer constant
    vars: Vec<(u32, u32, P)>,
    links: Vec<P>,
    nsym: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32, lia: bool, bv: bool) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let mut s = Solver { c, s: std::ptr::null_mut(), memo: vec![], stack: vec![], stats: Stats::default(), timeout_ms, lia, bv, li: Lia::default(), slow: std::env::var("RSX_SLOW").ok().and_then(|v| v.parse::<u64>().ok()).map_or(u64::MAX, |v| v * 1_000_000) };
            s.new_solver();
            s
        }
    }
    unsafe fn new_solver(&mut self) {
        self.s = if self.bv {
            let l = CString::new("QF_BV").unwrap();
            Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()))
        } else {
            Z3_mk_simple_solver(self.c)
        };
        Z3_solver_inc_ref(self.c, self.s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.timeout_ms);
        Z3_solver_set_params(self.c, self.s, p);
    }
    /// Forget everything (the arena is being replaced).
    pub fn reset(&mut self) {
        unsafe {
            Z3_del_context(self.c);
            let cfg = Z3_mk_config();
            self.c = Z3_mk_context(cfg);
            Z3_set_error_handler(self.c, Some(on_error));
            self.memo.clear();
            self.stack.clear();
            self.li = Lia::default();
            self.new_solver();
        }
    }

    fn tr(&mut self, ar: &Arena, e: E) -> P {
        if self.memo.len() < ar.nodes.len() {
            self.memo.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        if !self.memo[e as usize].is_null() {
            return self.memo[e as usize];
        }
        // iterative post-order to survive deep expressions
        let mut todo = vec![(e, false)];
        while let Some((x, ready)) = todo.pop() {
            if !self.memo[x as usize].is_null() {
                continue;
            }
            let nd = ar.node(x);
            let kids: [E; 3] = match nd.n {
                N::C(_) | N::Var(_) => [0, 0, 0],
                N::Bin(_, a, b) | N::Concat(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => [a, b, 0],
                N::Not(a) | N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => [a, 0, 0],
                N::Ite(a, b, c) => [a, b, c],
            };
            if !ready {
                todo.push((x, true));
                for k in kids {
                    if k != 0 && self.memo[k as usize].is_null() {
                        todo.push((k, false));
                    }
                }
                continue;
            }
            let r = unsafe { self.tr1(ar, x) };
            self.memo[x as usize] = r;
        }
        self.memo[e as usize]
    }

    unsafe fn num(&self, v: u128, w: u32) -> P {
        let c = self.c;
        if w <= 64 {
            Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w))
        } else {
            let h = Z3_mk_unsigned_int64(c, (v >> 64) as u64, Z3_mk_bv_sort(c, w - 64));
            let l = Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, 64));
            Z3_mk_concat(c, h, l)
        }
    }

    /// bit-vector view of a node (booleans become 1-bit vectors)
    unsafe fn bv(&self, ar: &Arena, e: E) -> P {
        let p = self.memo[e as usize];
        if ar.w(e) == 1 {
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_mk_ite(self.c, p, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s))
        } else {
            p
        }
    }

    unsafe fn tr1(&self, ar: &Arena, e: E) -> P {
        let c = self.c;
        let nd = *ar.node(e);
        let w = nd.w;
        let m = |x: E| self.memo[x as usize];
        match nd.n {
            N::C(v) => {
                if w == 1 {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else {
                    self.num(v, w)
                }
            }
            N::Var(i) => {
                let s = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                Z3_mk_const(c, Z3_mk_int_symbol(c, (i * 256 + w) as c_int), s)
            }
            N::Bin(op, a, b) => {
                if w == 1 {
                    let l = [m(a), m(b)];
                    return match op {
                        BinOp::And => Z3_mk_and(c, 2, l.as_ptr()),
                        BinOp::Or => Z3_mk_or(c, 2, l.as_ptr()),
                        _ => {
                            eprintln!("rsx: 1-bit op {op:?} in solver");
                            std::process::exit(3);
                        }
                    };
                }
                let (x, y) = (m(a), m(b));
                match op {
                    BinOp::Add => Z3_mk_bvadd(c, x, y),
                    BinOp::Sub => Z3_mk_bvsub(c, x, y),
                    BinOp::Mul => Z3_mk_bvmul(c, x, y),
                    BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                    BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                    BinOp::URem => Z3_mk_bvurem(c, x, y),
                    BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                    BinOp::Shl => Z3_mk_bvshl(c, x, y),
                    BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                    BinOp::AShr => Z3_mk_bvashr(c, x, y),
                    BinOp::And => Z3_mk_bvand(c, x, y),
                    BinOp::Or => Z3_mk_bvor(c, x, y),
                    BinOp::Xor => Z3_mk_bvxor(c, x, y),
                    _ => {
                        eprintln!("rsx: float op in solver");
                        std::process::exit(3);
                    }
                }
            }
            N::Not(a) => {
                if w == 1 {
                    Z3_mk_not(c, m(a))
                } else {
                    Z3_mk_bvnot(c, m(a))
                }
            }
            N::ZExt(a) => {
                let aw = ar.w(a);
                if aw == 1 {
                    Z3_mk_ite(c, m(a), self.num(1, w), self.num(0, w))
                } else {
                    Z3_mk_zero_ext(c, w - aw, m(a))
                }
            }
            N::SExt(a) => {
                let aw = ar.w(a);
                if aw == 1 {
                    Z3_mk_ite(c, m(a), self.num(mask(w), w), self.num(0, w))
                } else {
                    Z3_mk_sign_ext(c, w - aw, m(a))
                }
            }
            N::Extract(a, lo) => {
                let x = Z3_mk_extract(c, lo + w - 1, lo, m(a));
                if w == 1 {
                    Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                } else {
                    x
                }
            }
            N::Concat(h, l) => Z3_mk_concat(c, self.bv(ar, h), self.bv(ar, l)),
            N::Ite(x, a, b) => Z3_mk_ite(c, m(x), m(a), m(b)),
            N::Eq(a, b) => Z3_mk_eq(c, m(a), m(b)),
            N::Ult(a, b) => Z3_mk_bvult(c, m(a), m(b)),
            N::Slt(a, b) => Z3_mk_bvslt(c, m(a), m(b)),
        }
    }

    unsafe fn inum(&self, v: u128) -> P {
        let t = CString::new(v.to_string()).unwrap();
        Z3_mk_numeral(self.c, t.as_ptr(), Z3_mk_int_sort(self.c))
    }
    /// the low w bits of variable k (whose width is full)
    unsafe fn ivar(&mut self, k: u32, w: u32, full: u32) -> P {
        if let Some(x) = self.li.vars.iter().find(|x| x.0 == k && x.1 == w) {
            return x.2;
        }
        // symbols apart from those of the bit-vector variables
        let n = self.li.nsym;
        self.li.nsym += 2;
        let int = Z3_mk_int_sort(self.c);
        let y = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, (n + 0x2000_0000) as c_int), int);
        Z3_inc_ref(self.c, y);
        if w < full {
            // full = q * 2^w + low part
            let f = self.ivar(k, full, full);
            let q = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, (n + 0x2000_0001) as c_int), int);
            let m = Z3_mk_mul(self.c, 2, [q, self.inum(1u128 << w)].as_ptr());
            let l = Z3_mk_eq(self.c, f, Z3_mk_add(self.c, 2, [m, y].as_ptr()));
            self.li.links.push(l);
            self.li.links.push(Z3_mk_ge(self.c, q, self.inum(0)));
            self.li.links.push(Z3_mk_le(self.c, q, self.inum(mask(full - w))));
        }
        self.li.vars.push((k, w, y));
        y
    }
    /// e as an integer (or boolean) term
    unsafe fn it(&mut self, ar: &Arena, e: E) -> P {
        if self.li.memo.len() < ar.nodes.len() {
            self.li.memo.resize(ar.nodes.len(), None);
        }
        if let Some(p) = self.li.memo[e as usize] {
            return p;
        }
        let p = self.it1(ar, e);
        self.li.memo[e as usize] = Some(p);
        p
    }
    unsafe fn it1(&mut self, ar: &Arena, e: E) -> P {
        let nul: P = std::ptr::null_mut();
        let c = self.c;
        let nd = *ar.node(e);
        let w = nd.w;
        let bool_ = w == 1;
        if w > 64 {
            return nul;
        }
        macro_rules! sub {
            ($x:expr) => {{
                let r = self.it(ar, $x);
                if r.is_null() {
                    return nul;
                }
                r
            }};
        }
        match nd.n {
            N::C(v) => {
                if bool_ {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else {
                    self.inum(v)
                }
            }
            N::Var(k) => {
                if bool_ {
                    return nul;
                }
                self.ivar(k, w, w)
            }
            N::Not(a) if bool_ => {
                let x = sub!(a);
                Z3_mk_not(c, x)
            }
            N::Not(a) => {
                let x = sub!(a);
                Z3_mk_sub(c, 2, [self.inum(mask(w)), x].as_ptr())
            }
            N::ZExt(a) => {
                let x = sub!(a);
                if ar.w(a) == 1 {
                    Z3_mk_ite(c, x, self.inum(1), self.inum(0))
                } else {
                    x
                }
            }
            N::SExt(a) => {
                let aw = ar.w(a);
                let x = sub!(a);
                if aw == 1 {
                    return Z3_mk_ite(c, x, self.inum(mask(w)), self.inum(0));
                }
                let h = self.inum(1u128 << (aw - 1));
                let d = self.inum(mask(w) + 1 - (1u128 << aw));
                let y = Z3_mk_add(c, 2, [x, d].as_ptr());
                Z3_mk_ite(c, Z3_mk_ge(c, x, h), y, x)
            }
            N::Extract(a, lo) => {
                if bool_ {
                    return nul;
                }
                if let N::Var(k) = ar.node(a).n {
                    return if lo == 0 { self.ivar(k, w, ar.w(a)) } else { nul };
                }
                let x = sub!(a);
                let hi = ar.node(a).hi;
                let y = if lo == 0 { x } else { Z3_mk_div(c, x, self.inum(1u128 << lo)) };
                if lo + w == ar.w(a) || (hi >> lo) <= mask64(w) {
                    y
                } else {
                    Z3_mk_mod(c, y, self.inum(mask(w) + 1))
                }
            }
            N::Concat(h, l) => {
                let (mut x, mut y) = (sub!(h), sub!(l));
                if ar.w(h) == 1 {
                    x = Z3_mk_ite(c, x, self.inum(1), self.inum(0));
                }
                if ar.w(l) == 1 {
                    y = Z3_mk_ite(c, y, self.inum(1), self.inum(0));
                }
                let k = self.inum(1u128 << ar.w(l));
                let m = Z3_mk_mul(c, 2, [x, k].as_ptr());
                Z3_mk_add(c, 2, [m, y].as_ptr())
            }
            N::Ite(x, a, b) => {
                let (x, a, b) = (sub!(x), sub!(a), sub!(b));
                Z3_mk_ite(c, x, a, b)
            }
            N::Eq(a, b) => {
                let (x, y) = (sub!(a), sub!(b));
                Z3_mk_eq(c, x, y)
            }
            N::Ult(a, b) => {
                if ar.w(a) == 1 {
                    return nul;
                }
                let (x, y) = (sub!(a), sub!(b));
                Z3_mk_lt(c, x, y)
            }
            N::Slt(a, b) => {
                let aw = ar.w(a);
                if aw == 1 {
                    return nul;
                }
                let mut r = [nul, nul];
                for (i, z) in [a, b].iter().enumerate() {
                    let x = sub!(*z);
                    r[i] = if ar.node(*z).hi < 1u64 << (aw - 1) {
                        x
                    } else {
                        let d = Z3_mk_sub(c, 2, [x, self.inum(1u128 << aw)].as_ptr());
                        Z3_mk_ite(c, Z3_mk_ge(c, x, self.inum(1u128 << (aw - 1))), d, x)
                    };
                }
                Z3_mk_lt(c, r[0], r[1])
            }
            N::Bin(op, a, b) if bool_ => {
                let (x, y) = (sub!(a), sub!(b));
                match op {
                    BinOp::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                    BinOp::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                    _ => nul,
                }
            }
            N::Bin(op, a, b) => {
                let (na, nb) = (*ar.node(a), *ar.node(b));
                let cb = ar.cst(b);
                match op {
                    BinOp::Add => {
                        let (x, y) = (sub!(a), sub!(b));
                        let s = Z3_mk_add(c, 2, [x, y].as_ptr());
                        if na.hi.checked_add(nb.hi).map_or(false, |h| h <= mask64(w)) {
                            return s;
                        }
                        let m = self.inum(mask(w) + 1);
                        let d = Z3_mk_sub(c, 2, [s, m].as_ptr());
                        Z3_mk_ite(c, Z3_mk_ge(c, s, m), d, s)
                    }
                    BinOp::Sub => {
                        let (x, y) = (sub!(a), sub!(b));
                        let s = Z3_mk_sub(c, 2, [x, y].as_ptr());
                        if na.lo >= nb.hi {
                            return s;
                        }
                        let m = self.inum(mask(w) + 1);
                        let u = Z3_mk_add(c, 2, [s, m].as_ptr());
                        Z3_mk_ite(c, Z3_mk_lt(c, x, y), u, s)
                    }
                    BinOp::Mul if cb.is_some() && na.hi.checked_mul(nb.hi).map_or(false, |h| h <= mask64(w)) => {
                        let (x, y) = (sub!(a), sub!(b));
                        Z3_mk_mul(c, 2, [x, y].as_ptr())
                    }
                    BinOp::UDiv if cb.map_or(false, |v| v > 0) => {
                        let (x, y) = (sub!(a), sub!(b));
                        Z3_mk_div(c, x, y)
                    }
                    BinOp::URem if cb.map_or(false, |v| v > 0) => {
                        let (x, y) = (sub!(a), sub!(b));
                        Z3_mk_mod(c, x, y)
                    }
                    BinOp::And if cb.map_or(false, |v| (v + 1).is_power_of_two()) => {
                        let x = sub!(a);
                        Z3_mk_mod(c, x, self.inum(cb.unwrap() + 1))
                    }
                    BinOp::LShr if cb.map_or(false, |v| v < w as u128) => {
                        let x = sub!(a);
                        Z3_mk_div(c, x, self.inum(1u128 << cb.unwrap()))
                    }
                    _ => nul,
                }
            }
        }
    }
    /// The query in integer arithmetic; None if it cannot be expressed or is not settled.
    unsafe fn check_lia(&mut self, ar: &Arena, path: &[E], cond: Option<E>, vals: &mut Vec<u64>) -> Option<Res> {
        for e in path.iter().chain(cond.iter()) {
            if self.it(ar, *e).is_null() {
                if self.slow != u64::MAX {
                    eprintln!("not linear: {}", ar.show(*e, 12));
                }
                return None;
            }
        }
        let s = match self.li.s {
            Some(s) => s,
            None => {
                let s = Z3_mk_simple_solver(self.c);
                Z3_solver_inc_ref(self.c, s);
                let p = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), 10_000.min(self.timeout_ms));
                Z3_solver_set_params(self.c, s, p);
                self.li.s = Some(s);
                s
            }
        };
        let mut k = 0;
        while k < self.li.stack.len() && k < path.len() && self.li.stack[k] == path[k] {
            k += 1;
        }
        if k < self.li.stack.len() {
            Z3_solver_pop(self.c, s, (self.li.stack.len() - k) as c_uint);
            self.li.stack.truncate(k);
        }
        for e in &path[k..] {
            let a = self.it(ar, *e);
            Z3_solver_push(self.c, s);
            Z3_solver_assert(self.c, s, a);
            self.li.stack.push(*e);
        }
        Z3_solver_push(self.c, s);
        for (_, w, x) in &self.li.vars {
            Z3_solver_assert(self.c, s, Z3_mk_ge(self.c, *x, self.inum(0)));
            Z3_solver_assert(self.c, s, Z3_mk_le(self.c, *x, self.inum(mask(*w))));
        }
        for l in &self.li.links {
            Z3_solver_assert(self.c, s, *l);
        }
        if let Some(e) = cond {
            let a = self.it(ar, e);
            Z3_solver_assert(self.c, s, a);
        }
        let r = match Z3_solver_check(self.c, s) {
            1 => {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                vals.clear();
                vals.resize(ar.nvars as usize, 0);
                for (k, _, x) in &self.li.vars {
                    let mut out: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.c, m, *x, true, &mut out) {
                        Z3_get_numeral_uint64(self.c, out, &mut u);
                    }
                    // the full value goes with every part of it
                    if let Some(v) = vals.get_mut(*k as usize) {
                        *v = (*v).max(u);
                    }
                }
                Z3_model_dec_ref(self.c, m);
                Some(Res::Sat)
            }
            -1 => Some(Res::Unsat),
            _ => None,
        };
        Z3_solver_pop(self.c, s, 1);
        r
    }

    /// Is path ∧ cond satisfiable? On Sat fills `vals` (one value per variable).
    pub fn check(&mut self, ar: &Arena, path: &[E], cond: Option<E>, vals: &mut Vec<u64>) -> Res {
        let t0 = Instant::now();
        unsafe {
            if self.lia {
                if let Some(res) = self.check_lia(ar, path, cond, vals) {
                    let ns = t0.elapsed().as_nanos() as u64;
                    self.stats.queries += 1;
                    self.stats.ns += ns;
                    self.stats.max_ns = self.stats.max_ns.max(ns);
                    match res {
                        Res::Sat => self.stats.sat += 1,
                        _ => self.stats.unsat += 1,
                    }
                    return res;
                }
            }
            let mut k = 0;
            while k < self.stack.len() && k < path.len() && self.stack[k] == path[k] {
                k += 1;
            }
            if k < self.stack.len() {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as c_uint);
                self.stack.truncate(k);
            }
            for e in &path[k..] {
                let a = self.tr(ar, *e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(*e);
            }
            if let Some(e) = cond {
                let a = self.tr(ar, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let res = match r {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if res == Res::Unknown {
                let m = CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, self.s));
                eprintln!("rsx: z3 unknown: {m:?}");
            }
            if res == Res::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                vals.clear();
                for i in 0..ar.nvars {
                    let e = ar.var_e.get(i as usize).copied().unwrap_or(0);
                    if e == 0 || (e as usize) >= self.memo.len() || self.memo[e as usize].is_null() {
                        vals.push(0);
                        continue;
                    }
                    let mut out: P = std::ptr::null_mut();
                    let ok = Z3_model_eval(self.c, m, self.memo[e as usize], true, &mut out);
                    let mut u = 0u64;
                    if ok {
                        if ar.w(e) == 1 {
                            u = (Z3_get_bool_value(self.c, out) == 1) as u64;
                        } else {
                            Z3_get_numeral_uint64(self.c, out, &mut u);
                        }
                    }
                    vals.push(u);
                }
                Z3_model_dec_ref(self.c, m);
            }
            if cond.is_some() {
                Z3_solver_pop(self.c, self.s, 1);
            }
            let ns = t0.elapsed().as_nanos() as u64;
            if ns > self.slow {
                eprintln!("SLOW {} ms {:?}", ns / 1000000, res);
                for e in path { eprintln!("   P {}", ar.show(*e, 9)); }
                if let Some(e) = cond { eprintln!("   C {}", ar.show(e, 9)); }
            }
            self.stats.queries += 1;
            self.stats.ns += ns;
            self.stats.max_ns = self.stats.max_ns.max(ns);
            match res {
                Res::Sat => self.stats.sat += 1,
                Res::Unsat => self.stats.unsat += 1,
                Res::Unknown => self.stats.unknown += 1,
            }
            res
        }
    }
}
