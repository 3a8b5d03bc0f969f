//! The symbolic interpreter: states, branching, memory access.

use crate::expr::*;
use crate::ir::*;
use crate::mem::{self, Kind, Mem, Obj, SymWrite};
use crate::solver::{Res, Solver};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(E),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

impl Val {
    pub fn undef() -> Val {
        Val::C(0)
    }
}

#[derive(Debug)]
pub enum End {
    /// path finished normally
    Done,
    /// path contradicts an assumption
    Killed,
    Viol(String, String),
    Err(String),
}
pub type R<T> = Result<T, End>;

pub fn err<T>(s: impl Into<String>) -> R<T> {
    Err(End::Err(s.into()))
}

pub fn err_end(s: &str) -> End {
    End::Err(s.to_string())
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub prev: u32,
    pub ret_d: u32,
    pub ret_to: Option<u32>,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct Input {
    pub kind: u8,
    pub vars: Rc<Vec<E>>,
}

pub struct PNode {
    pub e: E,
    pub next: Option<Rc<PNode>>,
}

pub struct DNode {
    pub d: u8,
    pub next: Option<Rc<DNode>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub path: Option<Rc<PNode>>,
    pub npath: u32,
    pub known: Rc<FxMap<E, bool>>,
    pub dec: Option<Rc<DNode>>,
    pub ndec: u32,
    pub prefix: Rc<Vec<u8>>,
    pub model: Rc<Vec<u64>>,
    pub stamp: u64,
    pub inputs: Rc<Vec<Input>>,
    pub ninput: u32,
    pub logs: Rc<Vec<Val>>,
    pub reached: Rc<Vec<u32>>,
    pub steps: u64,
    pub forks: u32,
    pub inst_vars: Vec<E>,
    pub inst_pos: usize,
    pub conc: Rc<FxMap<E, u64>>,
    pub ret: Val,
    pub env: Rc<crate::env::Env>,
}

pub struct CallInfo<'a> {
    pub name: &'a str,
    pub args: &'a [(TyId, Opd)],
    pub ret: TyId,
}

pub type BF = fn(&mut Eng, &mut State, &[Val], &CallInfo) -> R<Val>;

pub enum Handler {
    Defined,
    /// deallocation-only function: calls are skipped
    Skip,
    Builtin(BF),
    Undefined,
}

#[derive(Default, Clone)]
pub struct Counters {
    pub paths: u64,
    pub killed: u64,
    pub insts: u64,
    pub forks: u64,
    pub decisions: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub model_hits: u64,
    pub known_hits: u64,
    pub max_path_insts: u64,
    pub conc: u64,
}

pub struct Cfg {
    pub max_steps: u64,
    pub trace: bool,
    pub lia: bool,
    pub bv: bool,
    /// fork on choices between 64-bit values
    pub split: bool,
}

pub struct Eng {
    pub m: Arc<Module>,
    pub handlers: Rc<Vec<Handler>>,
    pub ar: Arena,
    pub sol: Solver,
    pub split: bool,
    pub consts: Vec<Val>,
    pub stack: Vec<State>,
    pub cnt: Counters,
    pub next_stamp: u64,
    pub labels: Vec<String>,
    pub unknown: bool,
    pub covered: Vec<bool>,
    pub blocks_cov: Vec<Vec<bool>>,
    /// the state after a warm-up that took no decisions; jobs start from it
    pub warm: Option<State>,
    pub fork_sites: FxMap<(u32, u32), u64>,
    pub dec_sites: FxMap<(u32, u32), u64>,
    pub prof: bool,
    pub cfg: Cfg,
    pub stop: Arc<std::sync::atomic::AtomicBool>,
    path_buf: Vec<E>,
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

impl Eng {
    pub fn new(m: Arc<Module>, handlers: Vec<Handler>, timeout_ms: u32, cfg: Cfg, stop: Arc<std::sync::atomic::AtomicBool>) -> Self {
        let consts = m.consts.iter().map(const_val).collect();
        let n = m.funcs.len();
        let blocks_cov = m.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
        Eng {
            m,
            handlers: Rc::new(handlers),
            ar: Arena::new(),
            split: cfg.split,
            sol: Solver::new(timeout_ms, cfg.lia, cfg.bv),
            consts,
            stack: vec![],
            cnt: Counters::default(),
            next_stamp: 1,
            labels: vec![],
            unknown: false,
            covered: vec![false; n],
            blocks_cov,
            warm: None,
            fork_sites: FxMap::default(),
            dec_sites: FxMap::default(),
            prof: false,
            cfg,
            stop,
            path_buf: vec![],
        }
    }

    pub fn label_id(&mut self, l: &str) -> u32 {
        if let Some(i) = self.labels.iter().position(|x| x == l) {
            return i as u32;
        }
        self.labels.push(l.to_string());
        self.labels.len() as u32 - 1
    }

    pub fn stamp(&mut self) -> u64 {
        self.next_stamp += 1;
        self.next_stamp
    }

    // ------------------------------------------------------------ values

    pub fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.ar.c(*x as u128, w),
            Val::W(x) => self.ar.c(**x, w),
            Val::E(e) => *e,
            Val::A(_) => {
                // flatten a vector (element 0 is least significant)
                let mut acc: Option<E> = None;
                let l = match v {
                    Val::A(l) => l.clone(),
                    _ => unreachable!(),
                };
                let ew = w / l.len() as u32;
                for x in l.iter() {
                    let e = self.e(x, ew);
                    acc = Some(match acc {
                        None => e,
                        Some(lo) => self.ar.concat(e, lo),
                    });
                }
                acc.unwrap()
            }
        }
    }
    pub fn v(&self, e: E) -> Val {
        match self.ar.cst(e) {
            Some(x) if self.ar.w(e) <= 64 => Val::C(x as u64),
            Some(x) => Val::W(Rc::new(x)),
            None => Val::E(e),
        }
    }
    pub fn wide(v: &Val) -> Option<u128> {
        match v {
            Val::C(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }
    pub fn from_wide(x: u128, w: u32) -> Val {
        if w <= 64 {
            Val::C(x as u64)
        } else {
            Val::W(Rc::new(x))
        }
    }

    // ------------------------------------------------------------ decisions

    fn path_vec(&mut self, st: &State) {
        self.path_buf.clear();
        let mut n = st.path.as_ref();
        while let Some(p) = n {
            self.path_buf.push(p.e);
            n = p.next.as_ref();
        }
        self.path_buf.reverse();
    }

    pub fn query(&mut self, st: &State, c: Option<E>, vals: &mut Vec<u64>) -> Res {
        self.path_vec(st);
        let pb = std::mem::take(&mut self.path_buf);
        let r = self.sol.check(&self.ar, &pb, c, vals);
        self.path_buf = pb;
        if r == Res::Unknown {
            self.unknown = true;
        }
        r
    }

    pub fn add_path(&mut self, st: &mut State, c: E) {
        // split conjunctions so that the known map sees the parts
        if let N::Bin(BinOp::And, a, b) = self.ar.node(c).n {
            self.add_path(st, a);
            self.add_path(st, b);
            return;
        }
        st.path = Some(Rc::new(PNode { e: c, next: st.path.take() }));
        st.npath += 1;
        self.learn(st, c);
    }

    fn learn(&mut self, st: &mut State, c: E) {
        let k = Rc::make_mut(&mut st.known);
        match self.ar.node(c).n {
            N::Not(x) => {
                k.insert(x, false);
            }
            _ => {
                k.insert(c, true);
            }
        }
    }

    pub fn eval(&mut self, st: &State, e: E) -> u128 {
        self.ar.eval(e, &st.model, st.stamp)
    }

    fn known(&self, st: &State, c: E) -> Option<bool> {
        match self.ar.node(c).n {
            N::C(v) => Some(v == 1),
            N::Not(x) => self.known(st, x).map(|b| !b),
            N::Bin(BinOp::And, a, b) => {
                if let Some(r) = st.known.get(&c) {
                    return Some(*r);
                }
                match (self.known(st, a), self.known(st, b)) {
                    (Some(false), _) | (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                }
            }
            N::Bin(BinOp::Or, a, b) => {
                if let Some(r) = st.known.get(&c) {
                    return Some(*r);
                }
                match (self.known(st, a), self.known(st, b)) {
                    (Some(true), _) | (_, Some(true)) => Some(true),
                    (Some(false), Some(false)) => Some(false),
                    _ => None,
                }
            }
            _ => st.known.get(&c).copied(),
        }
    }

    /// The branch taken for condition c in this state; may fork the other side off.
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.ar.cst(c) {
            return Ok(v == 1);
        }
        if let Some(b) = self.known(st, c) {
            self.cnt.known_hits += 1;
            return Ok(b);
        }
        self.cnt.decisions += 1;
        if self.prof {
            if let Some(f) = st.frames.last() {
                *self.dec_sites.entry((f.f, f.blk)).or_insert(0) += 1;
            }
        }
        let nc = self.ar.not(c);
        // six bits of the condition's structural hash go with every decision
        let tag = ((self.ar.node(c).h >> 40) as u8) & !3;
        // replay of an exported prefix
        if (st.ndec as usize) < st.prefix.len() {
            let d = st.prefix[st.ndec as usize];
            if d & !3 != tag {
                return err("a replayed prefix met a different decision");
            }
            let b = d & 1 == 1;
            st.dec = Some(Rc::new(DNode { d, next: st.dec.take() }));
            st.ndec += 1;
            let t = if b { c } else { nc };
            if d & 2 != 0 {
                self.add_path(st, t);
            } else {
                self.learn(st, t);
            }
            if st.ndec as usize == st.prefix.len() {
                let mut vals = vec![];
                match self.query(st, None, &mut vals) {
                    Res::Sat => {
                        st.model = Rc::new(vals);
                        st.stamp = self.stamp();
                    }
                    Res::Unsat => return err("replayed prefix is infeasible"),
                    Res::Unknown => return Err(End::Killed),
                }
            }
            return Ok(b);
        }
        let b = self.eval(st, c) == 1;
        let (t, o) = if b { (c, nc) } else { (nc, c) };
        let mut vals = vec![];
        match self.query(st, Some(o), &mut vals) {
            Res::Unsat | Res::Unknown => {
                st.dec = Some(Rc::new(DNode { d: tag | b as u8, next: st.dec.take() }));
                st.ndec += 1;
                self.learn(st, t);
                Ok(b)
            }
            Res::Sat => {
                self.cnt.forks += 1;
                if let Some(f) = st.frames.last() {
                    *self.fork_sites.entry((f.f, f.blk)).or_insert(0) += 1;
                }
                let mut other = st.clone();
                other.forks += 1;
                other.dec = Some(Rc::new(DNode { d: tag | 2 | !b as u8, next: other.dec.take() }));
                other.ndec += 1;
                other.model = Rc::new(vals);
                other.stamp = self.stamp();
                other.inst_pos = 0;
                self.add_path(&mut other, o);
                self.stack.push(other);
                st.forks += 1;
                st.dec = Some(Rc::new(DNode { d: tag | 2 | b as u8, next: st.dec.take() }));
                st.ndec += 1;
                self.add_path(st, t);
                Ok(b)
            }
        }
    }

    pub fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(v) = self.ar.cst(c) {
            return if v == 1 { Ok(()) } else { Err(End::Killed) };
        }
        if let Some(b) = self.known(st, c) {
            return if b { Ok(()) } else { Err(End::Killed) };
        }
        if (st.ndec as usize) < st.prefix.len() {
            self.add_path(st, c);
            return Ok(());
        }
        if self.eval(st, c) != 1 {
            let mut vals = vec![];
            match self.query(st, Some(c), &mut vals) {
                Res::Sat => {
                    st.model = Rc::new(vals);
                    st.stamp = self.stamp();
                }
                _ => return Err(End::Killed),
            }
        }
        self.add_path(st, c);
        Ok(())
    }

    pub fn check(&mut self, st: &mut State, c: E, label: &str) -> R<()> {
        self.cnt.checks += 1;
        if let Some(v) = self.ar.cst(c) {
            self.cnt.checks_const += 1;
            return if v == 1 { Ok(()) } else { Err(End::Viol("check".into(), label.into())) };
        }
        if let Some(b) = self.known(st, c) {
            return if b { Ok(()) } else { Err(End::Viol("check".into(), label.into())) };
        }
        if (st.ndec as usize) < st.prefix.len() {
            // decided when the prefix was first explored
            self.learn(st, c);
            return Ok(());
        }
        self.cnt.checks_solver += 1;
        if self.eval(st, c) != 1 {
            return Err(End::Viol("check".into(), label.into()));
        }
        let nc = self.ar.not(c);
        let mut vals = vec![];
        match self.query(st, Some(nc), &mut vals) {
            Res::Unsat => {
                self.learn(st, c);
                Ok(())
            }
            Res::Unknown => Ok(()),
            Res::Sat => {
                st.model = Rc::new(vals);
                st.stamp = self.stamp();
                Err(End::Viol("check".into(), label.into()))
            }
        }
    }

    /// A concrete value for v (forking over the feasible ones).
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        let e = match v {
            Val::C(x) => return Ok(*x),
            Val::E(e) => *e,
            Val::W(x) => return Ok(**x as u64),
            Val::A(_) => return err("concretize aggregate"),
        };
        let _ = w;
        if let Some(x) = st.conc.get(&e) {
            return Ok(*x);
        }
        self.cnt.conc += 1;
        if self.ar.node(e).leaves > 0 {
            let mut e = e;
            let e0 = e;
            while let N::Ite(c, a, b) = self.ar.node(e).n {
                e = if self.decide(st, c)? { a } else { b };
            }
            let x = self.ar.cst(e).unwrap() as u64;
            Rc::make_mut(&mut st.conc).insert(e0, x);
            return Ok(x);
        }
        let ew = self.ar.w(e);
        for i in 0..5000u32 {
            let x = if (st.ndec as usize) < st.prefix.len() {
                // the value tried is not determined by the model during replay: use the stored order
                self.replay_value(st, e, i)?
            } else {
                self.eval(st, e) as u64
            };
            let k = self.ar.c(x as u128, ew);
            let c = self.ar.eq(e, k);
            if (st.ndec as usize) >= st.prefix.len() {
                // the candidate is part of the decision string so that it can be replayed
                self.push_value(st, x);
            }
            if self.decide(st, c)? {
                Rc::make_mut(&mut st.conc).insert(e, x);
                return Ok(x);
            }
        }
        err("too many values for a symbolic size or address")
    }

    fn push_value(&mut self, st: &mut State, x: u64) {
        for i in 0..8 {
            st.dec = Some(Rc::new(DNode { d: (x >> (8 * i)) as u8, next: st.dec.take() }));
        }
        st.ndec += 8;
    }
    fn replay_value(&mut self, st: &mut State, _e: E, _i: u32) -> R<u64> {
        let p = st.ndec as usize;
        if p + 8 > st.prefix.len() {
            return err("prefix replay out of step");
        }
        let mut x = 0u64;
        for i in 0..8 {
            x |= (st.prefix[p + i] as u64) << (8 * i);
        }
        self.push_value(st, x);
        Ok(x)
    }

    /// A fresh symbolic input, stable when the instruction is re-executed after a fork.
    pub fn fresh(&mut self, st: &mut State, w: u32, kind: u8) -> E {
        if st.inst_pos < st.inst_vars.len() {
            st.inst_pos += 1;
            return st.inst_vars[st.inst_pos - 1];
        }
        let e = self.ar.var(st.ninput, w);
        st.ninput += 1;
        Rc::make_mut(&mut st.inputs).push(Input { kind, vars: Rc::new(vec![e]) });
        st.inst_vars.push(e);
        st.inst_pos += 1;
        e
    }

    /// The same, a byte in lo..=hi (the expression knows its bounds).
    pub fn fresh_in(&mut self, st: &mut State, lo: u64, hi: u64) -> R<E> {
        if st.inst_pos < st.inst_vars.len() {
            st.inst_pos += 1;
            return Ok(st.inst_vars[st.inst_pos - 1]);
        }
        let (e, a, b) = self.ar.var_in(st.ninput, 8, lo, hi);
        self.assume(st, a)?;
        self.assume(st, b)?;
        st.ninput += 1;
        Rc::make_mut(&mut st.inputs).push(Input { kind: 0, vars: Rc::new(vec![e]) });
        st.inst_vars.push(e);
        st.inst_pos += 1;
        Ok(e)
    }

    // ------------------------------------------------------------ memory

    pub fn alloc(&mut self, st: &mut State, size: u64, kind: Kind) -> R<u64> {
        if size > (1 << 31) {
            return err(format!("allocation of {size} bytes"));
        }
        match st.mem.alloc(Obj::new(size as usize, kind)) {
            Ok(id) => Ok((id as u64) << 32),
            Err(e) => err(e),
        }
    }

    #[inline]
    fn obj<'a>(&self, st: &'a State, addr: u64, n: u64, what: &str) -> R<(&'a Obj, usize)> {
        let id = (addr >> 32) as u32;
        let off = addr & 0xffff_ffff;
        match st.mem.get(id) {
            Some(o) if o.live => {
                if off + n <= o.size() {
                    Ok((o, off as usize))
                } else {
                    Err(End::Viol("memory".into(), format!("{what} of {n} bytes at offset {off} of an object of {} bytes", o.size())))
                }
            }
            Some(_) => Err(End::Viol("memory".into(), format!("{what} of freed memory"))),
            None => Err(End::Viol("memory".into(), format!("{what} at invalid address {addr:#x}"))),
        }
    }

    pub fn check_range(&self, st: &State, addr: u64, n: u64, what: &str) -> R<()> {
        self.obj(st, addr, n, what).map(|_| ())
    }

    /// n (1..=16) bytes at a concrete address as one value of width 8n
    pub fn load_int(&mut self, st: &mut State, addr: u64, n: u32) -> R<Val> {
        if n == 0 {
            return Ok(Val::C(0));
        }
        let (o, off) = self.obj(st, addr, n as u64, "read")?;
        if o.wlog.is_empty() {
            let k = n as usize;
            if !o.has_sym(off, k) {
                if k <= 8 {
                    let mut b = [0u8; 8];
                    b[..k].copy_from_slice(&o.data[off..off + k]);
                    return Ok(Val::C(u64::from_le_bytes(b)));
                }
                let mut b = [0u8; 16];
                b[..k].copy_from_slice(&o.data[off..off + k]);
                return Ok(Self::from_wide(u128::from_le_bytes(b), n * 8));
            }
            let mut tmp = [(0u8, 0u32); 16];
            for i in 0..k {
                tmp[i] = (o.data[off + i], o.sym[off + i]);
            }
            return Ok(self.join(&tmp[..k]));
        }
        let oe = mem::Opd::C(off as u64);
        let id = (addr >> 32) as u32;
        self.load_wlog(st, id, oe, n)
    }

    fn join(&mut self, b: &[(u8, E)]) -> Val {
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < b.len() {
            let (d, s) = b[i];
            let mut e = if s != 0 { s } else { self.ar.c(d as u128, 8) };
            i += 1;
            // consecutive bytes of one value
            if let N::Extract(x, lo) = self.ar.node(e).n {
                let mut n = 1;
                while i < b.len() && b[i].1 != 0 && self.ar.node(b[i].1).n == N::Extract(x, lo + 8 * n) {
                    n += 1;
                    i += 1;
                }
                if n > 1 {
                    e = self.ar.extract(x, lo, 8 * n);
                    if i < b.len() && lo == 0 && self.ar.w(x) <= 64 && b[i..].iter().all(|(d, s)| *s == 0 && *d == 0) && self.ar.node(x).hi >> (8 * n).min(63) == 0 {
                        let r = b.len() as u32 * 8;
                        if r == self.ar.w(x) && acc.is_none() {
                            e = x;
                            i = b.len();
                        }
                    }
                }
            }
            acc = Some(match acc {
                None => e,
                Some(lo) => self.ar.concat(e, lo),
            });
        }
        let e = acc.unwrap();
        self.v(e)
    }

    fn off_e(&mut self, o: mem::Opd) -> E {
        match o {
            mem::Opd::C(x) => self.ar.c(x as u128, 64),
            mem::Opd::E(e) => e,
        }
    }

    /// Relation of two accesses: Some(Some(cond)) same slot iff cond, Some(None) never overlap,
    /// None: cannot tell.
    fn relation(&mut self, a: mem::Opd, an: u32, b: mem::Opd, bn: u32) -> Option<Option<E>> {
        let (ea, eb) = (self.off_e(a), self.off_e(b));
        let (ka, ta) = self.ar.linear(ea);
        let (kb, tb) = self.ar.linear(eb);
        let mut terms: Vec<(E, u64)> = vec![];
        for (c, t) in ta {
            match terms.iter_mut().find(|x| x.0 == t) {
                Some(x) => x.1 = x.1.wrapping_add(c),
                None => terms.push((t, c)),
            }
        }
        for (c, t) in tb {
            match terms.iter_mut().find(|x| x.0 == t) {
                Some(x) => x.1 = x.1.wrapping_sub(c),
                None => terms.push((t, 0u64.wrapping_sub(c))),
            }
        }
        terms.retain(|x| x.1 != 0);
        let k = ka.wrapping_sub(kb) as i64;
        if terms.is_empty() {
            if k == 0 && an == bn {
                return Some(Some(self.ar.tru()));
            }
            if k >= bn as i64 || -k >= an as i64 {
                return Some(None);
            }
            return None;
        }
        let mut g = 0u64;
        for (_, c) in &terms {
            let m = (*c as i64).unsigned_abs();
            g = gcd(g, m);
        }
        if g < 2 {
            return None;
        }
        let m = k.rem_euclid(g as i64) as u64;
        if m == 0 && an == bn && g >= an as u64 {
            let c = self.ar.eq(ea, eb);
            return Some(Some(c));
        }
        // a starts m after a multiple-of-g distance from b
        if m >= bn as u64 && g - m >= an as u64 {
            return Some(None);
        }
        None
    }

    fn base_load(&mut self, st: &mut State, id: u32, off: mem::Opd, n: u32) -> R<Val> {
        match off {
            mem::Opd::C(o) => {
                let ob = st.mem.get(id).unwrap().clone();
                let o = o as usize;
                if !ob.has_sym(o, n as usize) {
                    let mut b = [0u8; 16];
                    b[..n as usize].copy_from_slice(&ob.data[o..o + n as usize]);
                    return Ok(Self::from_wide(u128::from_le_bytes(b), n * 8));
                }
                let tmp: Vec<(u8, E)> = (0..n as usize).map(|i| (ob.data[o + i], ob.sym[o + i])).collect();
                Ok(self.join(&tmp))
            }
            mem::Opd::E(e) => self.table(st, id, e, n),
        }
    }

    fn load_wlog(&mut self, st: &mut State, id: u32, off: mem::Opd, n: u32) -> R<Val> {
        let ob = st.mem.get(id).unwrap().clone();
        // newest first, stop at a certain hit
        let mut conds: Vec<(E, Val)> = vec![];
        let mut hit = None;
        for w in ob.wlog.iter().rev() {
            match self.relation(off, n, w.off, w.n) {
                Some(None) => {}
                Some(Some(c)) => {
                    if self.ar.cst(c) == Some(1) || self.known(st, c) == Some(true) {
                        hit = Some(w.val.clone());
                        break;
                    }
                    if self.ar.cst(c) == Some(0) || self.known(st, c) == Some(false) {
                        continue;
                    }
                    conds.push((c, w.val.clone()));
                }
                None => return err("overlapping symbolic writes of different shapes"),
            }
        }
        let mut r = match hit {
            Some(v) => v,
            None => self.base_load(st, id, off, n)?,
        };
        for (c, v) in conds.into_iter().rev() {
            let x = self.e(&v, n * 8);
            let y = self.e(&r, n * 8);
            let z = self.ar.ite(c, x, y);
            r = self.v(z);
        }
        Ok(r)
    }

    /// Load of n bytes at a symbolic offset (already known to be in bounds), ignoring the write log.
    fn table(&mut self, st: &mut State, id: u32, off: E, n: u32) -> R<Val> {
        let ob = st.mem.get(id).unwrap().clone();
        let size = ob.size();
        let (k, terms) = self.ar.linear(off);
        let mut g = 0u64;
        for (c, _) in &terms {
            g = gcd(g, (*c as i64).unsigned_abs());
        }
        if g == 0 {
            g = 1;
        }
        let nd = *self.ar.node(off);
        let first = k % g;
        let mut cands: Vec<u64> = vec![];
        let mut o = first;
        if nd.lo > o {
            o += (nd.lo - o + g - 1) / g * g;
        }
        while o + n as u64 <= size && o <= nd.hi {
            cands.push(o);
            if cands.len() > 65536 {
                return err("symbolic table too large");
            }
            o += g;
        }
        if cands.is_empty() {
            return Err(End::Killed);
        }
        // runs of equal values
        let mut runs: Vec<(u64, Val)> = vec![]; // (last offset of run, value)
        let symbolic = !ob.sym.is_empty();
        if symbolic && cands.len() > 300 {
            return err("symbolic read of a large symbolic object");
        }
        let mut prev: Option<E> = None;
        for o in cands {
            let v = self.base_load(st, id, mem::Opd::C(o), n)?;
            let e = self.e(&v, n * 8);
            if prev == Some(e) {
                runs.last_mut().unwrap().0 = o;
            } else {
                runs.push((o, v));
                prev = Some(e);
            }
        }
        if runs.len() > 300 {
            return err("symbolic table with too many distinct runs");
        }
        let e = self.run_tree(&runs, off, n * 8);
        Ok(self.v(e))
    }
    fn run_tree(&mut self, runs: &[(u64, Val)], off: E, w: u32) -> E {
        if runs.len() == 1 {
            return self.e(&runs[0].1, w);
        }
        let m = runs.len() / 2;
        let l = self.run_tree(&runs[..m], off, w);
        let r = self.run_tree(&runs[m..], off, w);
        let b = self.ar.c(runs[m - 1].0 as u128 + 1, 64);
        let c = self.ar.ult(off, b);
        self.ar.ite(c, l, r)
    }

    /// Resolve a pointer to (object, offset) with the access in bounds.
    pub fn resolve(&mut self, st: &mut State, p: &Val, n: u64, what: &str) -> R<(u32, mem::Opd)> {
        let mut e = match p {
            Val::C(a) => {
                self.obj(st, *a, n, what)?;
                return Ok(((*a >> 32) as u32, mem::Opd::C(*a & 0xffff_ffff)));
            }
            Val::E(e) => *e,
            _ => return err("pointer is not a scalar"),
        };
        // choose among pointers
        loop {
            match self.ar.node(e).n {
                N::Ite(c, a, b) => e = if self.decide(st, c)? { a } else { b },
                N::Bin(BinOp::Add, a, b) => {
                    if let N::Ite(c, x, y) = self.ar.node(a).n {
                        let z = if self.decide(st, c)? { x } else { y };
                        e = self.ar.bin(BinOp::Add, z, b);
                    } else if let N::Ite(c, x, y) = self.ar.node(b).n {
                        // only split when the pointer (not the index) is the choice
                        if self.ar.node(b).hi >> 32 == 0 {
                            break;
                        }
                        let z = if self.decide(st, c)? { x } else { y };
                        e = self.ar.bin(BinOp::Add, a, z);
                    } else {
                        break;
                    }
                }
                _ => break,
            }
        }
        if let Some(a) = self.ar.cst(e) {
            self.obj(st, a as u64, n, what)?;
            return Ok(((a >> 32) as u32, mem::Opd::C(a as u64 & 0xffff_ffff)));
        }
        let (k, _) = self.ar.linear(e);
        let mut id = (k >> 32) as u32;
        if st.mem.get(id).is_none() {
            id = id.wrapping_add(1); // small negative constant
        }
        // the first guess is by shape, later ones are what a model of the path gives
        let mut off = e;
        let mut tried = vec![];
        for round in 0..9 {
            let guess = round == 0;
            if (guess && st.mem.get(id).is_none()) || !guess {
                let x = if (st.ndec as usize) < st.prefix.len() {
                    self.replay_value(st, e, 0)?
                } else {
                    let x = self.eval(st, e) as u64;
                    self.push_value(st, x);
                    x
                };
                id = (x >> 32) as u32;
                if tried.contains(&id) {
                    return Err(End::Viol("memory".into(), format!("{what} at a symbolic offset outside an object")));
                }
            }
            let (size, live) = match st.mem.get(id) {
                Some(o) => (o.size(), o.live),
                None => return Err(End::Viol("memory".into(), format!("{what} through a wild symbolic pointer"))),
            };
            if size < n {
                if guess {
                    continue;
                }
                return Err(End::Viol("memory".into(), format!("{what} beyond an object of {size} bytes")));
            }
            let base = self.ar.c((id as u128) << 32, 64);
            off = self.ar.bin(BinOp::Sub, e, base);
            let lim = self.ar.c((size - n + 1) as u128, 64);
            let inb = self.ar.ult(off, lim);
            if self.decide(st, inb)? {
                if !live {
                    return Err(End::Viol("memory".into(), format!("{what} of freed memory")));
                }
                break;
            }
            tried.push(id);
            if round == 8 {
                return err("a pointer to one of many objects");
            }
        }
        match self.ar.cst(off) {
            Some(x) => Ok((id, mem::Opd::C(x as u64))),
            None => Ok((id, mem::Opd::E(off))),
        }
    }

    pub fn load_bits(&mut self, st: &mut State, p: &Val, n: u32) -> R<Val> {
        if let Val::C(a) = p {
            return self.load_int(st, *a, n);
        }
        if let Val::E(e) = p {
            // a choice among many places in one object that hold the same value
            let (t, k) = self.ar.split_add(*e);
            let nd = *self.ar.node(t);
            let k = k as u64;
            let (lo, hi) = (nd.lo.wrapping_add(k), nd.hi.wrapping_add(k));
            if nd.leaves > 4 && nd.leaves <= 256 && lo >> 32 == hi >> 32 && lo <= hi {
                let id = (lo >> 32) as u32;
                let ok = match st.mem.get(id) {
                    Some(o) => o.live && o.wlog.is_empty() && (hi & 0xffff_ffff) + n as u64 <= o.size() as u64,
                    None => false,
                };
                if ok {
                    let mut leaves = vec![];
                    self.ar.leaf_values(t, &mut leaves);
                    let mut all: Option<E> = None;
                    let mut same = true;
                    for l in leaves {
                        let o = l.wrapping_add(k) & 0xffff_ffff;
                        let v = self.base_load(st, id, mem::Opd::C(o), n)?;
                        let x = self.e(&v, n * 8);
                        if *all.get_or_insert(x) != x {
                            same = false;
                            break;
                        }
                    }
                    if let (true, Some(x)) = (same, all) {
                        return Ok(self.v(x));
                    }
                }
            }
        }
        let (id, off) = self.resolve(st, p, n as u64, "read")?;
        match off {
            mem::Opd::C(o) => self.load_int(st, ((id as u64) << 32) | o, n),
            mem::Opd::E(_) => {
                if st.mem.get(id).unwrap().wlog.is_empty() {
                    self.base_load(st, id, off, n)
                } else {
                    self.load_wlog(st, id, off, n)
                }
            }
        }
    }

    pub fn store_bits(&mut self, st: &mut State, p: &Val, v: &Val, n: u32) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (id, off) = match p {
            Val::C(a) => {
                self.obj(st, *a, n as u64, "write")?;
                ((*a >> 32) as u32, mem::Opd::C(*a & 0xffff_ffff))
            }
            _ => self.resolve(st, p, n as u64, "write")?,
        };
        let ob = st.mem.get_mut(id).unwrap();
        if ob.ro {
            return Err(End::Viol("memory".into(), "write to constant data".into()));
        }
        match off {
            mem::Opd::C(o) if ob.wlog.is_empty() => {
                let o = o as usize;
                let k = n as usize;
                match v {
                    Val::C(x) => {
                        if k <= 8 {
                            ob.data[o..o + k].copy_from_slice(&x.to_le_bytes()[..k]);
                        } else {
                            ob.data[o..o + k].copy_from_slice(&(*x as u128).to_le_bytes()[..k]);
                        }
                        if !ob.sym.is_empty() {
                            ob.sym[o..o + k].fill(0);
                        }
                    }
                    Val::W(x) => {
                        ob.data[o..o + k].copy_from_slice(&x.to_le_bytes()[..k]);
                        if !ob.sym.is_empty() {
                            ob.sym[o..o + k].fill(0);
                        }
                    }
                    Val::E(e) => {
                        if ob.sym.is_empty() {
                            ob.sym = vec![0; ob.data.len()];
                        }
                        let w = self.ar.w(*e);
                        let full = if w < n * 8 { self.ar.zext(*e, n * 8) } else { *e };
                        for i in 0..k {
                            let b = self.ar.extract(full, 8 * i as u32, 8);
                            match self.ar.cst(b) {
                                Some(c) => {
                                    ob.data[o + i] = c as u8;
                                    ob.sym[o + i] = 0;
                                }
                                None => ob.sym[o + i] = b,
                            }
                        }
                    }
                    Val::A(_) => return err("store of aggregate bits"),
                }
                Ok(())
            }
            off => {
                if ob.wlog.len() > 4000 {
                    return err("too many symbolic writes");
                }
                ob.wlog.push(SymWrite { off, n, val: v.clone() });
                Ok(())
            }
        }
    }

    pub fn load(&mut self, st: &mut State, p: &Val, ty: TyId) -> R<Val> {
        let m = self.m.clone();
        let ti = m.ty(ty);
        match &ti.ty {
            Ty::Int(w) => {
                let v = self.load_bits(st, p, ti.size as u32)?;
                if w % 8 != 0 {
                    return Ok(self.trunc(&v, ti.size as u32 * 8, *w));
                }
                Ok(v)
            }
            Ty::Ptr | Ty::Double => self.load_bits(st, p, 8),
            Ty::Float => self.load_bits(st, p, 4),
            Ty::Array(n, e) => {
                let es = alloc_size(m.ty(*e));
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    let q = self.padd(p, i * es);
                    v.push(self.load(st, &q, *e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vector(n, e) => {
                if let Ty::Int(1) = m.ty(*e).ty {
                    return err("load of i1 vector");
                }
                let es = m.ty(*e).size;
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 {
                    let q = self.padd(p, i * es);
                    v.push(self.load(st, &q, *e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(_, fs) => {
                let mut v = Vec::with_capacity(fs.len());
                for (i, f) in fs.iter().enumerate() {
                    let q = self.padd(p, ti.offsets[i]);
                    v.push(self.load(st, &q, *f)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => err(format!("load of {t:?}")),
        }
    }
    pub fn padd(&mut self, p: &Val, k: u64) -> Val {
        match p {
            Val::C(a) => Val::C(a.wrapping_add(k)),
            Val::E(e) => {
                let c = self.ar.c(k as u128, 64);
                let r = self.ar.bin(BinOp::Add, *e, c);
                self.v(r)
            }
            _ => Val::C(0),
        }
    }
    pub fn store(&mut self, st: &mut State, p: &Val, v: &Val, ty: TyId) -> R<()> {
        let m = self.m.clone();
        let ti = m.ty(ty);
        match &ti.ty {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => self.store_bits(st, p, v, ti.size as u32),
            Ty::Array(_, e) => {
                let es = alloc_size(m.ty(*e));
                if let Val::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        let q = self.padd(p, i as u64 * es);
                        self.store(st, &q, x, *e)?;
                    }
                }
                Ok(())
            }
            Ty::Vector(_, e) => {
                let es = m.ty(*e).size;
                if let Val::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        let q = self.padd(p, i as u64 * es);
                        self.store(st, &q, x, *e)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(_, fs) => {
                if let Val::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        let q = self.padd(p, ti.offsets[i]);
                        self.store(st, &q, x, fs[i])?;
                    }
                }
                Ok(())
            }
            t => err(format!("store of {t:?}")),
        }
    }

    /// memmove of a concrete number of bytes
    pub fn copy(&mut self, st: &mut State, d: &Val, s: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.resolve(st, s, n, "read")?;
        let (di, do_) = self.resolve(st, d, n, "write")?;
        let (so, do_) = match (so, do_) {
            (mem::Opd::C(a), mem::Opd::C(b)) => (a as usize, b as usize),
            _ => {
                // symbolic addresses: element-wise for small sizes
                if n <= 16 {
                    let v = self.load_bits(st, s, n as u32)?;
                    return self.store_bits(st, d, &v, n as u32);
                }
                // pick values for the addresses
                let a = self.concretize(st, s, 64)?;
                let b = self.concretize(st, d, 64)?;
                return self.copy(st, &Val::C(b), &Val::C(a), n);
            }
        };
        let k = n as usize;
        let src = st.mem.get(si).unwrap().clone();
        if !src.wlog.is_empty() {
            if so == 0 && n == src.size() {
                let dst = st.mem.get_mut(di).unwrap();
                if dst.ro {
                    return Err(End::Viol("memory".into(), "write to constant data".into()));
                }
                if !dst.wlog.is_empty() && n != dst.size() {
                    return err("copy over symbolic writes");
                }
                dst.wlog.clear();
                dst.data[do_..do_ + k].copy_from_slice(&src.data);
                if !src.sym.is_empty() {
                    if dst.sym.is_empty() {
                        dst.sym = vec![0; dst.data.len()];
                    }
                    dst.sym[do_..do_ + k].copy_from_slice(&src.sym);
                } else if !dst.sym.is_empty() {
                    dst.sym[do_..do_ + k].fill(0);
                }
                let log = src.wlog.clone();
                for w in log {
                    let off = match w.off {
                        mem::Opd::C(x) => mem::Opd::C(x + do_ as u64),
                        mem::Opd::E(e) => {
                            let c = self.ar.c(do_ as u128, 64);
                            mem::Opd::E(self.ar.bin(BinOp::Add, e, c))
                        }
                    };
                    st.mem.get_mut(di).unwrap().wlog.push(SymWrite { off, n: w.n, val: w.val });
                }
                return Ok(());
            }
            // piecewise through 8-byte loads
            let mut vals = vec![];
            let mut o = 0u64;
            while o < n {
                let c = (n - o).min(8) as u32;
                let c = if c == 8 { 8 } else { 1 };
                let v = self.load_int(st, ((si as u64) << 32) | (so as u64 + o), c)?;
                vals.push((o, c, v));
                o += c as u64;
            }
            for (o, c, v) in vals {
                self.store_bits(st, &Val::C(((di as u64) << 32) | (do_ as u64 + o)), &v, c)?;
            }
            return Ok(());
        }
        if !st.mem.get(di).unwrap().wlog.is_empty() {
            let dsz = st.mem.get(di).unwrap().size();
            if n != dsz {
                let mut o = 0u64;
                while o < n {
                    let c: u32 = if n - o >= 8 { 8 } else { 1 };
                    let v = self.load_int(st, ((si as u64) << 32) | (so as u64 + o), c)?;
                    self.store_bits(st, &Val::C(((di as u64) << 32) | (do_ as u64 + o)), &v, c)?;
                    o += c as u64;
                }
                return Ok(());
            }
            st.mem.get_mut(di).unwrap().wlog.clear();
        }
        if si == di {
            let dst = st.mem.get_mut(di).unwrap();
            if dst.ro {
                return Err(End::Viol("memory".into(), "write to constant data".into()));
            }
            dst.data.copy_within(so..so + k, do_);
            if !dst.sym.is_empty() {
                dst.sym.copy_within(so..so + k, do_);
            }
            return Ok(());
        }
        let dst = st.mem.get_mut(di).unwrap();
        if dst.ro {
            return Err(End::Viol("memory".into(), "write to constant data".into()));
        }
        dst.data[do_..do_ + k].copy_from_slice(&src.data[so..so + k]);
        if src.has_sym(so, k) {
            if dst.sym.is_empty() {
                dst.sym = vec![0; dst.data.len()];
            }
            dst.sym[do_..do_ + k].copy_from_slice(&src.sym[so..so + k]);
        } else if !dst.sym.is_empty() {
            dst.sym[do_..do_ + k].fill(0);
        }
        Ok(())
    }

    pub fn fill(&mut self, st: &mut State, d: &Val, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, off) = self.resolve(st, d, n, "write")?;
        let off = match off {
            mem::Opd::C(o) => o as usize,
            _ => {
                let a = self.concretize(st, d, 64)?;
                return self.fill(st, &Val::C(a), v, n);
            }
        };
        let full = n == st.mem.get(di).unwrap().size();
        let dst = st.mem.get_mut(di).unwrap();
        if dst.ro {
            return Err(End::Viol("memory".into(), "write to constant data".into()));
        }
        if !dst.wlog.is_empty() {
            if full {
                dst.wlog.clear();
            } else {
                return err("memset over symbolic writes");
            }
        }
        let k = n as usize;
        match v {
            Val::C(x) => {
                dst.data[off..off + k].fill(*x as u8);
                if !dst.sym.is_empty() {
                    dst.sym[off..off + k].fill(0);
                }
            }
            Val::E(e) => {
                if dst.sym.is_empty() {
                    dst.sym = vec![0; dst.data.len()];
                }
                dst.sym[off..off + k].fill(*e);
            }
            _ => return err("memset value"),
        }
        Ok(())
    }

    /// The bytes of a memory range as values.
    pub fn bytes(&mut self, st: &mut State, p: &Val, n: u64) -> R<Vec<Val>> {
        let mut v = vec![];
        for i in 0..n {
            let q = self.padd(p, i);
            v.push(self.load_bits(st, &q, 1)?);
        }
        Ok(v)
    }
    pub fn cbytes(&mut self, st: &mut State, p: &Val, n: u64) -> R<Vec<u8>> {
        let v = self.bytes(st, p, n)?;
        let mut o = vec![];
        for x in v {
            o.push(self.concretize(st, &x, 8)? as u8);
        }
        Ok(o)
    }
    pub fn cstr(&mut self, st: &mut State, p: &Val) -> R<Vec<u8>> {
        let mut o = vec![];
        for i in 0..4096u64 {
            let q = self.padd(p, i);
            let x = self.load_bits(st, &q, 1)?;
            let b = self.concretize(st, &x, 8)? as u8;
            if b == 0 {
                return Ok(o);
            }
            o.push(b);
        }
        err("unterminated C string")
    }
    pub fn write_bytes(&mut self, st: &mut State, p: &Val, b: &[u8]) -> R<()> {
        for (i, x) in b.iter().enumerate() {
            let q = self.padd(p, i as u64);
            self.store_bits(st, &q, &Val::C(*x as u64), 1)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ scalar operations

    pub fn trunc(&mut self, v: &Val, from: u32, to: u32) -> Val {
        match v {
            Val::C(x) => Val::C(x & mask64(to)),
            Val::W(x) => Self::from_wide(**x & mask(to), to),
            Val::E(e) => {
                let _ = from;
                let r = self.ar.extract(*e, 0, to);
                self.v(r)
            }
            Val::A(l) => {
                let r: Vec<Val> = l.iter().map(|x| self.trunc(x, from, to)).collect();
                Val::A(Rc::new(r))
            }
        }
    }

    pub fn bin(&mut self, st: &mut State, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = mask64(w);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y) & m,
                    BinOp::Sub => x.wrapping_sub(y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Mul => x.wrapping_mul(y) & m,
                    _ => match fold_bin(op, x as u128, y as u128, w) {
                        Some(r) => r as u64,
                        None => {
                            if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                                return Err(End::Viol("panic".into(), "division by zero".into()));
                            }
                            return err(format!("float op {op:?} on ints"));
                        }
                    },
                };
                return Ok(Val::C(r));
            }
        }
        if let (Some(x), Some(y)) = (Self::wide(a), Self::wide(b)) {
            match fold_bin(op, x, y, w) {
                Some(r) => return Ok(Self::from_wide(r, w)),
                None => return Err(End::Viol("panic".into(), "division by zero".into())),
            }
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
            let z = self.ar.c(0, w);
            let c = self.ar.eq(y, z);
            if self.decide(st, c)? {
                return Err(End::Viol("panic".into(), "division by zero".into()));
            }
        }
        let r = self.ar.bin(op, x, y);
        Ok(self.v(r))
    }

    pub fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                _ => {
                    let (x, y) = (sext(x as u128, w), sext(y as u128, w));
                    match p {
                        Pred::Slt => x < y,
                        Pred::Sle => x <= y,
                        Pred::Sgt => x > y,
                        _ => x >= y,
                    }
                }
            };
            return Val::C(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.ult(x, y),
            Pred::Ugt => self.ar.ult(y, x),
            Pred::Ule => {
                let e = self.ar.ult(y, x);
                self.ar.not(e)
            }
            Pred::Uge => {
                let e = self.ar.ult(x, y);
                self.ar.not(e)
            }
            Pred::Slt => self.ar.slt(x, y),
            Pred::Sgt => self.ar.slt(y, x),
            Pred::Sle => {
                let e = self.ar.slt(y, x);
                self.ar.not(e)
            }
            Pred::Sge => {
                let e = self.ar.slt(x, y);
                self.ar.not(e)
            }
        };
        self.v(r)
    }

    pub fn ty_bits(&self, t: TyId) -> u32 {
        match &self.m.ty(t).ty {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vector(n, e) => n * self.ty_bits(*e),
            _ => 0,
        }
    }
    pub fn elem(&self, t: TyId) -> Option<(u32, TyId)> {
        match &self.m.ty(t).ty {
            Ty::Vector(n, e) => Some((*n, *e)),
            Ty::Array(n, e) => Some((*n as u32, *e)),
            _ => None,
        }
    }

    pub fn select(&mut self, c: &Val, a: &Val, b: &Val, ty: TyId) -> R<Val> {
        match c {
            Val::C(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::E(ce) => {
                let ce = *ce;
                self.select_e(ce, a, b, ty)
            }
            Val::A(cl) => {
                let (n, et) = match self.elem(ty) {
                    Some(x) => x,
                    None => return err("vector select"),
                };
                let (al, bl) = match (a, b) {
                    (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                    _ => return err("vector select operands"),
                };
                let mut r = vec![];
                for i in 0..n as usize {
                    r.push(self.select(&cl[i], &al[i], &bl[i], et)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => err("select condition"),
        }
    }
    fn select_e(&mut self, c: E, a: &Val, b: &Val, ty: TyId) -> R<Val> {
        let m = self.m.clone();
        match (&m.ty(ty).ty, a, b) {
            (Ty::Struct(_, fs), Val::A(x), Val::A(y)) => {
                let mut r = vec![];
                for (i, f) in fs.iter().enumerate() {
                    r.push(self.select_e(c, &x[i], &y[i], *f)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            (Ty::Array(_, f), Val::A(x), Val::A(y)) | (Ty::Vector(_, f), Val::A(x), Val::A(y)) => {
                let mut r = vec![];
                for i in 0..x.len() {
                    r.push(self.select_e(c, &x[i], &y[i], *f)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => {
                let w = self.ty_bits(ty);
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.ar.ite(c, x, y);
                Ok(self.v(r))
            }
        }
    }

    fn fop(op: BinOp, a: f64, b: f64) -> f64 {
        match op {
            BinOp::FAdd => a + b,
            BinOp::FSub => a - b,
            BinOp::FMul => a * b,
            BinOp::FDiv => a / b,
            _ => a % b,
        }
    }

    pub fn vbin(&mut self, st: &mut State, op: BinOp, ty: TyId, a: &Val, b: &Val) -> R<Val> {
        let m = self.m.clone();
        match &m.ty(ty).ty {
            Ty::Vector(n, e) => {
                let (x, y) = match (a, b) {
                    (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                    _ => return err("vector operands"),
                };
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.push(self.vbin(st, op, *e, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::Int(w) => self.bin(st, op, *w, a, b),
            Ty::Double => match (a, b) {
                (Val::C(x), Val::C(y)) => Ok(Val::C(Self::fop(op, f64::from_bits(*x), f64::from_bits(*y)).to_bits())),
                _ => err("symbolic float"),
            },
            Ty::Float => match (a, b) {
                (Val::C(x), Val::C(y)) => {
                    let r = Self::fop(op, f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) as f32;
                    Ok(Val::C(r.to_bits() as u64))
                }
                _ => err("symbolic float"),
            },
            t => err(format!("vbin {t:?}")),
        }
    }

    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: &Val) -> R<Val> {
        let m = self.m.clone();
        if op == CastOp::Bitcast {
            if from == to {
                return Ok(a.clone());
            }
            let fb = self.ty_bits(from);
            return match (&m.ty(from).ty, &m.ty(to).ty) {
                (Ty::Vector(..), Ty::Vector(n, et)) => {
                    let e = self.e(a, fb);
                    let ew = self.ty_bits(*et);
                    let mut r = vec![];
                    for i in 0..*n {
                        let x = self.ar.extract(e, i * ew, ew);
                        r.push(self.v(x));
                    }
                    Ok(Val::A(Rc::new(r)))
                }
                (Ty::Vector(..), _) => {
                    let e = self.e(a, fb);
                    Ok(self.v(e))
                }
                (_, Ty::Vector(n, et)) => {
                    let e = self.e(a, fb);
                    let ew = self.ty_bits(*et);
                    let mut r = vec![];
                    for i in 0..*n {
                        let x = self.ar.extract(e, i * ew, ew);
                        r.push(self.v(x));
                    }
                    Ok(Val::A(Rc::new(r)))
                }
                _ => Ok(a.clone()),
            };
        }
        if let (Ty::Vector(n, ef), Ty::Vector(_, et)) = (&m.ty(from).ty, &m.ty(to).ty) {
            let l = match a {
                Val::A(l) => l.clone(),
                _ => return err("vector cast"),
            };
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.cast(op, *ef, *et, &l[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let fw = self.ty_bits(from);
        let tw = self.ty_bits(to);
        match op {
            CastOp::Trunc => Ok(self.trunc(a, fw, tw)),
            CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr => {
                if tw < fw {
                    return Ok(self.trunc(a, fw, tw));
                }
                match a {
                    Val::C(x) => Ok(Self::from_wide(*x as u128, tw)),
                    Val::W(_) => Ok(a.clone()),
                    Val::E(e) => {
                        let r = self.ar.zext(*e, tw);
                        Ok(self.v(r))
                    }
                    _ => err("zext"),
                }
            }
            CastOp::SExt => match a {
                Val::C(x) => Ok(Self::from_wide(sext(*x as u128, fw) as u128 & mask(tw), tw)),
                Val::W(_) => Ok(a.clone()),
                Val::E(e) => {
                    let r = self.ar.sext(*e, tw);
                    Ok(self.v(r))
                }
                _ => err("sext"),
            },
            _ => {
                let x = match a {
                    Val::C(x) => *x,
                    _ => return err("symbolic float cast"),
                };
                let fd = |x: u64| if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let td = |f: f64| if tw == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
                Ok(Val::C(match op {
                    CastOp::FpToUi => fd(x) as u64 & mask64(tw),
                    CastOp::FpToSi => (fd(x) as i64) as u64 & mask64(tw),
                    CastOp::UiToFp => td(x as f64),
                    CastOp::SiToFp => td(sext(x as u128, fw) as f64),
                    _ => td(fd(x)),
                }))
            }
        }
    }

    fn fcmp(&self, p: &str, w: u32, a: &Val, b: &Val) -> R<Val> {
        let (x, y) = match (a, b) {
            (Val::C(x), Val::C(y)) => (*x, *y),
            _ => return err("symbolic float compare"),
        };
        let (x, y) = if w == 32 {
            (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
        } else {
            (f64::from_bits(x), f64::from_bits(y))
        };
        let uno = x.is_nan() || y.is_nan();
        let r = match p {
            "oeq" => x == y,
            "ogt" => x > y,
            "oge" => x >= y,
            "olt" => x < y,
            "ole" => x <= y,
            "one" => !uno && x != y,
            "ord" => !uno,
            "ueq" => uno || x == y,
            "ugt" => uno || x > y,
            "uge" => uno || x >= y,
            "ult" => uno || x < y,
            "ule" => uno || x <= y,
            "une" => x != y,
            "uno" => uno,
            _ => return err("fcmp"),
        };
        Ok(Val::C(r as u64))
    }

    // ------------------------------------------------------------ interpreter

    #[inline]
    pub fn opd(&self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::I(x) => Val::C(*x),
            Opd::C(i) => self.consts[*i as usize].clone(),
        }
    }

    pub fn push_call(&mut self, st: &mut State, f: u32, args: Vec<Val>, ret_d: u32, ret_to: Option<u32>) -> R<()> {
        let m = self.m.clone();
        let fu = &m.funcs[f as usize];
        if st.frames.len() > 400 {
            return Err(End::Viol("hang".into(), format!("call depth exceeds 400 in {}", fu.name)));
        }
        let mut regs = vec![Val::C(0); fu.nregs as usize];
        for (i, (_, r)) in fu.params.iter().enumerate() {
            if let Some(a) = args.get(i) {
                regs[*r as usize] = a.clone();
            }
        }
        self.covered[f as usize] = true;
        self.blocks_cov[f as usize][0] = true;
        st.frames.push(Rc::new(Frame { f, regs, blk: 0, ip: 0, prev: u32::MAX, ret_d, ret_to, allocas: vec![] }));
        Ok(())
    }

    fn goto(&mut self, st: &mut State, t: u32) {
        let m = self.m.clone();
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let blk = &m.funcs[fr.f as usize].blocks[t as usize];
        self.blocks_cov[fr.f as usize][t as usize] = true;
        let from = fr.blk;
        match blk.phis.len() {
            0 => {}
            1 => {
                let ph = &blk.phis[0];
                for (b, o) in &ph.inc {
                    if *b == from {
                        let v = self.opd(fr, o);
                        fr.regs[ph.d as usize] = v;
                        break;
                    }
                }
            }
            _ => {
                let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
                for ph in &blk.phis {
                    for (b, o) in &ph.inc {
                        if *b == from {
                            tmp.push((ph.d, self.opd(fr, o)));
                            break;
                        }
                    }
                }
                for (d, v) in tmp {
                    fr.regs[d as usize] = v;
                }
            }
        }
        fr.prev = from;
        fr.blk = t;
        fr.ip = 0;
    }

    pub fn where_am_i(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(25) {
            v.push(self.m.funcs[f.f as usize].name.clone());
        }
        v
    }

    /// Runs the state until its path ends; forks are left on self.stack.
    pub fn run(&mut self, st: &mut State) -> End {
        let mut n = 0u32;
        loop {
            n += 1;
            if n & 1023 == 0 && self.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return err_end("stopped");
            }
            match self.step(st) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }

    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if d != NODST {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let m = self.m.clone();
        st.inst_pos = 0;
        // tight loop over one basic block, leaving on calls and terminators
        loop {
            st.steps += 1;
            self.cnt.insts += 1;
            if st.steps > self.cfg.max_steps {
                return Err(End::Viol("hang".into(), format!("more than {} instructions on one path", self.cfg.max_steps)));
            }
            if !st.inst_vars.is_empty() && st.inst_pos > 0 {
                st.inst_vars.clear();
                st.inst_pos = 0;
            }
            let fr: &Frame = st.frames.last().unwrap();
            if self.prof {
                *self.dec_sites.entry((fr.f, u32::MAX)).or_insert(0) += 1;
            }
            let func = &m.funcs[fr.f as usize];
            let inst = &func.blocks[fr.blk as usize].insts[fr.ip as usize];
            match inst {
                Inst::Bin { op, w, d, a, b } => {
                    let x = self.opd(fr, a);
                    let y = self.opd(fr, b);
                    let r = self.bin(st, *op, *w, &x, &y)?;
                    self.set(st, *d, r);
                }
                Inst::VBin { op, ty, d, a, b } => {
                    let x = self.opd(fr, a);
                    let y = self.opd(fr, b);
                    let r = self.vbin(st, *op, *ty, &x, &y)?;
                    self.set(st, *d, r);
                }
                Inst::FNeg { ty, d, a } => {
                    let x = self.opd(fr, a);
                    let w = self.ty_bits(*ty);
                    let r = match x {
                        Val::C(v) => Val::C(v ^ (1u64 << (w - 1))),
                        _ => return err("fneg"),
                    };
                    self.set(st, *d, r);
                }
                Inst::ICmp { p, w, d, a, b } => {
                    let x = self.opd(fr, a);
                    let y = self.opd(fr, b);
                    let r = self.icmp(*p, *w, &x, &y);
                    self.set(st, *d, r);
                }
                Inst::VICmp { p, ty, d, a, b } => {
                    let (x, y) = match (self.opd(fr, a), self.opd(fr, b)) {
                        (Val::A(x), Val::A(y)) => (x, y),
                        _ => return err("vector icmp"),
                    };
                    let (n, et) = self.elem(*ty).unwrap();
                    let w = self.ty_bits(et);
                    let mut r = vec![];
                    for i in 0..n as usize {
                        r.push(self.icmp(*p, w, &x[i], &y[i]));
                    }
                    self.set(st, *d, Val::A(Rc::new(r)));
                }
                Inst::FCmp { p, ty, d, a, b } => {
                    let x = self.opd(fr, a);
                    let y = self.opd(fr, b);
                    let w = self.ty_bits(*ty);
                    let r = self.fcmp(p, w, &x, &y)?;
                    self.set(st, *d, r);
                }
                Inst::Select { cty: _, ty, d, c, a, b } => {
                    let c = self.opd(fr, c);
                    let x = self.opd(fr, a);
                    let y = self.opd(fr, b);
                    let r = match &c {
                        Val::E(e) if self.split && matches!((&x, &y), (Val::E(_), Val::E(_) | Val::C(_)) | (Val::C(_), Val::E(_))) && self.ty_bits(*ty) == 64 => {
                            if self.decide(st, *e)? {
                                x
                            } else {
                                y
                            }
                        }
                        _ => self.select(&c, &x, &y, *ty)?,
                    };
                    self.set(st, *d, r);
                }
                Inst::Cast { op, from, to, d, a } => {
                    let x = self.opd(fr, a);
                    let r = self.cast(*op, *from, *to, &x)?;
                    self.set(st, *d, r);
                }
                Inst::Alloca { d, size, n } => {
                    let k = match self.opd(fr, n) {
                        Val::C(x) => x,
                        _ => return err("symbolic alloca"),
                    };
                    let a = self.alloc(st, size * k, Kind::Stack)?;
                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                    fr.allocas.push((a >> 32) as u32);
                    self.set(st, *d, Val::C(a));
                }
                Inst::Load { d, ty, p } => {
                    let p = self.opd(fr, p);
                    let r = self.load(st, &p, *ty)?;
                    self.set(st, *d, r);
                }
                Inst::Store { ty, v, p } => {
                    let v = self.opd(fr, v);
                    let p = self.opd(fr, p);
                    self.store(st, &p, &v, *ty)?;
                    self.set(st, NODST, Val::C(0));
                }
                Inst::Gep { d, base, off, terms } => {
                    let b = self.opd(fr, base);
                    let mut acc = self.padd(&b, *off as u64);
                    for (o, sz, iw) in terms {
                        let i = self.opd(st.frames.last().unwrap(), o);
                        match (&acc, &i) {
                            (Val::C(x), Val::C(y)) => {
                                let y = sext(*y as u128, *iw) as i64 as u64;
                                acc = Val::C(x.wrapping_add(y.wrapping_mul(*sz)));
                            }
                            _ => {
                                let x = self.e(&acc, 64);
                                let y = self.e(&i, *iw);
                                let y = self.ar.sext(y, 64);
                                let k = self.ar.c(*sz as u128, 64);
                                let t = self.ar.bin(BinOp::Mul, y, k);
                                let r = self.ar.bin(BinOp::Add, x, t);
                                acc = self.v(r);
                            }
                        }
                    }
                    self.set(st, *d, acc);
                }
                Inst::ExtractValue { d, a, idx } => {
                    let mut v = self.opd(fr, a);
                    for i in idx {
                        v = match v {
                            Val::A(l) => l[*i as usize].clone(),
                            _ => Val::C(0),
                        };
                    }
                    self.set(st, *d, v);
                }
                Inst::InsertValue { d, a, v, idx, ty: _ } => {
                    let a = self.opd(fr, a);
                    let v = self.opd(fr, v);
                    let r = insert(a, v, idx)?;
                    self.set(st, *d, r);
                }
                Inst::ExtractElement { d, a, i } => {
                    let v = self.opd(fr, a);
                    let i = self.opd(fr, i);
                    let r = match (v, i) {
                        (Val::A(l), Val::C(i)) => l.get(i as usize).cloned().unwrap_or(Val::C(0)),
                        _ => return err("extractelement"),
                    };
                    self.set(st, *d, r);
                }
                Inst::InsertElement { d, a, v, i, ty: _ } => {
                    let a = self.opd(fr, a);
                    let v = self.opd(fr, v);
                    let i = self.opd(fr, i);
                    let r = match (a, i) {
                        (Val::A(mut l), Val::C(i)) => {
                            let x = Rc::make_mut(&mut l);
                            if (i as usize) < x.len() {
                                x[i as usize] = v;
                            }
                            Val::A(l)
                        }
                        _ => return err("insertelement"),
                    };
                    self.set(st, *d, r);
                }
                Inst::Shuffle { d, a, b, n, mask } => {
                    let (x, y) = match (self.opd(fr, a), self.opd(fr, b)) {
                        (Val::A(x), Val::A(y)) => (x, y),
                        _ => return err("shuffle"),
                    };
                    let r = mask
                        .iter()
                        .map(|i| {
                            if *i < 0 {
                                Val::C(0)
                            } else if (*i as u32) < *n {
                                x[*i as usize].clone()
                            } else {
                                y[(*i as u32 - *n) as usize].clone()
                            }
                        })
                        .collect();
                    self.set(st, *d, Val::A(Rc::new(r)));
                }
                Inst::Freeze { d, a } => {
                    let v = self.opd(fr, a);
                    self.set(st, *d, v);
                }
                Inst::Rmw { op, d, ty, p, v } => {
                    let p = self.opd(fr, p);
                    let v = self.opd(fr, v);
                    let old = self.load(st, &p, *ty)?;
                    let w = self.ty_bits(*ty);
                    let new = match op {
                        RmwOp::Xchg => v,
                        RmwOp::Add => self.bin(st, BinOp::Add, w, &old, &v)?,
                        RmwOp::Sub => self.bin(st, BinOp::Sub, w, &old, &v)?,
                        RmwOp::And => self.bin(st, BinOp::And, w, &old, &v)?,
                        RmwOp::Or => self.bin(st, BinOp::Or, w, &old, &v)?,
                        RmwOp::Xor => self.bin(st, BinOp::Xor, w, &old, &v)?,
                        RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                            let pr = match op {
                                RmwOp::UMax => Pred::Ugt,
                                RmwOp::UMin => Pred::Ult,
                                RmwOp::Max => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.icmp(pr, w, &old, &v);
                            self.select(&c, &old, &v, *ty)?
                        }
                        RmwOp::Nand => {
                            let x = self.bin(st, BinOp::And, w, &old, &v)?;
                            self.bin(st, BinOp::Xor, w, &x, &Val::C(mask64(w)))?
                        }
                    };
                    self.store(st, &p, &new, *ty)?;
                    self.set(st, *d, old);
                }
                Inst::CmpXchg { d, ty, p, c, n } => {
                    let p = self.opd(fr, p);
                    let c = self.opd(fr, c);
                    let n = self.opd(fr, n);
                    let old = self.load(st, &p, *ty)?;
                    let w = self.ty_bits(*ty);
                    let eq = self.icmp(Pred::Eq, w, &old, &c);
                    let new = self.select(&eq, &n, &old, *ty)?;
                    self.store(st, &p, &new, *ty)?;
                    self.set(st, *d, Val::A(Rc::new(vec![old, eq])));
                }
                Inst::Fence => self.set(st, NODST, Val::C(0)),
                Inst::Call { d, ret, f, args, to } => {
                    let av: Vec<Val> = args.iter().map(|(_, o)| self.opd(fr, o)).collect();
                    let fid = match f {
                        Callee::Func(f) => *f,
                        Callee::Ptr(o) => {
                            let p = self.opd(fr, o);
                            let a = self.concretize(st, &p, 64)?;
                            if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= m.funcs.len() as u64 {
                                return Err(End::Viol("memory".into(), format!("call through invalid pointer {a:#x}")));
                            }
                            ((a - FUNC_BASE) / 16) as u32
                        }
                        Callee::Asm(s) => {
                            let r = self.asm(s, *ret)?;
                            self.finish_call(st, *d, *to, r);
                            return Ok(());
                        }
                    };
                    let hs = self.handlers.clone();
                    match &hs[fid as usize] {
                        Handler::Defined => {
                            {
                                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                                fr.ip += 1;
                            }
                            self.push_call(st, fid, av, *d, *to)?;
                        }
                        Handler::Skip => {
                            self.covered[fid as usize] = true;
                            self.finish_call(st, *d, *to, Val::C(0));
                        }
                        Handler::Builtin(b) => {
                            let ci = CallInfo { name: &m.funcs[fid as usize].name, args, ret: *ret };
                            let depth = st.frames.len();
                            let r = b(self, st, &av, &ci)?;
                            if st.frames.len() == depth {
                                self.finish_call(st, *d, *to, r);
                            }
                        }
                        Handler::Undefined => {
                            return err(format!("call to undefined function {}", m.funcs[fid as usize].name));
                        }
                    }
                    st.inst_vars.clear();
                    return Ok(());
                }
                Inst::Ret { v } => {
                    let r = match v {
                        Some(o) => self.opd(fr, o),
                        None => Val::C(0),
                    };
                    let old = st.frames.pop().unwrap();
                    for a in &old.allocas {
                        st.mem.release(*a);
                    }
                    if st.frames.is_empty() {
                        st.ret = r;
                        return Err(End::Done);
                    }
                    if old.ret_d != NODST {
                        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                        fr.regs[old.ret_d as usize] = r;
                    }
                    if let Some(t) = old.ret_to {
                        self.goto(st, t);
                    }
                    return Ok(());
                }
                Inst::Br { t } => {
                    self.goto(st, *t);
                    return Ok(());
                }
                Inst::CondBr { c, t, e } => {
                    let c = self.opd(fr, c);
                    let b = match c {
                        Val::C(x) => x & 1 == 1,
                        Val::E(x) => self.decide(st, x)?,
                        _ => return err("branch on aggregate"),
                    };
                    self.goto(st, if b { *t } else { *e });
                    return Ok(());
                }
                Inst::Switch { w, c, default, cases } => {
                    let c = self.opd(fr, c);
                    match c {
                        Val::C(x) => {
                            let mut t = *default;
                            for (k, b) in cases {
                                if *k == x {
                                    t = *b;
                                    break;
                                }
                            }
                            self.goto(st, t);
                        }
                        Val::E(e) => {
                            // group the cases by target
                            let mut groups: Vec<(u32, E)> = vec![];
                            for (k, b) in cases {
                                let kc = self.ar.c(*k as u128, *w);
                                let q = self.ar.eq(e, kc);
                                match groups.iter_mut().find(|g| g.0 == *b) {
                                    Some(g) => g.1 = self.ar.or(g.1, q),
                                    None => groups.push((*b, q)),
                                }
                            }
                            let mut t = *default;
                            for (b, q) in groups {
                                if b == *default {
                                    continue;
                                }
                                if self.decide(st, q)? {
                                    t = b;
                                    break;
                                }
                            }
                            self.goto(st, t);
                        }
                        _ => return err("switch on aggregate"),
                    }
                    return Ok(());
                }
                Inst::Unreachable => {
                    return Err(End::Viol("panic".into(), format!("unreachable code reached in {}", func.name)));
                }
                Inst::Unsupported(s) => return err(format!("unsupported instruction: {s}")),
            }
        }
    }

    fn finish_call(&mut self, st: &mut State, d: u32, to: Option<u32>, r: Val) {
        self.set(st, d, r);
        if let Some(t) = to {
            self.goto(st, t);
        }
    }

    fn asm(&mut self, s: &str, ret: TyId) -> R<Val> {
        let _ = s;
        Ok(self.zero(ret))
    }
    pub fn zero(&self, t: TyId) -> Val {
        match &self.m.ty(t).ty {
            Ty::Struct(_, f) => Val::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            Ty::Array(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            Ty::Vector(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            _ => Val::C(0),
        }
    }
}

fn insert(a: Val, v: Val, idx: &[u32]) -> R<Val> {
    if idx.is_empty() {
        return Ok(v);
    }
    match a {
        Val::A(mut l) => {
            let x = Rc::make_mut(&mut l);
            let i = idx[0] as usize;
            let old = std::mem::replace(&mut x[i], Val::C(0));
            x[i] = insert(old, v, &idx[1..])?;
            Ok(Val::A(l))
        }
        _ => err("insertvalue into scalar"),
    }
}

pub fn const_val(c: &Const) -> Val {
    match c {
        Const::Int(v, w) => {
            if *w <= 64 {
                Val::C(*v as u64)
            } else {
                Val::W(Rc::new(*v))
            }
        }
        Const::Agg(l) => Val::A(Rc::new(l.iter().map(const_val).collect())),
    }
}
