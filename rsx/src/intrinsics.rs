//! LLVM intrinsics, the allocator, memory primitives, hashing, panics and the harness interface.

use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::{self, Kind};
use std::rc::Rc;

fn w0(eng: &Eng, ci: &CallInfo) -> u32 {
    eng.ty_bits(ci.args[0].0)
}

/// applies a scalar operation to a scalar or lane-wise to a vector
fn lanes(eng: &mut Eng, ci: &CallInfo, a: &[Val], f: &mut dyn FnMut(&mut Eng, u32, &[Val]) -> R<Val>) -> R<Val> {
    let t = ci.args[0].0;
    if let Some((n, et)) = eng.elem(t) {
        let w = eng.ty_bits(et);
        let mut r = vec![];
        for i in 0..n as usize {
            let xs: Vec<Val> = a
                .iter()
                .map(|v| match v {
                    Val::A(l) => l[i].clone(),
                    x => x.clone(),
                })
                .collect();
            r.push(f(eng, w, &xs)?);
        }
        Ok(Val::A(Rc::new(r)))
    } else {
        let w = eng.ty_bits(t);
        f(eng, w, a)
    }
}

fn nop(_: &mut Eng, _: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(0))
}
fn first(_: &mut Eng, _: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    Ok(a[0].clone())
}
fn trap(_: &mut Eng, _: &mut State, _: &[Val], ci: &CallInfo) -> R<Val> {
    Err(End::Viol("panic".into(), format!("{} called", ci.name)))
}

fn i_memcpy(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[2], 64)?;
    eng.copy(st, &a[0], &a[1], n)?;
    Ok(a[0].clone())
}
fn i_memset(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[2], 64)?;
    let v = match &a[1] {
        Val::E(e) => {
            let b = eng.ar.extract(*e, 0, 8);
            eng.v(b)
        }
        Val::C(x) => Val::C(x & 0xff),
        x => x.clone(),
    };
    eng.fill(st, &a[0], &v, n)?;
    Ok(a[0].clone())
}

fn minmax(eng: &mut Eng, st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let p = match ci.name {
        n if n.starts_with("llvm.umax") => Pred::Ugt,
        n if n.starts_with("llvm.umin") => Pred::Ult,
        n if n.starts_with("llvm.smax") => Pred::Sgt,
        _ => Pred::Slt,
    };
    let t = ci.args[0].0;
    if eng.split && matches!((&a[0], &a[1]), (Val::E(_), Val::E(_) | Val::C(_)) | (Val::C(_), Val::E(_))) && eng.elem(t).is_none() && eng.ty_bits(t) == 64 {
        let c = eng.icmp(p, 64, &a[0], &a[1]);
        let c = eng.e(&c, 1);
        return Ok(if eng.decide(st, c)? { a[0].clone() } else { a[1].clone() });
    }
    let st_ = eng.elem(t).map(|x| x.1).unwrap_or(t);
    lanes(eng, ci, a, &mut |eng, w, x| {
        let c = eng.icmp(p, w, &x[0], &x[1]);
        eng.select(&c, &x[0], &x[1], st_)
    })
}
fn cmp3(eng: &mut Eng, _st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let w = w0(eng, ci);
    let rw = eng.ty_bits(ci.ret);
    let p = if ci.name.starts_with("llvm.ucmp") { Pred::Ult } else { Pred::Slt };
    let lt = eng.icmp(p, w, &a[0], &a[1]);
    let eq = eng.icmp(Pred::Eq, w, &a[0], &a[1]);
    let x = eng.select(&eq, &Val::C(0), &Val::C(1), ci.ret)?;
    eng.select(&lt, &Val::C(mask64(rw)), &x, ci.ret)
}
fn abs(eng: &mut Eng, st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let w = w0(eng, ci);
    let neg = eng.bin(st, BinOp::Sub, w, &Val::C(0), &a[0])?;
    let c = eng.icmp(Pred::Slt, w, &a[0], &Val::C(0));
    eng.select(&c, &neg, &a[0], ci.args[0].0)
}
fn overflow(eng: &mut Eng, st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let w = w0(eng, ci);
    let op = if ci.name.contains("add") {
        BinOp::Add
    } else if ci.name.contains("sub") {
        BinOp::Sub
    } else {
        BinOp::Mul
    };
    let signed = ci.name.starts_with("llvm.s");
    let r = eng.bin(st, op, w, &a[0], &a[1])?;
    let ov = if !signed && op == BinOp::Add {
        eng.icmp(Pred::Ult, w, &r, &a[0])
    } else if !signed && op == BinOp::Sub {
        eng.icmp(Pred::Ult, w, &a[0], &a[1])
    } else if !signed && matches!(a[1], Val::C(k) if k > 0) {
        let k = if let Val::C(k) = a[1] { k } else { 1 };
        eng.icmp(Pred::Ugt, w, &a[0], &Val::C(mask64(w) / k))
    } else if w <= 64 {
        let x = eng.e(&a[0], w);
        let y = eng.e(&a[1], w);
        let ww = if op == BinOp::Mul { 2 * w } else { w + 8 };
        let (x2, y2) = if signed { (eng.ar.sext(x, ww), eng.ar.sext(y, ww)) } else { (eng.ar.zext(x, ww), eng.ar.zext(y, ww)) };
        let full = eng.ar.bin(op, x2, y2);
        let re = eng.e(&r, w);
        let back = if signed { eng.ar.sext(re, ww) } else { eng.ar.zext(re, ww) };
        let eq = eng.ar.eq(full, back);
        let ne = eng.ar.not(eq);
        eng.v(ne)
    } else {
        match (Eng::wide(&a[0]), Eng::wide(&a[1])) {
            (Some(x), Some(y)) if !signed => {
                let o = match op {
                    BinOp::Mul => x.checked_mul(y).is_none(),
                    _ => unreachable!(),
                };
                Val::C(o as u64)
            }
            (Some(x), Some(y)) => {
                let (x, y) = (x as i128, y as i128);
                let o = match op {
                    BinOp::Mul => x.checked_mul(y).is_none(),
                    BinOp::Add => x.checked_add(y).is_none(),
                    _ => x.checked_sub(y).is_none(),
                };
                Val::C(o as u64)
            }
            _ => return err("wide symbolic overflow arithmetic"),
        }
    };
    Ok(Val::A(Rc::new(vec![r, ov])))
}
fn sat(eng: &mut Eng, st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let name = ci.name.to_string();
    let t = ci.args[0].0;
    let t1 = eng.elem(t).map(|x| x.1).unwrap_or(t);
    lanes(eng, ci, a, &mut |eng, w, x| {
        if name.starts_with("llvm.usub") {
            let c = eng.icmp(Pred::Ult, w, &x[0], &x[1]);
            let d = eng.bin(st, BinOp::Sub, w, &x[0], &x[1])?;
            eng.select(&c, &Val::C(0), &d, t1)
        } else if name.starts_with("llvm.uadd") {
            let d = eng.bin(st, BinOp::Add, w, &x[0], &x[1])?;
            let c = eng.icmp(Pred::Ult, w, &d, &x[0]);
            eng.select(&c, &Val::C(mask64(w)), &d, t1)
        } else {
            let op = if name.starts_with("llvm.sadd") { BinOp::Add } else { BinOp::Sub };
            let d = eng.bin(st, op, w, &x[0], &x[1])?;
            // overflow iff the operands' signs allow it and the result sign differs from x0
            let neg0 = eng.icmp(Pred::Slt, w, &x[0], &Val::C(0));
            let neg1 = eng.icmp(Pred::Slt, w, &x[1], &Val::C(0));
            let negd = eng.icmp(Pred::Slt, w, &d, &Val::C(0));
            let (n0, n1, nd) = (eng.e(&neg0, 1), eng.e(&neg1, 1), eng.e(&negd, 1));
            let same = eng.ar.eq(n0, n1);
            let pre = if op == BinOp::Add { same } else { eng.ar.not(same) };
            let chg0 = eng.ar.eq(n0, nd);
            let chg = eng.ar.not(chg0);
            let ov0 = eng.ar.and(pre, chg);
            let ov = eng.v(ov0);
            let max = Val::C(mask64(w) >> 1);
            let min = Val::C(1u64 << (w - 1));
            let lim = eng.select(&neg0, &min, &max, t1)?;
            eng.select(&ov, &lim, &d, t1)
        }
    })
}
fn bits(eng: &mut Eng, _st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let name = ci.name.to_string();
    lanes(eng, ci, &a[..1], &mut |eng, w, x| {
        if let Some(v) = Eng::wide(&x[0]) {
            let v = v & mask(w);
            let r = if name.starts_with("llvm.ctpop") {
                v.count_ones() as u128
            } else if name.starts_with("llvm.ctlz") {
                (v.leading_zeros() - (128 - w)) as u128
            } else if name.starts_with("llvm.cttz") {
                if v == 0 {
                    w as u128
                } else {
                    v.trailing_zeros() as u128
                }
            } else if name.starts_with("llvm.bswap") {
                v.swap_bytes() >> (128 - w)
            } else {
                v.reverse_bits() >> (128 - w)
            };
            return Ok(Eng::from_wide(r, w));
        }
        let e = eng.e(&x[0], w);
        if name.starts_with("llvm.ctpop") {
            let mut acc = eng.ar.c(0, w);
            for i in 0..w {
                let b = eng.ar.extract(e, i, 1);
                let z = eng.ar.zext(b, w);
                acc = eng.ar.bin(BinOp::Add, acc, z);
            }
            Ok(eng.v(acc))
        } else if name.starts_with("llvm.ctlz") || name.starts_with("llvm.cttz") {
            let lz = name.starts_with("llvm.ctlz");
            let mut acc = eng.ar.c(w as u128, w);
            for k in (0..w).rev() {
                let bit = if lz { w - 1 - k } else { k };
                let b = eng.ar.extract(e, bit, 1);
                let c = eng.ar.c(k as u128, w);
                acc = eng.ar.ite(b, c, acc);
            }
            Ok(eng.v(acc))
        } else if name.starts_with("llvm.bswap") {
            let mut acc: Option<E> = None;
            for i in (0..w / 8).rev() {
                let b = eng.ar.extract(e, i * 8, 8);
                acc = Some(match acc {
                    None => b,
                    Some(lo) => eng.ar.concat(b, lo),
                });
            }
            let r = acc.unwrap();
            Ok(eng.v(r))
        } else {
            err("symbolic bitreverse")
        }
    })
}
fn fsh(eng: &mut Eng, _st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let left = ci.name.starts_with("llvm.fshl");
    lanes(eng, ci, a, &mut |eng, w, x| {
        let k = match &x[2] {
            Val::C(k) => (*k as u32) % w,
            _ => return err("symbolic funnel shift"),
        };
        if k == 0 {
            return Ok(if left { x[0].clone() } else { x[1].clone() });
        }
        let hi = eng.e(&x[0], w);
        let lo = eng.e(&x[1], w);
        let s = if left { w - k } else { k };
        // bits s .. s+w of hi:lo
        let l = eng.ar.extract(lo, s, w - s);
        let h = eng.ar.extract(hi, 0, s);
        let r = eng.ar.concat(h, l);
        Ok(eng.v(r))
    })
}
fn reduce(eng: &mut Eng, st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let (n, et) = eng.elem(ci.args[0].0).ok_or(End::Err("reduce".into()))?;
    let w = eng.ty_bits(et);
    let l = match &a[0] {
        Val::A(l) => l.clone(),
        _ => return err("reduce"),
    };
    let mut acc = l[0].clone();
    for i in 1..n as usize {
        let x = &l[i];
        acc = if ci.name.contains(".or.") {
            eng.bin(st, BinOp::Or, w, &acc, x)?
        } else if ci.name.contains(".and.") {
            eng.bin(st, BinOp::And, w, &acc, x)?
        } else if ci.name.contains(".xor.") {
            eng.bin(st, BinOp::Xor, w, &acc, x)?
        } else if ci.name.contains(".add.") {
            eng.bin(st, BinOp::Add, w, &acc, x)?
        } else if ci.name.contains(".mul.") {
            eng.bin(st, BinOp::Mul, w, &acc, x)?
        } else {
            let p = if ci.name.contains("umax") {
                Pred::Ugt
            } else if ci.name.contains("umin") {
                Pred::Ult
            } else if ci.name.contains("smax") {
                Pred::Sgt
            } else {
                Pred::Slt
            };
            let c = eng.icmp(p, w, &acc, x);
            eng.select(&c, &acc, x, et)?
        };
    }
    Ok(acc)
}
fn is_fpclass(_: &mut Eng, _: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    err("is.fpclass")
}

// ------------------------------------------------------------ allocator

fn malloc(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[0], 64)?;
    Ok(Val::C(eng.alloc(st, n, Kind::Heap)?))
}
fn calloc(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[0], 64)?;
    let m = eng.concretize(st, &a[1], 64)?;
    Ok(Val::C(eng.alloc(st, n.wrapping_mul(m), Kind::Heap)?))
}
fn aligned_alloc(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[1], 64)?;
    Ok(Val::C(eng.alloc(st, n, Kind::Heap)?))
}
fn posix_memalign(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[2], 64)?;
    let p = eng.alloc(st, n, Kind::Heap)?;
    eng.store_bits(st, &a[0], &Val::C(p), 8)?;
    Ok(Val::C(0))
}
fn free(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let p = eng.concretize(st, &a[0], 64)?;
    if p == 0 {
        return Ok(Val::C(0));
    }
    let id = (p >> 32) as u32;
    match st.mem.get(id) {
        Some(o) if o.live && o.kind == Kind::Heap && p & 0xffff_ffff == 0 => {
            st.mem.kill(id);
            Ok(Val::C(0))
        }
        _ => Err(End::Viol("memory".into(), format!("free of invalid pointer {p:#x}"))),
    }
}
fn realloc_to(eng: &mut Eng, st: &mut State, p: u64, n: u64) -> R<Val> {
    let q = eng.alloc(st, n, Kind::Heap)?;
    if p != 0 {
        let id = (p >> 32) as u32;
        let old = match st.mem.get(id) {
            Some(o) if o.live && o.kind == Kind::Heap && p & 0xffff_ffff == 0 => o.size(),
            _ => return Err(End::Viol("memory".into(), format!("realloc of invalid pointer {p:#x}"))),
        };
        eng.copy(st, &Val::C(q), &Val::C(p), old.min(n))?;
        st.mem.kill(id);
    }
    Ok(Val::C(q))
}
fn realloc(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let p = eng.concretize(st, &a[0], 64)?;
    let n = eng.concretize(st, &a[1], 64)?;
    realloc_to(eng, st, p, n)
}

// ------------------------------------------------------------ memory comparison and search

fn bcmp(eng: &mut Eng, st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[2], 64)?;
    let mut acc = eng.ar.tru();
    // compare in words where possible
    let mut i = 0;
    while i < n {
        let k: u32 = if n - i >= 8 { 8 } else { 1 };
        let p = eng.padd(&a[0], i);
        let q = eng.padd(&a[1], i);
        let x = eng.load_bits(st, &p, k)?;
        let y = eng.load_bits(st, &q, k)?;
        let c = eng.icmp(Pred::Eq, k * 8, &x, &y);
        let ce = eng.e(&c, 1);
        acc = eng.ar.and(acc, ce);
        i += k as u64;
    }
    let c = eng.v(acc);
    eng.select(&c, &Val::C(0), &Val::C(1), ci.ret)
}
fn memcmp(eng: &mut Eng, st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[2], 64)?;
    let x = eng.bytes(st, &a[0], n)?;
    let y = eng.bytes(st, &a[1], n)?;
    let mut acc = Val::C(0);
    for i in (0..n as usize).rev() {
        let eq = eng.icmp(Pred::Eq, 8, &x[i], &y[i]);
        let lt = eng.icmp(Pred::Ult, 8, &x[i], &y[i]);
        let d = eng.select(&lt, &Val::C(0xffff_ffff), &Val::C(1), ci.ret)?;
        acc = eng.select(&eq, &acc, &d, ci.ret)?;
    }
    Ok(acc)
}
fn memchr(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[2], 64)?;
    let c = match &a[1] {
        Val::C(x) => Val::C(x & 0xff),
        Val::E(e) => {
            let b = eng.ar.extract(*e, 0, 8);
            eng.v(b)
        }
        _ => return err("memchr"),
    };
    for i in 0..n {
        let p = eng.padd(&a[0], i);
        let x = eng.load_bits(st, &p, 1)?;
        let q = eng.icmp(Pred::Eq, 8, &x, &c);
        let q = eng.e(&q, 1);
        if eng.decide(st, q)? {
            return Ok(p);
        }
    }
    Ok(Val::C(0))
}
fn memrchr(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[2], 64)?;
    let c = eng.concretize(st, &a[1], 32)? & 0xff;
    for i in (0..n).rev() {
        let p = eng.padd(&a[0], i);
        let x = eng.load_bits(st, &p, 1)?;
        let q = eng.icmp(Pred::Eq, 8, &x, &Val::C(c));
        let q = eng.e(&q, 1);
        if eng.decide(st, q)? {
            return Ok(p);
        }
    }
    Ok(Val::C(0))
}
fn strlen(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let s = eng.cstr(st, &a[0])?;
    Ok(Val::C(s.len() as u64))
}

// ------------------------------------------------------------ panics

fn loc_of(eng: &mut Eng, st: &mut State, p: &Val) -> Option<String> {
    // core::panic::Location { file: (ptr, len), line: u32, col: u32 }
    let p = match p {
        Val::C(p) if *p != 0 => *p,
        _ => return None,
    };
    let f = eng.load_int(st, p, 8).ok()?;
    let n = eng.load_int(st, p + 8, 8).ok()?;
    let l = eng.load_int(st, p + 16, 4).ok()?;
    let c = eng.load_int(st, p + 20, 4).ok()?;
    match (f, n, l, c) {
        (Val::C(f), Val::C(n), Val::C(l), Val::C(c)) if n < 300 => {
            let b = eng.cbytes(st, &Val::C(f), n).ok()?;
            let s = String::from_utf8(b).ok()?;
            if !s.ends_with(".rs") {
                return None;
            }
            Some(format!("{s}:{l}:{c}"))
        }
        _ => None,
    }
}
fn panic(eng: &mut Eng, st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let mut at = None;
    for x in a.iter().rev() {
        at = loc_of(eng, st, x);
        if at.is_some() {
            break;
        }
    }
    Err(End::Viol("panic".into(), format!("panic at {}", at.unwrap_or_else(|| format!("? ({})", ci.name)))))
}

// ------------------------------------------------------------ hashing: every key hashes alike

fn hash_const(_: &mut Eng, _: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(0x5bd1_e995_7f4a_7c15))
}

// ------------------------------------------------------------ harness interface

fn h_bytes(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[1], 64)?;
    for i in 0..n {
        let e = eng.fresh(st, 8, 0);
        let p = eng.padd(&a[0], i);
        eng.store_bits(st, &p, &Val::E(e), 1)?;
    }
    Ok(Val::C(0))
}
fn h_u64(eng: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::E(eng.fresh(st, 64, 0)))
}
fn h_u8(eng: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::E(eng.fresh(st, 8, 0)))
}
/// marks the end of a warm-up common to all paths
fn h_warm(eng: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    if eng.warm.is_none() && st.ndec == 0 && st.ninput == 0 && st.path.is_none() {
        eng.warm = Some(st.clone());
    }
    Ok(Val::C(0))
}
/// an arbitrary byte in lo..=hi
fn h_in(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let lo = eng.concretize(st, &a[0], 64)?;
    let hi = eng.concretize(st, &a[1], 64)?;
    if lo > hi || hi > 255 {
        return err("bad bounds of an input");
    }
    let e = eng.fresh_in(st, lo, hi)?;
    Ok(Val::E(e))
}
/// a concrete value below n, one path for each
fn h_choose(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[0], 64)?;
    let e = eng.fresh(st, 64, 0);
    let k = eng.ar.c(n as u128, 64);
    let c = eng.ar.ult(e, k);
    eng.assume(st, c)?;
    let v = eng.concretize(st, &Val::E(e), 64)?;
    Ok(Val::C(v))
}
/// a concrete copy of a value, one path for each feasible one
fn h_concrete(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(eng.concretize(st, &a[0], 64)?))
}
fn h_assume(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let c = eng.e(&a[0], 1);
    eng.assume(st, c)?;
    Ok(Val::C(0))
}
fn label(eng: &mut Eng, st: &mut State, p: &Val, n: &Val) -> R<String> {
    let n = eng.concretize(st, n, 64)?;
    let b = eng.cbytes(st, p, n)?;
    Ok(String::from_utf8_lossy(&b).to_string())
}
fn h_check(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let l = label(eng, st, &a[1], &a[2])?;
    let c = eng.e(&a[0], 1);
    eng.check(st, c, &l)?;
    Ok(Val::C(0))
}
fn h_reach(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let l = label(eng, st, &a[0], &a[1])?;
    let id = eng.label_id(&l);
    let r = Rc::make_mut(&mut st.reached);
    if !r.contains(&id) {
        r.push(id);
    }
    Ok(Val::C(0))
}
fn h_log(_eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    Rc::make_mut(&mut st.logs).push(a[0].clone());
    Ok(Val::C(0))
}
/// (a, b, n): true iff the two ranges are equal, as one expression
fn h_eq(eng: &mut Eng, st: &mut State, a: &[Val], ci: &CallInfo) -> R<Val> {
    let r = bcmp(eng, st, a, ci)?;
    // ci.ret is i1 or i8/zeroext bool
    let w = eng.ty_bits(ci.ret);
    Ok(eng.icmp(Pred::Eq, w, &r, &Val::C(0)))
}
/// 0 when the condition is plainly false, else 1; never forks
fn h_maybe(_: &mut Eng, _: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    Ok(match &a[0] {
        Val::C(v) => Val::C(v & 1),
        _ => Val::C(1),
    })
}
/// 1 when running under the engine
fn h_symbolic(_: &mut Eng, _: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(1))
}

/// Handlers for declared functions, and for defined ones that are modelled instead of executed.
pub fn lookup(name: &str) -> Option<BF> {
    if let Some(r) = name.strip_prefix("llvm.") {
        let f: BF = match r {
            _ if r.starts_with("memcpy") || r.starts_with("memmove") => i_memcpy,
            _ if r.starts_with("memset") => i_memset,
            _ if r.starts_with("lifetime") || r.starts_with("assume") || r.starts_with("experimental.noalias") || r.starts_with("dbg.") || r.starts_with("donothing") || r.starts_with("prefetch") || r.starts_with("x86.sse2.pause") || r.starts_with("invariant") || r.starts_with("sideeffect") || r.starts_with("fake.use") => nop,
            _ if r.starts_with("expect") || r.starts_with("threadlocal.address") || r.starts_with("launder") || r.starts_with("strip.invariant") || r.starts_with("ssa.copy") || r.starts_with("ptrmask") => first,
            _ if r.starts_with("umax") || r.starts_with("umin") || r.starts_with("smax") || r.starts_with("smin") => minmax,
            _ if r.starts_with("ucmp") || r.starts_with("scmp") => cmp3,
            _ if r.starts_with("abs") => abs,
            _ if r.contains(".with.overflow") => overflow,
            _ if r.contains("add.sat") || r.contains("sub.sat") => sat,
            _ if r.starts_with("ctpop") || r.starts_with("ctlz") || r.starts_with("cttz") || r.starts_with("bswap") || r.starts_with("bitreverse") => bits,
            _ if r.starts_with("fshl") || r.starts_with("fshr") => fsh,
            _ if r.starts_with("vector.reduce") => reduce,
            _ if r.starts_with("is.fpclass") => is_fpclass,
            _ if r.starts_with("trap") || r.starts_with("ubsantrap") => trap,
            _ => return None,
        };
        return Some(f);
    }
    if name.starts_with("_R") {
        let e = |s: &str| name.ends_with(s);
        if e("9panicking9panic_fmt")
            || e("18panic_nounwind_fmt")
            || e("17rust_begin_unwind")
            || e("18handle_alloc_error")
            || e("10rust_panic")
            || e("9panicking15panic_with_hook")
            || name.contains("9panicking11begin_panic")
        {
            return Some(panic);
        }
        if name.contains("6random11RandomState") && name.contains("11BuildHasher8hash_one") {
            return Some(hash_const);
        }
        if name.contains("4hash3sip") && name.contains("6Hasher5write") {
            return Some(nop);
        }
        return None;
    }
    Some(match name {
        "malloc" => malloc,
        "calloc" => calloc,
        "realloc" => realloc,
        "free" => free,
        "posix_memalign" => posix_memalign,
        "aligned_alloc" => aligned_alloc,
        "bcmp" => bcmp,
        "memcmp" => memcmp,
        "memcpy" | "memmove" => i_memcpy,
        "memset" => i_memset,
        "memchr" => memchr,
        "memrchr" => memrchr,
        "strlen" => strlen,
        "abort" => trap,
        "rsx_bytes" => h_bytes,
        "rsx_u64" => h_u64,
        "rsx_u8" => h_u8,
        "rsx_in" => h_in,
        "rsx_warm" => h_warm,
        "rsx_choose" => h_choose,
        "rsx_concrete" => h_concrete,
        "rsx_assume" => h_assume,
        "rsx_check" => h_check,
        "rsx_reach" => h_reach,
        "rsx_log" => h_log,
        "rsx_eq" => h_eq,
        "rsx_maybe" => h_maybe,
        "rsx_symbolic" => h_symbolic,
        _ => return crate::env::lookup(name),
    })
}

#[allow(dead_code)]
fn _unused(_: mem::Opd) {}
