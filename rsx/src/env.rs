//! The operating-system model: an in-memory file system with injectable faults, arguments,
//! and the handful of libc calls the Rust runtime makes.

use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::Kind;
use std::rc::Rc;

#[derive(Clone)]
pub struct Inode {
    pub data: Rc<Vec<Val>>,
    pub dir: bool,
}

#[derive(Clone)]
pub struct Fd {
    pub inode: usize,
    pub pos: u64,
    pub flags: u64,
    pub std: u8,
    pub name: Vec<u8>,
}

#[derive(Clone)]
pub struct Watch {
    pub path: Vec<u8>,
    pub old: Vec<Val>,
    pub new: Vec<Val>,
}

#[derive(Clone, Default)]
pub struct Env {
    pub inodes: Vec<Inode>,
    pub names: Vec<(Vec<u8>, usize)>,
    pub fds: Vec<Option<Fd>>,
    pub args: Vec<Vec<u8>>,
    pub errno: u64,
    pub faults_left: u64,
    /// fallible operations so far
    pub nops: u32,
    pub fault_log: Vec<(u32, String, u64)>,
    pub oplog: Vec<String>,
    pub watch: Option<Watch>,
    pub stdout: Vec<Val>,
    pub exit: Option<u64>,
    pub in_main: bool,
    pub phase: usize,
    pub keys: u64,
    /// reads of this file do not fail beyond its first bytes
    pub calm: Option<(Vec<u8>, u64)>,
}

const EINTR: u64 = 4;
const EIO: u64 = 5;
const ENOENT: u64 = 2;
const EBADF: u64 = 9;
const EACCES: u64 = 13;
const EEXIST: u64 = 17;
const EXDEV: u64 = 18;
const EISDIR: u64 = 21;
const EINVAL: u64 = 22;
const ENOTTY: u64 = 25;
const ENOSPC: u64 = 28;
const EPIPE: u64 = 32;
const ENOSYS: u64 = 38;

fn env_mut(st: &mut State) -> &mut Env {
    Rc::make_mut(&mut st.env)
}

fn fail(eng: &mut Eng, st: &mut State, errno: u64, ret_bits: u32) -> R<Val> {
    let a = st.env.errno;
    eng.store_bits(st, &Val::C(a), &Val::C(errno), 4)?;
    Ok(Val::C(mask64(ret_bits)))
}

pub fn norm(p: &[u8]) -> Vec<u8> {
    let mut q: &[u8] = p;
    if let Some(r) = q.strip_prefix(b"/w/") {
        q = r;
    }
    while let Some(r) = q.strip_prefix(b"./") {
        q = r;
    }
    q.to_vec()
}

fn lookup_name(st: &State, p: &[u8]) -> Option<usize> {
    st.env.names.iter().find(|n| n.0 == p).map(|n| n.1)
}

/// Does this operation fail? None: no. Some((errno, extra)).
/// options: list of (name, errno); the choice is a solver variable.
fn fault(eng: &mut Eng, st: &mut State, op: &str, options: &[(&str, u64)]) -> R<Option<(usize, u64)>> {
    if !st.env.in_main || st.env.faults_left == 0 {
        return Ok(None);
    }
    let e = eng.fresh(st, 8, 1);
    let z = eng.ar.c(0, 8);
    let none = eng.ar.eq(e, z);
    if eng.decide(st, none)? {
        return Ok(None);
    }
    for (i, (_, errno)) in options.iter().enumerate() {
        let last = i + 1 == options.len();
        let k = eng.ar.c(i as u128 + 1, 8);
        let c = eng.ar.eq(e, k);
        if last {
            eng.assume(st, c)?;
            return Ok(Some((i, *errno)));
        }
        if eng.decide(st, c)? {
            return Ok(Some((i, *errno)));
        }
    }
    let _ = op;
    Ok(None)
}

/// counts a fallible operation, and records an injected fault
fn done(st: &mut State, op: &str, f: &Option<(usize, u64)>, kind: &str, extra: u64) {
    if !st.env.in_main {
        return;
    }
    let e = env_mut(st);
    let n = e.nops;
    e.nops += 1;
    e.oplog.push(op.to_string());
    if f.is_some() {
        e.faults_left -= 1;
        e.fault_log.push((n, kind.to_string(), extra));
    }
}

fn check_watch(eng: &mut Eng, st: &mut State, op: &str) -> R<()> {
    let w = match (&st.env.watch, st.env.in_main) {
        (Some(w), true) => w.clone(),
        _ => return Ok(()),
    };
    let c = match lookup_name(st, &w.path) {
        None => eng.ar.fls(),
        Some(i) => {
            let d = st.env.inodes[i].data.clone();
            let a = all_eq(eng, &d, &w.old);
            let b = all_eq(eng, &d, &w.new);
            eng.ar.or(a, b)
        }
    };
    let _ = op;
    eng.check(st, c, "at every instant the file is complete")
}

fn all_eq(eng: &mut Eng, a: &[Val], b: &[Val]) -> E {
    if a.len() != b.len() {
        return eng.ar.fls();
    }
    let mut acc = eng.ar.tru();
    for i in 0..a.len() {
        let x = eng.e(&a[i], 8);
        let y = eng.e(&b[i], 8);
        let c = eng.ar.eq(x, y);
        acc = eng.ar.and(acc, c);
    }
    acc
}

fn new_fd(st: &mut State, f: Fd) -> u64 {
    let e = env_mut(st);
    for i in 3..e.fds.len() {
        if e.fds[i].is_none() {
            e.fds[i] = Some(f);
            return i as u64;
        }
    }
    e.fds.push(Some(f));
    e.fds.len() as u64 - 1
}

fn do_open(eng: &mut Eng, st: &mut State, path: &Val, flags: u64) -> R<Val> {
    let raw = eng.cstr(st, path)?;
    if raw.starts_with(b"/proc/") || raw.starts_with(b"/sys/") || raw.starts_with(b"/etc/") || raw.starts_with(b"/dev/") || raw.starts_with(b"/usr/") {
        return fail(eng, st, ENOENT, 32);
    }
    let p = norm(&raw);
    let f = fault(eng, st, "open", &[("eacces", EACCES), ("eintr", EINTR), ("enospc", ENOSPC)])?;
    if let Some((i, errno)) = f {
        done(st, "open", &f, ["eacces", "eintr", "enospc"][i], 0);
        return fail(eng, st, errno, 32);
    }
    if p == b"." || p == b"/w" || p.is_empty() {
        done(st, "open .", &None, "", 0);
        if flags & 3 != 0 {
            return fail(eng, st, EISDIR, 32);
        }
        let e = env_mut(st);
        e.inodes.push(Inode { data: Rc::new(vec![]), dir: true });
        let inode = e.inodes.len() - 1;
        return Ok(Val::C(new_fd(st, Fd { inode, pos: 0, flags, std: 0, name: p })));
    }
    if p.contains(&b'/') {
        done(st, "open elsewhere", &None, "", 0);
        return fail(eng, st, ENOENT, 32);
    }
    let found = lookup_name(st, &p);
    let inode = match found {
        Some(i) => {
            if flags & 0xc0 == 0xc0 {
                done(st, "open", &None, "", 0);
                return fail(eng, st, EEXIST, 32);
            }
            if st.env.inodes[i].dir && flags & 3 != 0 {
                done(st, "open", &None, "", 0);
                return fail(eng, st, EISDIR, 32);
            }
            if flags & 0x200 != 0 && flags & 3 != 0 {
                env_mut(st).inodes[i].data = Rc::new(vec![]);
            }
            i
        }
        None => {
            if flags & 0x40 == 0 {
                done(st, "open", &None, "", 0);
                return fail(eng, st, ENOENT, 32);
            }
            let e = env_mut(st);
            e.inodes.push(Inode { data: Rc::new(vec![]), dir: false });
            let i = e.inodes.len() - 1;
            e.names.push((p.clone(), i));
            i
        }
    };
    let d = format!("open {} flags {:#x}", String::from_utf8_lossy(&p), flags);
    done(st, &d, &None, "", 0);
    let fd = new_fd(st, Fd { inode, pos: 0, flags, std: 0, name: p });
    check_watch(eng, st, "opening a file")?;
    Ok(Val::C(fd))
}
fn open(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fl = eng.concretize(st, &a[1], 32)?;
    do_open(eng, st, &a[0], fl)
}
fn openat(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fl = eng.concretize(st, &a[2], 32)?;
    do_open(eng, st, &a[1], fl)
}

fn get_fd(st: &State, fd: u64) -> Option<Fd> {
    st.env.fds.get(fd as usize).cloned().flatten()
}

fn read_at(eng: &mut Eng, st: &mut State, fd: u64, buf: &Val, n: u64, at: Option<u64>) -> R<Val> {
    let f = match get_fd(st, fd) {
        Some(f) => f,
        None => return fail(eng, st, EBADF, 64),
    };
    if f.std != 0 {
        return Ok(Val::C(0));
    }
    if st.env.inodes[f.inode].dir {
        done(st, "read a directory", &None, "", 0);
        return fail(eng, st, EISDIR, 64);
    }
    let data = st.env.inodes[f.inode].data.clone();
    let pos = at.unwrap_or(f.pos);
    let avail = (data.len() as u64).saturating_sub(pos);
    let mut k = avail.min(n);
    let calm = matches!(&st.env.calm, Some((p, n)) if *p == f.name && pos >= *n);
    let fl = if calm {
        None
    } else if k >= 2 {
        fault(eng, st, "read", &[("eio", EIO), ("eintr", EINTR), ("short", 0)])?
    } else {
        fault(eng, st, "read", &[("eio", EIO), ("eintr", EINTR)])?
    };
    if let Some((i, errno)) = fl {
        if errno != 0 {
            done(st, "read", &fl, ["eio", "eintr"][i], 0);
            return fail(eng, st, errno, 64);
        }
        let e = eng.fresh(st, 64, 1);
        let (one, kk) = (eng.ar.c(1, 64), eng.ar.c(k as u128, 64));
        let lo = eng.ar.ult(e, one);
        let lo = eng.ar.not(lo);
        eng.assume(st, lo)?;
        let c = eng.ar.ult(e, kk);
        eng.assume(st, c)?;
        k = eng.concretize(st, &Val::E(e), 64)?;
        done(st, "read", &fl, "short", k);
    } else {
        done(st, "read", &None, "", 0);
    }
    for i in 0..k {
        let q = eng.padd(buf, i);
        let v = data[(pos + i) as usize].clone();
        eng.store_bits(st, &q, &v, 1)?;
    }
    if at.is_none() {
        if let Some(Some(x)) = env_mut(st).fds.get_mut(fd as usize) {
            x.pos = pos + k;
        }
    }
    Ok(Val::C(k))
}
fn read(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fd = eng.concretize(st, &a[0], 32)?;
    let n = eng.concretize(st, &a[2], 64)?;
    read_at(eng, st, fd, &a[1], n, None)
}
fn pread(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fd = eng.concretize(st, &a[0], 32)?;
    let n = eng.concretize(st, &a[2], 64)?;
    let at = eng.concretize(st, &a[3], 64)?;
    read_at(eng, st, fd, &a[1], n, Some(at))
}

fn do_write(eng: &mut Eng, st: &mut State, fd: u64, bytes: Vec<Val>) -> R<Val> {
    let f = match get_fd(st, fd) {
        Some(f) => f,
        None => return fail(eng, st, EBADF, 64),
    };
    if f.std == 2 {
        return Ok(Val::C(bytes.len() as u64));
    }
    if f.std == 0 && f.flags & 3 == 0 {
        return fail(eng, st, EBADF, 64);
    }
    let n = bytes.len() as u64;
    let mut k = n;
    let e0 = if f.std == 1 { EPIPE } else { ENOSPC };
    let nm = if f.std == 1 { "epipe" } else { "enospc" };
    let fl = if n >= 2 {
        fault(eng, st, "write", &[(nm, e0), ("eintr", EINTR), ("short", 0)])?
    } else {
        fault(eng, st, "write", &[(nm, e0), ("eintr", EINTR)])?
    };
    if let Some((i, errno)) = fl {
        if errno != 0 {
            done(st, "write", &fl, [nm, "eintr"][i], 0);
            return fail(eng, st, errno, 64);
        }
        let e = eng.fresh(st, 64, 1);
        let (one, kk) = (eng.ar.c(1, 64), eng.ar.c(k as u128, 64));
        let lo = eng.ar.ult(e, one);
        let lo = eng.ar.not(lo);
        eng.assume(st, lo)?;
        let c = eng.ar.ult(e, kk);
        eng.assume(st, c)?;
        // the first, middle and last lengths stand for all of them
        k = if n > 6 {
            let half = eng.ar.c((n / 2) as u128, 64);
            let last = eng.ar.c((n - 1) as u128, 64);
            let q1 = eng.ar.eq(e, one);
            let q2 = eng.ar.eq(e, half);
            let q3 = eng.ar.eq(e, last);
            let o = eng.ar.or(q1, q2);
            let o = eng.ar.or(o, q3);
            eng.assume(st, o)?;
            eng.concretize(st, &Val::E(e), 64)?
        } else {
            eng.concretize(st, &Val::E(e), 64)?
        };
        done(st, "write", &fl, "short", k);
    } else {
        let d = if f.std == 1 { "write stdout".to_string() } else { format!("write {}", String::from_utf8_lossy(&f.name)) };
        done(st, &d, &None, "", 0);
    }
    if f.std == 1 {
        env_mut(st).stdout.extend(bytes[..k as usize].iter().cloned());
        return Ok(Val::C(k));
    }
    let app = f.flags & 0x400 != 0;
    {
        let e = env_mut(st);
        let ino = &mut e.inodes[f.inode];
        let d = Rc::make_mut(&mut ino.data);
        let pos = if app { d.len() } else { f.pos as usize };
        while d.len() < pos {
            d.push(Val::C(0));
        }
        for i in 0..k as usize {
            if pos + i < d.len() {
                d[pos + i] = bytes[i].clone();
            } else {
                d.push(bytes[i].clone());
            }
        }
        if let Some(Some(x)) = e.fds.get_mut(fd as usize) {
            x.pos = pos as u64 + k;
        }
    }
    check_watch(eng, st, "a write")?;
    Ok(Val::C(k))
}
fn write(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fd = eng.concretize(st, &a[0], 32)?;
    let n = eng.concretize(st, &a[2], 64)?;
    let b = eng.bytes(st, &a[1], n)?;
    do_write(eng, st, fd, b)
}
fn writev(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fd = eng.concretize(st, &a[0], 32)?;
    let n = eng.concretize(st, &a[2], 32)?;
    let mut b = vec![];
    for i in 0..n {
        let q = eng.padd(&a[1], i * 16);
        let p = eng.load_bits(st, &q, 8)?;
        let q = eng.padd(&a[1], i * 16 + 8);
        let l = eng.load_bits(st, &q, 8)?;
        let l = eng.concretize(st, &l, 64)?;
        b.extend(eng.bytes(st, &p, l)?);
    }
    do_write(eng, st, fd, b)
}
fn close(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fd = eng.concretize(st, &a[0], 32)?;
    if let Some(x) = env_mut(st).fds.get_mut(fd as usize) {
        if fd > 2 {
            *x = None;
        }
    }
    Ok(Val::C(0))
}
fn lseek(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fd = eng.concretize(st, &a[0], 32)?;
    let off = eng.concretize(st, &a[1], 64)?;
    let wh = eng.concretize(st, &a[2], 32)?;
    let f = match get_fd(st, fd) {
        Some(f) if f.std == 0 => f,
        _ => return fail(eng, st, EINVAL, 64),
    };
    let len = st.env.inodes[f.inode].data.len() as u64;
    let np = match wh {
        0 => off,
        1 => f.pos.wrapping_add(off),
        _ => len.wrapping_add(off),
    };
    if let Some(Some(x)) = env_mut(st).fds.get_mut(fd as usize) {
        x.pos = np;
    }
    Ok(Val::C(np))
}
fn ftruncate(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fd = eng.concretize(st, &a[0], 32)?;
    let n = eng.concretize(st, &a[1], 64)?;
    let f = match get_fd(st, fd) {
        Some(f) if f.std == 0 => f,
        _ => return fail(eng, st, EINVAL, 32),
    };
    let fl = fault(eng, st, "ftruncate", &[("eio", EIO)])?;
    done(st, "ftruncate", &fl, "eio", 0);
    if fl.is_some() {
        return fail(eng, st, EIO, 32);
    }
    Rc::make_mut(&mut env_mut(st).inodes[f.inode].data).resize(n as usize, Val::C(0));
    check_watch(eng, st, "truncation")?;
    Ok(Val::C(0))
}
fn fsync(eng: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    let fl = fault(eng, st, "fsync", &[("eio", EIO)])?;
    done(st, "fsync", &fl, "eio", 0);
    if fl.is_some() {
        return fail(eng, st, EIO, 32);
    }
    Ok(Val::C(0))
}
fn rename_paths(eng: &mut Eng, st: &mut State, from: &Val, to: &Val) -> R<Val> {
    let from = norm(&eng.cstr(st, from)?);
    let to = norm(&eng.cstr(st, to)?);
    let fl = fault(eng, st, "rename", &[("exdev", EXDEV), ("eacces", EACCES), ("enospc", ENOSPC)])?;
    let nm = fl.map(|x| ["exdev", "eacces", "enospc"][x.0]).unwrap_or("");
    let d = format!("rename {} {}", String::from_utf8_lossy(&from), String::from_utf8_lossy(&to));
    done(st, &d, &fl, nm, 0);
    if let Some((_, e)) = fl {
        return fail(eng, st, e, 32);
    }
    let i = match lookup_name(st, &from) {
        Some(i) => i,
        None => return fail(eng, st, ENOENT, 32),
    };
    if to.contains(&b'/') {
        return fail(eng, st, ENOENT, 32);
    }
    if let Some(j) = lookup_name(st, &to) {
        if st.env.inodes[j].dir {
            return fail(eng, st, EISDIR, 32);
        }
    }
    if from != to {
        let e = env_mut(st);
        e.names.retain(|n| n.0 != from && n.0 != to);
        e.names.push((to, i));
    }
    check_watch(eng, st, "a rename")?;
    Ok(Val::C(0))
}
fn rename(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    rename_paths(eng, st, &a[0], &a[1])
}
fn renameat(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    rename_paths(eng, st, &a[1], &a[3])
}
fn link(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    link_paths(eng, st, &a[0], &a[1])
}
fn linkat(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    link_paths(eng, st, &a[1], &a[3])
}
fn link_paths(eng: &mut Eng, st: &mut State, from: &Val, to: &Val) -> R<Val> {
    let from = norm(&eng.cstr(st, from)?);
    let to = norm(&eng.cstr(st, to)?);
    let fl = fault(eng, st, "link", &[("eacces", EACCES)])?;
    done(st, "link", &fl, "eacces", 0);
    if fl.is_some() {
        return fail(eng, st, EACCES, 32);
    }
    match (lookup_name(st, &from), lookup_name(st, &to)) {
        (Some(i), None) => {
            env_mut(st).names.push((to, i));
            Ok(Val::C(0))
        }
        (None, _) => fail(eng, st, ENOENT, 32),
        _ => fail(eng, st, EEXIST, 32),
    }
}
fn unlink_path(eng: &mut Eng, st: &mut State, p: &Val) -> R<Val> {
    let p = norm(&eng.cstr(st, p)?);
    let fl = fault(eng, st, "unlink", &[("eacces", EACCES), ("eio", EIO)])?;
    let nm = fl.map(|x| ["eacces", "eio"][x.0]).unwrap_or("");
    done(st, &format!("unlink {}", String::from_utf8_lossy(&p)), &fl, nm, 0);
    if let Some((_, e)) = fl {
        return fail(eng, st, e, 32);
    }
    match lookup_name(st, &p) {
        Some(i) => {
            if st.env.inodes[i].dir {
                return fail(eng, st, EISDIR, 32);
            }
            env_mut(st).names.retain(|n| n.0 != p);
            check_watch(eng, st, "an unlink")?;
            Ok(Val::C(0))
        }
        None => fail(eng, st, ENOENT, 32),
    }
}
fn unlink(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    unlink_path(eng, st, &a[0])
}
fn unlinkat(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    unlink_path(eng, st, &a[1])
}
fn access(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let p = norm(&eng.cstr(st, &a[0])?);
    if p == b"." || lookup_name(st, &p).is_some() {
        Ok(Val::C(0))
    } else {
        fail(eng, st, ENOENT, 32)
    }
}

/// (size, mode, ino)
fn stat_of(st: &State, inode: usize) -> (u64, u64, u64) {
    let n = &st.env.inodes[inode];
    (n.data.len() as u64, if n.dir { 0o040755 } else { 0o100644 }, inode as u64 + 100)
}
fn stat_path(eng: &mut Eng, st: &mut State, p: &Val) -> R<Option<(u64, u64, u64)>> {
    let p = norm(&eng.cstr(st, p)?);
    if p == b"." || p == b"/w" || p == b"/w/" {
        return Ok(Some((0, 0o040755, 1)));
    }
    Ok(lookup_name(st, &p).map(|i| stat_of(st, i)))
}
fn stat_fd(st: &State, fd: u64) -> Option<(u64, u64, u64)> {
    get_fd(st, fd).map(|f| if f.std != 0 { (0, 0o010600, 3) } else { stat_of(st, f.inode) })
}
fn put_stat(eng: &mut Eng, st: &mut State, buf: &Val, s: (u64, u64, u64)) -> R<()> {
    eng.fill(st, buf, &Val::C(0), 144)?;
    for (o, n, v) in [(0u64, 8u32, 1u64), (8, 8, s.2), (16, 8, 1), (24, 4, s.1), (48, 8, s.0), (56, 8, 4096), (64, 8, (s.0 + 511) / 512)] {
        let q = eng.padd(buf, o);
        eng.store_bits(st, &q, &Val::C(v), n)?;
    }
    Ok(())
}
fn stat64(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    match stat_path(eng, st, &a[0])? {
        Some(s) => {
            put_stat(eng, st, &a[1], s)?;
            Ok(Val::C(0))
        }
        None => fail(eng, st, ENOENT, 32),
    }
}
fn fstat64(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let fd = eng.concretize(st, &a[0], 32)?;
    match stat_fd(st, fd) {
        Some(s) => {
            put_stat(eng, st, &a[1], s)?;
            Ok(Val::C(0))
        }
        None => fail(eng, st, EBADF, 32),
    }
}
fn do_statx(eng: &mut Eng, st: &mut State, dirfd: &Val, path: &Val, buf: &Val, bits: u32) -> R<Val> {
    let dirfd = eng.concretize(st, dirfd, 32)? as u32 as i32;
    if let Val::C(0) = path {
        return fail(eng, st, 14, bits);
    }
    let s = eng.cstr(st, path)?;
    let r = if s.is_empty() && dirfd >= 0 { stat_fd(st, dirfd as u64) } else { stat_path(eng, st, path)? };
    match r {
        Some(s) => {
            eng.fill(st, buf, &Val::C(0), 256)?;
            for (o, n, v) in [(0u64, 4u32, 0xfffu64), (4, 4, 4096), (16, 4, 1), (28, 2, s.1), (32, 8, s.2), (40, 8, s.0), (48, 8, (s.0 + 511) / 512)] {
                let q = eng.padd(buf, o);
                eng.store_bits(st, &q, &Val::C(v), n)?;
            }
            Ok(Val::C(0))
        }
        None => fail(eng, st, ENOENT, bits),
    }
}
fn statx(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    do_statx(eng, st, &a[0], &a[1], &a[4], 32)
}
fn syscall(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[0], 64)?;
    match n {
        332 => do_statx(eng, st, &a[1], &a[2], &a[5], 64),
        318 => getrandom_(eng, st, &a[1], &a[2]),
        186 => Ok(Val::C(4242)),
        202 => Ok(Val::C(0)),
        _ => fail(eng, st, ENOSYS, 64),
    }
}
fn getrandom_(eng: &mut Eng, st: &mut State, p: &Val, n: &Val) -> R<Val> {
    let n = eng.concretize(st, n, 64)?;
    for i in 0..n {
        let q = eng.padd(p, i);
        eng.store_bits(st, &q, &Val::C(0x37), 1)?;
    }
    Ok(Val::C(n))
}
fn getrandom(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    getrandom_(eng, st, &a[0], &a[1])
}
fn errno_location(_: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(st.env.errno))
}
fn zero(_: &mut Eng, _: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(0))
}
fn one(_: &mut Eng, _: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(1))
}
fn pid(_: &mut Eng, _: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(4242))
}
fn enosys(eng: &mut Eng, st: &mut State, _: &[Val], ci: &CallInfo) -> R<Val> {
    let b = eng.ty_bits(ci.ret);
    fail(eng, st, ENOSYS, b)
}
fn enotty(eng: &mut Eng, st: &mut State, _: &[Val], ci: &CallInfo) -> R<Val> {
    let b = eng.ty_bits(ci.ret);
    fail(eng, st, ENOTTY, b)
}
fn isatty(eng: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    fail(eng, st, ENOTTY, 32)?;
    Ok(Val::C(0))
}
fn sysconf(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[0], 32)?;
    Ok(Val::C(match n {
        30 => 4096,
        83 | 84 => 1,
        _ => u64::MAX,
    }))
}
fn getauxval(_: &mut Eng, _: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(0))
}
fn mmap(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[1], 64)?;
    Ok(Val::C(eng.alloc(st, n, Kind::Env)?))
}
fn getcwd(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    eng.write_bytes(st, &a[0], b"/w\0")?;
    Ok(a[0].clone())
}
fn clock_gettime(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    eng.store_bits(st, &a[1], &Val::C(1_700_000_000), 8)?;
    let q = eng.padd(&a[1], 8);
    eng.store_bits(st, &q, &Val::C(0), 8)?;
    Ok(Val::C(0))
}
fn key_create(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let k = st.env.keys + 1;
    eng.store_bits(st, &a[0], &Val::C(k), 4)?;
    env_mut(st).keys = k;
    Ok(Val::C(0))
}
fn attr_getstack(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    eng.store_bits(st, &a[1], &Val::C(0x7ffd_0000_0000), 8)?;
    eng.store_bits(st, &a[2], &Val::C(0x80_0000), 8)?;
    Ok(Val::C(0))
}
fn strerror_r(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    eng.write_bytes(st, &a[1], b"error\0")?;
    Ok(Val::C(0))
}
fn no_threads(_: &mut Eng, _: &mut State, _: &[Val], ci: &CallInfo) -> R<Val> {
    err(format!("thread creation ({}) is outside the model", ci.name))
}
fn do_exit(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let c = eng.concretize(st, &a[0], 32)?;
    if !st.env.in_main {
        return Err(End::Viol("panic".into(), format!("exit({c}) called")));
    }
    env_mut(st).exit = Some(c & 0xff);
    st.frames.clear();
    Err(End::Done)
}

// ------------------------------------------------------------ harness side

fn sbytes(eng: &mut Eng, st: &mut State, p: &Val, n: &Val) -> R<Vec<Val>> {
    let n = eng.concretize(st, n, 64)?;
    eng.bytes(st, p, n)
}
fn sname(eng: &mut Eng, st: &mut State, p: &Val, n: &Val) -> R<Vec<u8>> {
    let n = eng.concretize(st, n, 64)?;
    eng.cbytes(st, p, n)
}
/// (path, plen, data, dlen)
fn fs_put(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let p = norm(&sname(eng, st, &a[0], &a[1])?);
    let d = sbytes(eng, st, &a[2], &a[3])?;
    let e = env_mut(st);
    e.names.retain(|n| n.0 != p);
    e.inodes.push(Inode { data: Rc::new(d), dir: false });
    let i = e.inodes.len() - 1;
    e.names.push((p, i));
    Ok(Val::C(0))
}
fn fs_mkdir(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let p = norm(&sname(eng, st, &a[0], &a[1])?);
    let e = env_mut(st);
    e.inodes.push(Inode { data: Rc::new(vec![]), dir: true });
    let i = e.inodes.len() - 1;
    e.names.push((p, i));
    Ok(Val::C(0))
}
/// (path, plen, buf, cap) -> length or -1
fn fs_get(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let p = norm(&sname(eng, st, &a[0], &a[1])?);
    let cap = eng.concretize(st, &a[3], 64)?;
    match lookup_name(st, &p) {
        None => Ok(Val::C(u64::MAX)),
        Some(i) => {
            let d = st.env.inodes[i].data.clone();
            for (k, v) in d.iter().enumerate().take(cap as usize) {
                let q = eng.padd(&a[2], k as u64);
                eng.store_bits(st, &q, v, 1)?;
            }
            Ok(Val::C(d.len() as u64))
        }
    }
}
fn fs_count(_: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(st.env.names.len() as u64))
}
fn fs_faults(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[0], 64)?;
    env_mut(st).faults_left = n;
    Ok(Val::C(0))
}
/// turns fault injection on or off inside a library harness
fn fs_armed(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let n = eng.concretize(st, &a[0], 64)?;
    env_mut(st).in_main = n != 0;
    Ok(Val::C(0))
}
fn fs_nfaults(_: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(st.env.fault_log.len() as u64))
}
/// number of faults that were not a mere interruption or short transfer
fn fs_nhard(_: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(st.env.fault_log.iter().filter(|f| f.1 != "eintr" && f.1 != "short").count() as u64))
}
/// (path, plen, old, oldlen, new, newlen)
fn fs_watch(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let path = norm(&sname(eng, st, &a[0], &a[1])?);
    let old = sbytes(eng, st, &a[2], &a[3])?;
    let new = sbytes(eng, st, &a[4], &a[5])?;
    env_mut(st).watch = Some(Watch { path, old, new });
    Ok(Val::C(0))
}
fn fs_remove(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let p = norm(&sname(eng, st, &a[0], &a[1])?);
    env_mut(st).names.retain(|n| n.0 != p);
    Ok(Val::C(0))
}
/// (path, plen, n): reads of this file at n or beyond do not fail
fn fs_calm(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let p = norm(&sname(eng, st, &a[0], &a[1])?);
    let n = eng.concretize(st, &a[2], 64)?;
    env_mut(st).calm = Some((p, n));
    Ok(Val::C(0))
}
fn arg(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let p = sname(eng, st, &a[0], &a[1])?;
    env_mut(st).args.push(p);
    Ok(Val::C(0))
}
fn get_stdout(eng: &mut Eng, st: &mut State, a: &[Val], _: &CallInfo) -> R<Val> {
    let cap = eng.concretize(st, &a[1], 64)?;
    let d = st.env.stdout.clone();
    for (k, v) in d.iter().enumerate().take(cap as usize) {
        let q = eng.padd(&a[0], k as u64);
        eng.store_bits(st, &q, v, 1)?;
    }
    Ok(Val::C(d.len() as u64))
}
fn exit_code(_: &mut Eng, st: &mut State, _: &[Val], _: &CallInfo) -> R<Val> {
    Ok(Val::C(st.env.exit.unwrap_or(0)))
}

pub fn lookup(name: &str) -> Option<BF> {
    Some(match name {
        "open64" | "open" => open,
        "openat64" | "openat" => openat,
        "read" => read,
        "pread64" | "pread" => pread,
        "write" => write,
        "writev" => writev,
        "close" => close,
        "lseek64" | "lseek" => lseek,
        "ftruncate64" | "ftruncate" => ftruncate,
        "fsync" | "fdatasync" => fsync,
        "rename" => rename,
        "renameat" | "renameat2" => renameat,
        "link" => link,
        "linkat" => linkat,
        "unlink" => unlink,
        "unlinkat" => unlinkat,
        "access" => access,
        "stat64" | "stat" | "lstat64" | "lstat" => stat64,
        "fstat64" | "fstat" => fstat64,
        "statx" => statx,
        "syscall" => syscall,
        "getrandom" => getrandom,
        "__errno_location" => errno_location,
        "getpid" | "gettid" | "getuid" | "geteuid" => pid,
        "pthread_self" => one,
        "isatty" => isatty,
        "ioctl" | "tcgetattr" => enotty,
        "sysconf" => sysconf,
        "getauxval" => getauxval,
        "mmap64" | "mmap" => mmap,
        "getcwd" => getcwd,
        "clock_gettime" => clock_gettime,
        "pthread_key_create" => key_create,
        "pthread_attr_getstack" => attr_getstack,
        "__xpg_strerror_r" => strerror_r,
        "pthread_create" => no_threads,
        "exit" | "_exit" => do_exit,
        "getenv" | "realpath" | "fcntl" | "fcntl64" | "dlsym" | "dl_iterate_phdr" | "munmap" | "mprotect" | "poll" | "signal" | "sigaction" | "sigaltstack" | "sched_yield" | "pause" | "pthread_key_delete"
        | "pthread_setspecific" | "pthread_getspecific" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_getattr_np" | "pthread_attr_getguardsize"
        | "pthread_setname_np" | "pthread_detach" | "pthread_join" | "pthread_attr_setguardsize" | "__cxa_thread_atexit_impl" | "fchmod" | "posix_fadvise64" | "flock" | "pthread_mutex_lock"
        | "pthread_mutex_unlock" | "pthread_rwlock_rdlock" | "pthread_rwlock_unlock" | "nanosleep" | "sigemptyset" | "sigaddset" | "pthread_sigmask" | "tzset" | "atexit" | "__cxa_atexit" | "pthread_atfork" => zero,
        "sched_getaffinity" | "readlink" | "copy_file_range" | "sendfile64" | "splice" | "mkdir" | "rmdir" | "opendir" => enosys,
        "rsx_fs_put" => fs_put,
        "rsx_fs_mkdir" => fs_mkdir,
        "rsx_fs_get" => fs_get,
        "rsx_fs_count" => fs_count,
        "rsx_fs_faults" => fs_faults,
        "rsx_fs_armed" => fs_armed,
        "rsx_fs_nfaults" => fs_nfaults,
        "rsx_fs_nhard" => fs_nhard,
        "rsx_fs_watch" => fs_watch,
        "rsx_fs_remove" => fs_remove,
        "rsx_fs_calm" => fs_calm,
        "rsx_arg" => arg,
        "rsx_stdout" => get_stdout,
        "rsx_exit_code" => exit_code,
        _ => return None,
    })
}

pub fn initial() -> Env {
    let mut e = Env::default();
    for i in 0..3u8 {
        e.fds.push(Some(Fd { inode: 0, pos: 0, flags: 2, std: if i == 0 { 3 } else { i }, name: vec![] }));
    }
    e.inodes.push(Inode { data: Rc::new(vec![]), dir: true });
    e
}
#[allow(dead_code)]
fn _t(_: TyId, _: E) {}
