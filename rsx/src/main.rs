//! rsx: symbolic execution of LLVM IR, deciding branches and assertions with Z3.

mod env;
mod exec;
mod expr;
mod intrinsics;
mod ir;
mod mem;
mod solver;

use exec::*;
use expr::*;
use ir::*;
use mem::{Kind, Mem, Obj};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Opts {
    file: String,
    entry: Vec<String>,
    threads: usize,
    time: u64,
    out: String,
    samples: usize,
    max_steps: u64,
    max_viol: usize,
    z3_ms: u32,
    lia: bool,
    split: bool,
    bv: bool,
    trace: bool,
    fork_sites: bool,
}

fn parse_opts() -> Opts {
    let mut o = Opts { file: String::new(), entry: vec![], threads: 8, time: 600, out: String::new(), samples: 16, max_steps: 200_000_000, max_viol: 1, z3_ms: 60_000, lia: false, split: false, bv: false, trace: false, fork_sites: false };
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--entry" => o.entry = v.split(',').map(|s| s.to_string()).collect(),
            "--threads" => o.threads = v.parse().unwrap(),
            "--time" => o.time = v.parse().unwrap(),
            "--out" => o.out = v,
            "--samples" => o.samples = v.parse().unwrap(),
            "--max-steps" => o.max_steps = v.parse().unwrap(),
            "--max-viol" => o.max_viol = v.parse().unwrap(),
            "--z3-ms" => o.z3_ms = v.parse().unwrap(),
            "--split" => {
                o.split = true;
                i += 1;
                continue;
            }
            "--lia" | "--bv" => {
                if a[i] == "--lia" {
                    o.lia = true;
                } else {
                    o.bv = true;
                }
                i += 1;
                continue;
            }
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            "--fork-sites" => {
                o.fork_sites = true;
                i += 1;
                continue;
            }
            f => {
                o.file = f.to_string();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    o
}

/// Functions whose only effect is to release memory.
fn pure_free(m: &Module) -> Vec<bool> {
    let n = m.funcs.len();
    let mut ok = vec![false; n];
    let is_free = |name: &str| name == "free" || name.ends_with("7___rustc14___rust_dealloc") || name.ends_with("7___rustc14___rdl_dealloc");
    let harmless = |name: &str| {
        name.starts_with("llvm.lifetime") || name.starts_with("llvm.assume") || name.starts_with("llvm.experimental.noalias") || name.starts_with("llvm.threadlocal") || name.starts_with("llvm.umul.with") || name.starts_with("llvm.umax") || name.starts_with("llvm.umin")
    };
    for (i, f) in m.funcs.iter().enumerate() {
        ok[i] = f.defined && m.ty(f.ret).ty == Ty::Void && (f.name.contains("9drop_glue") || f.name.contains("drop_in_place") || f.name.contains("4drop4Drop4drop"));
        if is_free(&f.name) {
            ok[i] = true;
        }
    }
    loop {
        let mut changed = false;
        for i in 0..n {
            let f = &m.funcs[i];
            if !ok[i] || !f.defined || is_free(&f.name) {
                continue;
            }
            let mut good = true;
            let mut local: std::collections::HashSet<u32> = Default::default();
            loop {
                let before = local.len();
                for b in &f.blocks {
                    for x in &b.insts {
                        let isl = |o: &Opd| matches!(o, Opd::Reg(r) if local.contains(r));
                        let d = match x {
                            Inst::Alloca { d, .. } => Some(*d),
                            Inst::Select { d, a, b, .. } if isl(a) && isl(b) => Some(*d),
                            Inst::Gep { d, base, .. } if isl(base) => Some(*d),
                            _ => None,
                        };
                        if let Some(d) = d {
                            local.insert(d);
                        }
                    }
                    for p in &b.phis {
                        if p.inc.iter().all(|(_, o)| matches!(o, Opd::Reg(r) if local.contains(r))) {
                            local.insert(p.d);
                        }
                    }
                }
                if local.len() == before {
                    break;
                }
            }
            for b in &f.blocks {
                for x in &b.insts {
                    match x {
                        Inst::Alloca { .. } => {}
                        Inst::Store { p, .. } => {
                            if !matches!(p, Opd::Reg(r) if local.contains(r)) {
                                good = false;
                            }
                        }
                        Inst::Rmw { .. } | Inst::CmpXchg { .. } | Inst::Unsupported(_) | Inst::Fence => good = false,
                        Inst::Call { f: Callee::Func(g), .. } => {
                            let nm = &m.funcs[*g as usize].name;
                            if !ok[*g as usize] && !harmless(nm) {
                                good = false;
                            }
                        }
                        Inst::Call { .. } => good = false,
                        _ => {}
                    }
                }
            }
            if !good {
                ok[i] = false;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    ok
}

fn handlers(m: &Module) -> Vec<Handler> {
    let pf = pure_free(m);
    m.funcs
        .iter()
        .enumerate()
        .map(|(i, f)| {
            if let Some(b) = intrinsics::lookup(&f.name) {
                if f.name == "free" {
                    return Handler::Skip;
                }
                return Handler::Builtin(b);
            }
            if pf[i] {
                return Handler::Skip;
            }
            if f.defined {
                Handler::Defined
            } else {
                Handler::Undefined
            }
        })
        .collect()
}

fn initial(m: &Module) -> State {
    let mut mem = Mem::new(1);
    for g in &m.globals {
        let id = (g.addr >> 32) as u32;
        let mut o = Obj::new(g.size as usize, Kind::Global);
        o.data.copy_from_slice(&g.init);
        o.ro = g.constant;
        mem.set(id, o);
        if id >= mem.next {
            mem.next = id + 1;
        }
    }
    let mut e = env::initial();
    let id = mem.alloc(Obj::new(8, Kind::Env)).unwrap();
    e.errno = (id as u64) << 32;
    State {
        frames: vec![],
        mem,
        path: None,
        npath: 0,
        known: Rc::new(FxMap::default()),
        dec: None,
        ndec: 0,
        prefix: Rc::new(vec![]),
        model: Rc::new(vec![]),
        stamp: 1,
        inputs: Rc::new(vec![]),
        ninput: 0,
        logs: Rc::new(vec![]),
        reached: Rc::new(vec![]),
        steps: 0,
        forks: 0,
        inst_vars: vec![],
        inst_pos: 0,
        conc: Rc::new(FxMap::default()),
        ret: Val::C(0),
        env: Rc::new(e),
    }
}

fn key_of(st: &State) -> String {
    let e = &st.env;
    let mut k = format!("{:?}", st.reached);
    for f in &e.fault_log {
        k += &format!("{} {};", f.1, e.oplog.get(f.0 as usize).map(|s| s.as_str()).unwrap_or(""));
    }
    k
}

/// Start the next phase: an entry function by name; "main" gets argc/argv.
fn next_phase(eng: &mut Eng, st: &mut State, entry: &[String]) -> R<bool> {
    let ph = st.env.phase;
    if ph > 0 && entry[ph - 1] == "main" && st.env.in_main {
        let ret = st.ret.clone();
        let c = eng.concretize(st, &ret, 32)?;
        let e = Rc::make_mut(&mut st.env);
        e.in_main = false;
        if e.exit.is_none() {
            e.exit = Some(c & 0xff);
        }
    }
    if ph >= entry.len() {
        return Ok(false);
    }
    let name = &entry[ph];
    Rc::make_mut(&mut st.env).phase += 1;
    let f = match eng.m.func_by_name.get(name) {
        Some(f) => *f,
        None => return err(format!("no function {name}")),
    };
    if name == "main" {
        // argv
        let args = st.env.args.clone();
        let argv = eng.alloc(st, 8 * (args.len() as u64 + 2), Kind::Env)?;
        for (i, a) in args.iter().enumerate() {
            let p = eng.alloc(st, a.len() as u64 + 1, Kind::Env)?;
            eng.write_bytes(st, &Val::C(p), a)?;
            eng.store_bits(st, &Val::C(argv + 8 * i as u64), &Val::C(p), 8)?;
        }
        let av = vec![Val::C(args.len() as u64), Val::C(argv), Val::C(argv + 8 * args.len() as u64)];
        Rc::make_mut(&mut st.env).in_main = true;
        // the argument-capturing initialiser runs first
        let m = eng.m.clone();
        eng.push_call(st, f, av[..2].to_vec(), NODST, None)?;
        for g in &m.globals {
            if g.name.contains("ARGV_INIT_ARRAY") {
                if let Val::C(a) = eng.load_int(st, g.addr, 8)? {
                    if a >= FUNC_BASE {
                        eng.push_call(st, ((a - FUNC_BASE) / 16) as u32, av.clone(), NODST, None)?;
                    }
                }
            }
        }
    } else {
        eng.push_call(st, f, vec![], NODST, None)?;
    }
    Ok(true)
}

fn decs(st: &State) -> Vec<u8> {
    let mut v = vec![];
    let mut n = st.dec.as_ref();
    while let Some(d) = n {
        v.push(d.d);
        n = d.next.as_ref();
    }
    v.reverse();
    v
}

struct Sample {
    inputs: Vec<(u8, u32, u64)>,
    logs: Vec<u64>,
    faults: Vec<(u32, String, u64)>,
    reached: Vec<String>,
    insts: u64,
    /// what was reached, and which faults hit which operations
    key: String,
}
struct Violation {
    kind: String,
    msg: String,
    stack: Vec<String>,
    s: Sample,
    oplog: Vec<String>,
}

#[derive(Default)]
struct Agg {
    cnt: Counters,
    q: solver::Stats,
    viols: Vec<Violation>,
    errs: Vec<String>,
    samples: Vec<Sample>,
    special: Vec<Sample>,
    labels: BTreeMap<String, u64>,
    covered: Vec<bool>,
    blocks: Vec<Vec<bool>>,
    unknown: bool,
    exprs: u64,
    replays: u64,
    ops: BTreeMap<String, u64>,
    sites: BTreeMap<(u32, u32), u64>,
    dsites: BTreeMap<(u32, u32), u64>,
}

struct Shared {
    q: Mutex<Vec<Vec<u8>>>,
    cv: Condvar,
    idle: AtomicUsize,
    nq: AtomicUsize,
    stop: Arc<AtomicBool>,
    finished: AtomicBool,
    agg: Mutex<Agg>,
    nviol: AtomicUsize,
    npaths: AtomicUsize,
}

fn sample(eng: &mut Eng, st: &State) -> Sample {
    let mut inputs = vec![];
    for i in st.inputs.iter() {
        for e in i.vars.iter() {
            let v = eng.eval(st, *e) as u64;
            inputs.push((i.kind, eng.ar.w(*e), v));
        }
    }
    let mut logs = vec![];
    for l in st.logs.iter() {
        let v = match l {
            Val::C(x) => *x,
            Val::E(e) => eng.eval(st, *e) as u64,
            _ => 0,
        };
        logs.push(v);
    }
    Sample { key: key_of(st), inputs, logs, faults: st.env.fault_log.clone(), reached: st.reached.iter().map(|i| eng.labels[*i as usize].clone()).collect(), insts: st.steps }
}

fn worker(sh: &Shared, m: Arc<Module>, o: &Opts, wid: usize) {
    let mut eng = Eng::new(m.clone(), handlers(&m), o.z3_ms, Cfg { max_steps: o.max_steps, trace: o.trace, lia: o.lia, split: o.split, bv: o.bv }, sh.stop.clone());
    eng.prof = o.trace;
    let init = initial(&m);
    let mut samples: Vec<Sample> = vec![];
    let mut special: Vec<Sample> = vec![];
    let mut labels: BTreeMap<u32, u64> = BTreeMap::new();
    let mut ops: BTreeMap<String, u64> = BTreeMap::new();
    let mut errs: Vec<String> = vec![];
    let mut replays = 0u64;
    let mut rng = 0x9e37_79b9_7f4a_7c15u64 ^ ((wid as u64) << 32);
    'jobs: loop {
        let job = {
            let mut q = sh.q.lock().unwrap();
            sh.idle.fetch_add(1, Ordering::SeqCst);
            loop {
                if sh.stop.load(Ordering::SeqCst) || sh.finished.load(Ordering::SeqCst) {
                    break 'jobs;
                }
                if let Some(j) = q.pop() {
                    sh.nq.store(q.len(), Ordering::SeqCst);
                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                    break j;
                }
                if sh.idle.load(Ordering::SeqCst) == o.threads {
                    sh.finished.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    break 'jobs;
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
            }
        };
        if !job.is_empty() {
            replays += 1;
        }
        let warm = eng.warm.clone();
        let mut st0 = warm.clone().unwrap_or_else(|| init.clone());
        st0.prefix = Rc::new(job);
        match if warm.is_some() { Ok(true) } else { next_phase(&mut eng, &mut st0, &o.entry) } {
            Ok(_) => {}
            Err(e) => {
                errs.push(format!("{e:?}"));
                sh.stop.store(true, Ordering::SeqCst);
                continue;
            }
        }
        eng.stack.push(st0);
        while let Some(mut st) = eng.stack.pop() {
            if sh.stop.load(Ordering::Relaxed) {
                break;
            }
            let s0 = st.steps;
            let end = loop {
                match eng.run(&mut st) {
                    End::Done => {
                        if st.frames.is_empty() {
                            match next_phase(&mut eng, &mut st, &o.entry) {
                                Ok(true) => continue,
                                Ok(false) => break End::Done,
                                Err(e) => break e,
                            }
                        }
                        break End::Done;
                    }
                    e => break e,
                }
            };
            eng.cnt.max_path_insts = eng.cnt.max_path_insts.max(st.steps);
            let _ = s0;
            match end {
                End::Done => {
                    eng.cnt.paths += 1;
                    sh.npaths.fetch_add(1, Ordering::Relaxed);
                    for l in st.reached.iter() {
                        *labels.entry(*l).or_insert(0) += 1;
                    }
                    for op in &st.env.oplog {
                        if ops.len() < 200 {
                            *ops.entry(op.clone()).or_insert(0) += 1;
                        }
                    }
                    rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let key = if st.env.fault_log.is_empty() { String::new() } else { key_of(&st) };
                    if !key.is_empty() && special.len() < o.samples && !special.iter().any(|s: &Sample| s.key == key) {
                        let s = sample(&mut eng, &st);
                        special.push(s);
                    } else if samples.len() < o.samples {
                        let s = sample(&mut eng, &st);
                        samples.push(s);
                    } else if o.samples > 0 && (rng >> 33) % eng.cnt.paths < o.samples as u64 {
                        let s = sample(&mut eng, &st);
                        let k = (rng >> 40) as usize % o.samples;
                        samples[k] = s;
                    }
                }
                End::Killed => eng.cnt.killed += 1,
                End::Viol(kind, msg) => {
                    eng.cnt.paths += 1;
                    let s = sample(&mut eng, &st);
                    let stack = eng.where_am_i(&st);
                    let v = Violation { kind, msg, stack, s, oplog: st.env.oplog.clone() };
                    let mut a = sh.agg.lock().unwrap();
                    let dup = a.viols.iter().filter(|x| x.kind == v.kind && x.msg == v.msg).count();
                    if dup == 0 {
                        a.viols.push(v);
                    }
                    let n = a.viols.len();
                    drop(a);
                    sh.nviol.store(n, Ordering::SeqCst);
                    if n >= o.max_viol {
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cv.notify_all();
                    }
                }
                End::Err(e) => {
                    if e != "stopped" {
                        errs.push(format!("{e} in {:?}", eng.where_am_i(&st)));
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cv.notify_all();
                    }
                }
            }
            while eng.stack.len() > 0 && sh.idle.load(Ordering::Relaxed) > sh.nq.load(Ordering::Relaxed) {
                let s = eng.stack.remove(0);
                let d = decs(&s);
                let mut q = sh.q.lock().unwrap();
                q.push(d);
                sh.nq.store(q.len(), Ordering::SeqCst);
                drop(q);
                sh.cv.notify_one();
            }
            if eng.ar.nodes.len() > 6_000_000 && eng.stack.is_empty() {
                eng.ar = Arena::new();
                eng.sol.reset();
            }
        }
        eng.stack.clear();
    }
    let mut a = sh.agg.lock().unwrap();
    let c = &eng.cnt;
    a.cnt.paths += c.paths;
    a.cnt.killed += c.killed;
    a.cnt.insts += c.insts;
    a.cnt.forks += c.forks;
    a.cnt.decisions += c.decisions;
    a.cnt.checks += c.checks;
    a.cnt.checks_const += c.checks_const;
    a.cnt.checks_solver += c.checks_solver;
    a.cnt.known_hits += c.known_hits;
    a.cnt.conc += c.conc;
    a.cnt.max_path_insts = a.cnt.max_path_insts.max(c.max_path_insts);
    let s = &eng.sol.stats;
    a.q.queries += s.queries;
    a.q.sat += s.sat;
    a.q.unsat += s.unsat;
    a.q.unknown += s.unknown;
    a.q.ns += s.ns;
    a.q.max_ns = a.q.max_ns.max(s.max_ns);
    a.unknown |= eng.unknown;
    a.exprs += eng.ar.nodes.len() as u64;
    a.replays += replays;
    a.errs.extend(errs);
    a.samples.extend(samples);
    a.special.extend(special);
    for (k, v) in labels {
        *a.labels.entry(eng.labels[k as usize].clone()).or_insert(0) += v;
    }
    for (k, v) in ops {
        *a.ops.entry(k).or_insert(0) += v;
    }
    for (k, v) in &eng.fork_sites {
        *a.sites.entry(*k).or_insert(0) += v;
    }
    for (k, v) in &eng.dec_sites {
        *a.dsites.entry(*k).or_insert(0) += v;
    }
    if a.covered.is_empty() {
        a.covered = eng.covered.clone();
        a.blocks = eng.blocks_cov.clone();
    } else {
        for i in 0..eng.covered.len() {
            if eng.covered[i] {
                a.covered[i] = true;
                for j in 0..eng.blocks_cov[i].len() {
                    if eng.blocks_cov[i][j] {
                        a.blocks[i][j] = true;
                    }
                }
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jsample(s: &Sample) -> String {
    format!(
        "{{\"inputs\":[{}],\"logs\":[{}],\"faults\":[{}],\"reached\":[{}],\"insts\":{}}}",
        s.inputs.iter().map(|(k, w, v)| format!("[{k},{w},{v}]")).collect::<Vec<_>>().join(","),
        s.logs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        s.faults.iter().map(|(n, k, x)| format!("[{n},{},{x}]", js(k))).collect::<Vec<_>>().join(","),
        s.reached.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        s.insts
    )
}

fn main() {
    let o = parse_opts();
    let t0 = Instant::now();
    let src = match std::fs::read_to_string(&o.file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("rsx: {}: {e}", o.file);
            std::process::exit(3);
        }
    };
    let m = match Parser::new().parse(&src) {
        Ok(m) => Arc::new(m),
        Err(e) => {
            eprintln!("rsx: parse error: {e}");
            std::process::exit(3);
        }
    };
    drop(src);
    let parse_s = t0.elapsed().as_secs_f64();
    let sh = Shared {
        q: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        nq: AtomicUsize::new(1),
        stop: Arc::new(AtomicBool::new(false)),
        finished: AtomicBool::new(false),
        agg: Mutex::new(Agg::default()),
        nviol: AtomicUsize::new(0),
        npaths: AtomicUsize::new(0),
    };
    let mut timed_out = false;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for w in 0..o.threads {
            let (sh, m, o) = (&sh, m.clone(), &o);
            hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || worker(sh, m, o, w)).unwrap());
        }
        let mut last = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(20));
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            if t0.elapsed().as_secs() > o.time && !sh.stop.load(Ordering::SeqCst) {
                timed_out = true;
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
            }
            if o.trace && last.elapsed().as_secs() >= 5 {
                last = Instant::now();
                eprintln!("rsx: {:.0}s paths {} idle {} queue {}", t0.elapsed().as_secs_f64(), sh.npaths.load(Ordering::Relaxed), sh.idle.load(Ordering::Relaxed), sh.nq.load(Ordering::Relaxed));
            }
        }
    });
    let a = sh.agg.into_inner().unwrap();
    let status = if !a.viols.is_empty() {
        "violation"
    } else if !a.errs.is_empty() {
        "error"
    } else if timed_out {
        "timeout"
    } else if a.unknown {
        "unknown"
    } else {
        "ok"
    };
    let mut covered = vec![];
    for (i, c) in a.covered.iter().enumerate() {
        if *c {
            let f = &m.funcs[i];
            let nb = a.blocks[i].iter().filter(|x| **x).count();
            covered.push(format!("[{},{},{}]", js(&f.name), nb, f.blocks.len()));
        }
    }
    let mut samples = a.samples;
    samples.sort_by_key(|s| (s.faults.len(), s.insts));
    let step = (samples.len() / o.samples.max(1)).max(1);
    let mut samples: Vec<String> = samples.iter().step_by(step).take(o.samples).map(jsample).collect();
    let mut special = a.special;
    special.sort_by(|a, b| a.key.cmp(&b.key));
    special.dedup_by(|a, b| a.key == b.key);
    let step = (special.len() / o.samples.max(1)).max(1);
    samples.extend(special.iter().step_by(step).take(o.samples).map(jsample));
    let viols: Vec<String> = a
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"oplog\":[{}],\"sample\":{}}}",
                js(&v.kind),
                js(&v.msg),
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                v.oplog.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                jsample(&v.s)
            )
        })
        .collect();
    let c = &a.cnt;
    let out = format!(
        "{{\n\"status\":{},\n\"entry\":{},\n\"paths\":{},\"killed\":{},\"insts\":{},\"forks\":{},\"decisions\":{},\"checks\":{},\"checks_const\":{},\"checks_solver\":{},\"known_hits\":{},\"concretised\":{},\"max_path_insts\":{},\n\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"exprs\":{},\"replays\":{},\n\"parse_s\":{:.3},\"wall_s\":{:.3},\n\"labels\":{{{}}},\n\"ops\":{{{}}},\n\"errors\":[{}],\n\"violations\":[{}],\n\"samples\":[{}],\n\"covered\":[{}]\n}}\n",
        js(status),
        js(&o.entry.join(",")),
        c.paths,
        c.killed,
        c.insts,
        c.forks,
        c.decisions,
        c.checks,
        c.checks_const,
        c.checks_solver,
        c.known_hits,
        c.conc,
        c.max_path_insts,
        a.q.queries,
        a.q.sat,
        a.q.unsat,
        a.q.unknown,
        a.q.ns as f64 / 1e9,
        a.q.max_ns as f64 / 1e9,
        a.exprs,
        a.replays,
        parse_s,
        t0.elapsed().as_secs_f64(),
        a.labels.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
        a.ops.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
        a.errs.iter().take(5).map(|x| js(x)).collect::<Vec<_>>().join(","),
        viols.join(","),
        samples.join(","),
        covered.join(",")
    );
    if o.out.is_empty() {
        println!("{out}");
    } else {
        std::fs::write(&o.out, &out).unwrap();
    }
    if o.trace {
        let mut v: Vec<_> = a.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.iter().take(25) {
            eprintln!("forks {n:8} {} block {}", m.funcs[*f as usize].name, m.funcs[*f as usize].blocks[*b as usize].name);
        }
        let mut v: Vec<_> = a.dsites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.iter().take(25) {
            if *b == u32::MAX {
                eprintln!("instructions {n:8} {}", m.funcs[*f as usize].name);
                continue;
            }
            eprintln!("decisions {n:8} {} block {}", m.funcs[*f as usize].name, m.funcs[*f as usize].blocks[*b as usize].name);
        }
    }
    eprintln!("rsx: {status} paths={} killed={} insts={} queries={} solver={:.1}s wall={:.1}s", c.paths, c.killed, c.insts, a.q.queries, a.q.ns as f64 / 1e9, t0.elapsed().as_secs_f64());
    for e in a.errs.iter().take(3) {
        eprintln!("rsx: error: {e}");
    }
    for v in a.viols.iter().take(3) {
        eprintln!("rsx: violation: {} {}", v.kind, v.msg);
    }
    std::process::exit(match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    });
}
