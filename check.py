#!/usr/bin/env python3
"""check.py PID [quick|thorough]   decides one property on /repo's current tree.

Builds the engine and the harnesses from source, lowers them (with the repository's code) to
LLVM IR, executes them symbolically, replays every counterexample and a sample of the explored
paths against the real build, and writes evidence/PID.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import json, os, sys, time, subprocess, re, threading, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import pipeline as pl
from registry import CHECKS
from demangle import demangle

VERIF = pl.VERIF


def log(*a):
    print(*a, flush=True)


class Inconclusive(Exception):
    pass


def parallel(*fs):
    res = [None] * len(fs)
    errs = []

    def go(i, f):
        try:
            res[i] = f()
        except BaseException as e:  # noqa
            errs.append(e)

    ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(fs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


def run_engine(eng, ll, entry, budget, opts):
    out = os.path.join(pl.BUILD, "out", entry.replace(",", "+") + ".json")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [eng, ll, "--entry", entry, "--threads", "8", "--time", str(int(budget)), "--out", out, "--samples", "24"] + opts
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 120)
    log("  " + p.stdout.strip().replace("\n", "\n  ")[:1500])
    if not os.path.exists(out):
        raise Inconclusive("engine gave no result for %s" % entry)
    with open(out) as f:
        return json.load(f)


def write_inputs(path, sample):
    with open(path, "w") as f:
        for k, w, v in sample["inputs"]:
            if k == 0:  # 1: a fault's choice, replayed by the preloaded injector
                f.write("%d %d\n" % (w, v))


SHIM = None  # preloaded fault injector, for harnesses with faults
BIN = None  # the executable whose main is a phase of the harnesses


def native(replay, entry, sample, path, timeout=30):
    """(outcome, detail) of one recorded input vector on the real build."""
    write_inputs(path, sample)
    scratch = path + ".d"
    subprocess.run(["rm", "-rf", scratch])
    os.makedirs(scratch)
    env = dict(os.environ)
    cwd = scratch
    if BIN:
        # the harness's own phases run undisturbed; the executable runs under the injector
        cwd = os.path.join(scratch, "w")
        os.makedirs(cwd)
        env.update(RSX_BIN=BIN, RSX_SHIM=SHIM, RSX_SIDE=scratch, RSX_FAULTS=",".join("%d:%s:%d" % tuple(f) for f in sample["faults"]))
    elif SHIM:
        env.update(LD_PRELOAD=SHIM, RSX_FAULTS=",".join("%d:%s:%d" % tuple(f) for f in sample["faults"]))
    try:
        p = subprocess.run([replay, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, cwd=cwd, env=env)
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout, "", ""
    finally:
        subprocess.run(["rm", "-rf", scratch])
    m = re.search(r"^CHECK FAILED (.*)$", p.stdout, re.M)
    lg = re.search(r"^LOGS (.*)$", p.stdout, re.M)
    rc = re.search(r"^REACHED (.*)$", p.stdout, re.M)
    lg = lg.group(1) if lg else None
    rc = rc.group(1) if rc else None
    if m:
        return "check", m.group(1), lg, rc
    if "MISMATCH" in p.stdout:
        return "mismatch", p.stdout[-300:], lg, rc
    if p.returncode == 0 and "DONE" in p.stdout:
        return "ok", "", lg, rc
    m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", p.stderr)
    if m:
        return "panic", m.group(1) + " " + m.group(2), lg, rc
    return "crash", "exit %s %s" % (p.returncode, p.stderr[-300:]), lg, rc


def reproduces(kind, msg, out, det):
    if kind == "check":
        return out == "check" and det == msg
    if kind == "panic":
        return out in ("panic", "crash")
    if kind == "hang":
        return out == "hang"
    return out in ("crash", "panic", "check", "hang")


def lib_check(pid, spec, tier, ev):
    groups = spec[tier] if tier in spec else spec["quick"]
    entries = []
    for g in groups:
        entries += [e for e in g["entry"].split(",") if e not in entries]
    t = time.time()
    global SHIM, BIN
    exe = spec.get("exe")
    steps = [pl.build_engine, pl.build_harness_bc, lambda: pl.build_native("dev")]
    if exe:
        steps += [lambda: pl.build_bin_bc(exe), lambda: pl.build_bin(exe, "dev")]
    done = parallel(*steps)
    eng, bc, replay = done[:3]
    if spec.get("faults") or exe:
        SHIM = pl.build_shim()
    if exe:
        BIN = done[4]
        bc = pl.join_bin(bc, done[3], [e for e in entries if e != "main"], os.path.join(pl.BUILD, pid + ".bc"))
    ev["build_s"] = round(time.time() - t, 1)
    ll = os.path.join(pl.BUILD, pid + ".ll")
    t = time.time()
    pl.lower(bc, entries, ll)
    ev["lower_s"] = round(time.time() - t, 1)
    rdir = os.path.join(pl.BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    viol = None
    for g in groups:
        e = g["entry"]
        log("%s: %s" % (pid, e))
        r = run_engine(eng, ll, e, g.get("time", 300), g.get("opts", []))
        ev["runs"].append((g, r))
        if r["violations"]:
            v = r["violations"][0]
            path = os.path.join(rdir, "%s-%s.txt" % (pid, e.replace(",", "+")))
            out, det, _, _ = native(replay, e, v["sample"], path)
            log("  counterexample: %s %s; on the real build: %s %s" % (v["kind"], v["msg"], out, det))
            if reproduces(v["kind"], v["msg"], out, det):
                with open(path + ".why", "w") as f:
                    f.write("property %s harness %s\n%s: %s\nstack: %s\nreplay: %s %s %s\n%s %s\n" % (pid, e, v["kind"], v["msg"], "\n  ".join(demangle(x) for x in v["stack"]), replay, e, path, out, det))
                log("  %s" % json.dumps(v["sample"]["inputs"]))
                log("VIOLATION property=%s replay=%s" % (pid, path))
                ev["violations"] += 1
                return
            raise Inconclusive("counterexample of %s does not reproduce on the real build (%s %s)" % (e, out, det))
        if r["status"] != "ok":
            raise Inconclusive("%s: %s %s" % (e, r["status"], r["errors"][:1]))
        missing = [l for l in g.get("reach", []) if l not in r["labels"]]
        if missing:
            raise Inconclusive("%s: nothing reached %s (vacuous)" % (e, missing))
        n = 0
        for i, s in enumerate(r["samples"]):
            path = os.path.join(rdir, "%s-sample.txt" % pid)
            out, det, lg, rc = native(replay, e, s, path)
            if out != "ok":
                raise Inconclusive("a path of %s that the engine finds good ends with %s %s on the real build" % (e, out, det))
            if lg != ",".join(str(x) for x in s["logs"]) or sorted((rc or "").split("|")) != sorted("|".join(s["reached"]).split("|")):
                raise Inconclusive("a path of %s behaves differently on the real build: %s / %s, %s / %s" % (e, lg, s["logs"], rc, s["reached"]))
            n += 1
        ev["replayed"] += n


def evidence(pid, spec, tier, ev, t0, result):
    funcs = {}
    paths = insts = queries = unsat = sat = checks = forks = 0
    solver = 0.0
    runs = []
    samples = []
    exhaustive = True
    for g, r in ev["runs"]:
        for name, b, n in r["covered"]:
            if b == 0:
                continue
            d = demangle(name)
            o = funcs.get(d, (0, n))
            funcs[d] = (max(o[0], b), n)
        paths += r["paths"]
        insts += r["insts"]
        forks += r["forks"]
        queries += r["queries"]
        unsat += r["unsat"]
        sat += r["sat"]
        solver += r["solver_s"]
        checks += r["checks"]
        runs.append({
            "harness": g["entry"], "bounds": g["bounds"], "status": r["status"], "paths": r["paths"], "instructions": r["insts"], "forks": r["forks"],
            "assertions_reached": r["checks"], "queries": r["queries"], "sat": r["sat"], "unsat": r["unsat"], "unknown": r["unknown"], "solver_s": r["solver_s"], "wall_s": r["wall_s"],
            "labels": r["labels"],
        })
        for s in r["samples"][:3]:
            samples.append({"harness": g["entry"], "inputs": [x[2] for x in s["inputs"]], "reached": s["reached"], "faults": s["faults"], "instructions": s["insts"]})
        if r["status"] != "ok":
            exhaustive = False
    repo = sorted("%s (%d/%d blocks)" % (d, b, n) for d, (b, n) in funcs.items() if re.match(r"<?&?(pw_|\[?pw_)", d) or "pw_diff_lib::" in d.split(" as ")[0] or "pw_cub_diff_lib::" in d.split(" as ")[0])
    doc = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": paths, "transitions": insts, "traces_validated_against_impl": ev["replayed"], "samples": samples,
            "meaning": "states: feasible symbolic paths explored to the end; transitions: IR instructions executed on them; traces: explored paths whose solver model was re-run on the real build with the same result",
            "forks": forks, "assertions_reached": checks, "solver_queries": queries, "solver_sat": sat, "solver_unsat": unsat, "solver_s": round(solver, 2),
            "functions_encoded": len(funcs), "repository_functions_encoded": repo, "bounds": [x["bounds"] for x in runs], "outside_the_bounds": spec.get("outside", ""), "runs": runs,
            "exhaustive": exhaustive and bool(runs) and result == 0, "build_s": ev.get("build_s"), "lower_s": ev.get("lower_s"),
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 1), "violations": ev["violations"], "result": {0: "held", 1: "violated", 2: "no answer"}[result],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


COMMON = [
    "rustc's and LLVM's lowering of the code to IR is right, and so is Z3",
    "the heap never runs out; memory that is read before being written holds zeros; HashMap's hash keys are fixed (the iteration order of a HashMap is not explored)",
    "overflow checks and debug assertions are on, as in the build the tests run; a panic counts as a violation",
]


def main():
    t0 = time.time()
    if sys.argv[1] == "--setup":
        parallel(pl.build_engine, pl.build_harness_bc, lambda: pl.build_native("dev"))
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[pid]
    ev = {"runs": [], "replayed": 0, "violations": 0}
    res = 2
    try:
        lib_check(pid, spec, tier, ev)
        res = 1 if ev["violations"] else 0
    except (Inconclusive, pl.BuildError, subprocess.TimeoutExpired) as e:
        log("%s: no answer: %s" % (pid, e))
    except Exception:
        traceback.print_exc()
    evidence(pid, spec, tier, ev, t0, res)
    log("%s: %s in %.0f s" % (pid, {0: "held", 1: "VIOLATED", 2: "no answer"}[res], time.time() - t0))
    return res


if __name__ == "__main__":
    sys.exit(main())
