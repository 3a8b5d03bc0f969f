"""Builds the engine and the harnesses, and lowers them to the LLVM IR the engine reads."""
import os, re, subprocess, sys, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RSX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    if env:
        e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def llvm_bin():
    root = subprocess.run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


LLVM = None


def llvm(tool):
    global LLVM
    if LLVM is None:
        LLVM = llvm_bin()
    return os.path.join(LLVM, tool)


def build_engine():
    out = os.path.join(BUILD, "rsx")
    sh(["cargo", "build", "--offline", "--release"], env={"CARGO_TARGET_DIR": out}, cwd=os.path.join(VERIF, "rsx"))
    return os.path.join(out, "release", "rsx")


def build_shim():
    out = os.path.join(BUILD, "shim.so")
    sh(["gcc", "-shared", "-fPIC", "-O1", "-o", out, os.path.join(VERIF, "tools", "shim.c"), "-ldl"])
    return out


SYM_ENV = {
    "RUSTFLAGS": "-C no-prepopulate-passes -C save-temps",
}


def newest(d, pat):
    c = [os.path.join(d, f) for f in os.listdir(d) if re.match(pat, f)]
    if not c:
        raise BuildError("no bitcode in %s" % d)
    return max(c, key=os.path.getmtime)


def clean_bc(d, pat):
    if os.path.isdir(d):
        for f in os.listdir(d):
            if re.match(pat, f):
                os.unlink(os.path.join(d, f))


def build_harness_bc():
    """LTO-input bitcode (whole program, unoptimised) of the harness library."""
    t = os.path.join(BUILD, "sym")
    d = os.path.join(t, "release", "deps")
    env = dict(SYM_ENV)
    env["CARGO_TARGET_DIR"] = t
    h = os.path.join(VERIF, "harness")
    if not os.path.isdir(d) or not any(f.endswith(".lto.input.bc") and f.startswith("harness") for f in os.listdir(d)):
        pass
    else:
        # cargo would not re-emit the bitcode of an unchanged crate; that is fine, it is kept
        pass
    sh(["cargo", "rustc", "--offline", "--release", "--lib", "--crate-type", "cdylib"], env=env, cwd=h)
    return newest(d, r"harness.*\.lto\.input\.bc$")


def build_native(profile):
    """The same harnesses linked against the real build, for replaying."""
    t = os.path.join(BUILD, "native")
    cmd = ["cargo", "build", "--offline", "--features", "native", "--bin", "replay"]
    cmd += ["--profile", profile]
    sh(cmd, env={"CARGO_TARGET_DIR": t}, cwd=os.path.join(VERIF, "harness"))
    return os.path.join(t, "debug" if profile == "dev" else profile, "replay")


def build_bin_bc(name):
    """LTO-input bitcode of one of the repository's executables."""
    t = os.path.join(BUILD, "binsym")
    env = dict(SYM_ENV)
    env.update({
        "CARGO_TARGET_DIR": t, "CARGO_PROFILE_RELEASE_LTO": "fat", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "1",
        "CARGO_PROFILE_RELEASE_PANIC": "abort", "CARGO_PROFILE_RELEASE_OPT_LEVEL": "1",
        "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true", "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true",
    })
    sh(["cargo", "build", "--offline", "--release", "-p", name, "--bin", name], env=env, cwd=REPO)
    return newest(os.path.join(t, "release", "deps"), name + r"-.*\.lto\.input\.bc$")


def build_bin(name, profile):
    t = os.path.join(BUILD, "bin")
    sh(["cargo", "build", "--offline", "-p", name, "--bin", name] + (["--release"] if profile == "release" else []), env={"CARGO_TARGET_DIR": t}, cwd=REPO)
    return os.path.join(t, "release" if profile == "release" else "debug", name)


# functions the engine models itself: their bodies are removed before optimisation
STRIP = re.compile(
    r"(9panicking9panic_fmt|18panic_nounwind_fmt|17rust_begin_unwind|18handle_alloc_error|10rust_panic|9panicking15panic_with_hook)$"
    r"|9panicking11begin_panic|6random11RandomState.*11BuildHasher8hash_one|4hash3sip.*6Hasher5write")
NOINLINE = re.compile(r"9drop_glue|drop_in_place|4drop4Drop4drop|^_R(?:(?!Cs[0-9a-zA-Z]+_[0-9]).)*Cs[0-9a-zA-Z]+_(?:11pw_diff_lib|15pw_cub_diff_lib|8pw_patch|7pw_diff)(?!$)")


def edit(ll):
    """Strip modelled functions and keep the repository's functions and drop glue out of line."""
    out = []
    lines = ll.split("\n")
    i = 0
    n = len(lines)
    name_re = re.compile(r'@("[^"]+"|[A-Za-z0-9_.$-]+)\(')
    while i < n:
        l = lines[i]
        if l.startswith("define "):
            m = name_re.search(l)
            name = m.group(1).strip('"')
            if STRIP.search(name):
                j = i
                while lines[j] != "}":
                    j += 1
                # header -> declaration
                depth = 0
                k = m.end() - 1
                while True:
                    c = l[k]
                    if c == "(":
                        depth += 1
                    elif c == ")":
                        depth -= 1
                        if depth == 0:
                            break
                    k += 1
                head = l[len("define "):k + 1]
                head = re.sub(r"^(internal|private|hidden|linkonce_odr|weak_odr|available_externally|dso_local|unnamed_addr|local_unnamed_addr|\s)+", "", head)
                head = re.sub(r"\b(internal|private|hidden|dso_local|fastcc|coldcc) ", "", head)
                head = re.sub(r" %(\"[^\"]+\"|[A-Za-z0-9_.$-]+)(?=[,)])", "", head)
                out.append("declare " + head)
                i = j + 1
                continue
            if NOINLINE.search(name):
                # attribute goes after the parameter list
                depth = 0
                k = m.end() - 1
                while True:
                    c = l[k]
                    if c == "(":
                        depth += 1
                    elif c == ")":
                        depth -= 1
                        if depth == 0:
                            break
                    elif c == '"':
                        k = l.index('"', k + 1)
                    k += 1
                rest = l[k + 1:]
                m2 = re.match(r"( unnamed_addr| local_unnamed_addr)?", rest)
                l = l[:k + 1] + m2.group(0) + " noinline" + rest[m2.end():]
            out.append(l)
            i += 1
            continue
        out.append(l)
        i += 1
    return "\n".join(out)


def alwaysinline_fix(ll):
    return ll


def lower(bc, entries, out, keep=()):
    """bitcode -> optimised textual IR containing only what the entries reach."""
    tmp = out + ".tmp"
    api = ",".join(list(entries) + list(keep))
    sh([llvm("opt"), "-passes=internalize,globaldce,strip", "-internalize-public-api-list=" + api, bc, "-o", tmp + ".bc"]) if False else \
        sh([llvm("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + api, bc, "-o", tmp + ".bc"])
    sh([llvm("llvm-dis"), tmp + ".bc", "-o", tmp + ".ll"])
    with open(tmp + ".ll") as f:
        s = f.read()
    s = edit(s)
    # attribute groups of modified functions may say alwaysinline; drop it
    s = re.sub(r"^(attributes #\d+ = \{.*?)\balwaysinline\b", r"\1", s, flags=re.M)
    s = re.sub(r"^(attributes #\d+ = \{.*?)\binlinehint\b", r"\1", s, flags=re.M)
    s = re.sub(r"^(attributes #\d+ = \{)\s*\}", r'\1 "rsx" }', s, flags=re.M)
    with open(tmp + ".ll", "w") as f:
        f.write(s)
    sh([llvm("opt"), "-passes=strip-dead-prototypes,default<O2>,globaldce", "-vectorize-loops=false", "-vectorize-slp=false", "-S", tmp + ".ll", "-o", out])
    os.unlink(tmp + ".bc")
    os.unlink(tmp + ".ll")
    return out


def join_bin(harness, binary, entries, out):
    """One module of a harness's phases and an executable's main; nothing else is shared."""
    parts = []
    for i, (bc, api) in enumerate([(harness, list(entries)), (binary, ["main"])]):
        p = "%s.part%d.bc" % (out, i)
        sh([llvm("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(api), bc, "-o", p])
        if i == 0:  # @llvm.used keeps this one external
            sh([llvm("llvm-dis"), p, "-o", p + ".ll"])
            with open(p + ".ll") as f:
                s = f.read().replace("ARGV_INIT_ARRAY", "ARGV_INIT_UNUSED")
            with open(p + ".ll", "w") as f:
                f.write(s)
            sh([llvm("llvm-as"), p + ".ll", "-o", p])
            os.unlink(p + ".ll")
        parts.append(p)
    sh([llvm("llvm-link")] + parts + ["-o", out])
    for p in parts:
        os.unlink(p)
    return out


if __name__ == "__main__":
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    eng = build_engine()
    print("engine", time.time() - t); t = time.time()
    bc = build_harness_bc()
    print("harness", time.time() - t, bc); t = time.time()
    es = sys.argv[1:]
    b = [e for e in es if e in ("pw_patch", "pw_diff")]
    if b:
        es.remove(b[0])
        bb = build_bin_bc(b[0])
        print("bin", time.time() - t); t = time.time()
        bc = join_bin(bc, bb, es, os.path.join(BUILD, "t.bc"))
        es.append("main")
        print("join", time.time() - t); t = time.time()
    lower(bc, es, os.path.join(BUILD, "t.ll"))
    print("lower", time.time() - t)
