"""Development helper: mkseed.py ID   (reads /tmp/seeds/ID.json: {property, needs, what_it_breaks, edits: [[file, old, new]...], demo})
Makes the change in a scratch copy of /repo, checks that it builds, passes the stable tests and
that the demonstration tells the two trees apart, and writes /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile

DEMO = """#!/bin/bash
# run with cwd /repo: exit 0 if the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" || exit 3
cp "$here/main.rs" "$d/src/main.rs" || exit 3
cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 3
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pw_diff_lib = { path = "$repo/pw_diff_lib" }
pw_cub_diff_lib = { path = "$repo/pw_cub_diff_lib" }
EOT
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline -q || exit 3
mkdir run && cd run && exec timeout 60 "$d/target/debug/demo"
"""
SH = """#!/bin/bash
# run with cwd /repo after the build: exit 0 if the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q --workspace || exit 3
bin=$d/target/debug
mkdir "$d/run" && cd "$d/run" || exit 3
"""


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)


def main(i):
    s = json.load(open("/tmp/seeds/%s.json" % i))
    out = "/verif/seeded/%s" % i
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        r = w + "/repo"
        sh("git -C /repo worktree prune; git clone -q /repo %s" % r, "/")
        for f, old, new in s["edits"]:
            t = open(os.path.join(r, f)).read()
            if t.count(old) != 1:
                print(i, "EDIT does not match once:", t.count(old), old[:80])
                return 1
            open(os.path.join(r, f), "w").write(t.replace(old, new))
        diff = sh("git diff", r).stdout
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]}, open(out + "/meta.json", "w"), indent=1)
        if "sh" in s:
            open(out + "/demo.sh", "w").write(SH + s["sh"])
        else:
            open(out + "/demo.sh", "w").write(DEMO)
            open(out + "/main.rs", "w").write(s["demo"])
        for n, c in s.get("files", {}).items():
            open(os.path.join(out, n), "w").write(c)
        os.chmod(out + "/demo.sh", 0o755)
        env = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedtarget")
        p = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", r, env)
        names = [l for l in p.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")]
        miss = [l for l in p.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")]
        if len(names) + len(miss) < 19:
            miss.append("only %d tests ran" % len(names))
        sh("git clone -q /repo %s/base; cp /repo/Cargo.lock %s/base; cp /repo/Cargo.lock %s" % (w, w, r), "/")
        a = sh("bash %s/demo.sh" % out, w + "/base")
        b = sh("bash %s/demo.sh" % out, r)
        ok = a.returncode == 0 and b.returncode not in (0, 3) and not miss
        print(i, "OK" if ok else "BAD", "base", a.returncode, "patched", b.returncode, "tests failing:", miss[:5], "" if ok else (a.stdout[-800:], b.stdout[-800:], p.stdout[-600:] if len(names) < 19 else ""))
        return 0 if ok else 1
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    for i in sys.argv[1:]:
        main(i)
