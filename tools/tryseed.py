"""Development helper: tryseed.py ID...   runs the check of each planted bug's property against it."""
import json, subprocess, sys
for i in sys.argv[1:]:
    d = "/verif/seeded/" + i
    pid = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        p = subprocess.run(["python3", "/verif/check.py", pid, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/verif")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    caught = p.returncode == 1 and "VIOLATION property=%s " % pid in p.stdout
    tail = [l for l in p.stdout.splitlines() if "counterexample" in l or "no answer" in l or "VIOLATION" in l]
    print(i, pid, "CAUGHT" if caught else "MISSED", p.returncode, tail[:3], p.stdout.splitlines()[-1], flush=True)
