"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOT = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        s = CHECKS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled code's LLVM IR (own engine), Z3 decides every branch and assertion; counterexamples replayed on the real build",
            "level": "model_checking",
            "level_note": "exhaustive within the bounds: " + "; ".join(h["bounds"] for h in s["quick"]) + ("; outside: " + s["outside"] if s.get("outside") else ""),
        })
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
