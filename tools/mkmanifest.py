#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl, the harnesses present and tools/na.json
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/na.json"))
checks, nal = [], []
for p in props:
    i = p["id"]
    if glob.glob(f"{V}/harness/{i}*.cpp"):
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": "symbolic execution of the compiled C++ (LLVM IR) with an SMT solver (Z3), native replay of counterexamples",
            "level": "model_checking",
            "level_note": "bounded: all input values within the ranges, and all sizes up to the bounds, stated in the evidence's coverage.bounds and DESIGN.md; nothing is claimed beyond them",
        })
    else:
        nal.append({"property": i, "reason": na.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": nal}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
