#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the properties that have harnesses and the not-applicable list below.
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
have = set()
for f in glob.glob(root + "/harness/*.go"):
    have |= set(re.findall(r"^func H_([A-Z]\d\d)_", open(f).read(), re.M))
NA = json.load(open(root + "/tools/na.json"))
bounds = json.load(open(root + "/bounds.json"))
checks = []
for p in props:
    if p in NA or p not in have: continue
    checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
        "technique": "symbolic execution of the Go SSA of /repo (own engine) with z3 deciding every branch and assertion; counterexamples replayed natively",
        "level": "model_checking", "level_note": bounds.get(p, {}).get("bounds", "bounded; see DESIGN.md")})
na = [{"property": p, "reason": NA.get(p, "no harness yet")} for p in props if p in NA or p not in have]
m = {"version": 1, "setup_cmd": "bash ./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses are laid over it (go -overlay) as package zzverif."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
