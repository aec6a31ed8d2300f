#!/usr/bin/env python3
# DESIGN.md = tools/design_head.md + a section per property (statement, how it is decided, bounds) + seeds + tail.
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
b = json.load(open(root + "/bounds.json"))
na = json.load(open(root + "/tools/na.json"))
oracle = json.load(open(root + "/tools/oracles.json"))
cost = {}
cf = root + "/tools/costs.json"
if os.path.exists(cf): cost = json.load(open(cf))
o = [open(root + "/tools/design_head.md").read()]
for p in props:
    i = p["id"]
    o.append("### %s  %s\n" % (i, p["title"]))
    if i in na:
        o.append("Not applicable: %s\n" % na[i]); continue
    hs = re.findall(r"((?://[^\n]*\n)*)func (H_%s_\w+)\(\)" % i, open(root + "/harness/%s.go" % i.lower()).read() + "\n" + open(root + "/harness/scale.go").read() + "\n" + open(root + "/harness/floats.go").read())
    for doc, h in hs:
        d = " ".join(x[2:].strip() for x in doc.strip().splitlines())
        o.append("- `%s`%s" % (h, ": " + d if d else ""))
    o.append("- Oracle: %s" % oracle[i])
    if i in b: o.append("- Bounds, %s." % b[i]["bounds"].rstrip("."))
    if i in cost: o.append("- Cost: %s" % cost[i])
    o.append("")
o.append("## Planted bugs\n\nEach was written from the property and the code, confirmed by tools/plant.py (builds, stable tests pass, demonstration passes without and fails with it), then run against the check of its property. \"first missed\" marks the ones that made a check stronger; all are caught now unless marked.\n")
o.append("| bug | property | needs | check |\n|---|---|---|---|")
first = set(json.load(open(root + "/tools/first_missed.json")))
missed = set(json.load(open(root + "/tools/still_missed.json")))
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|").replace("\n", " "), "missed" if i in missed else "caught (first missed)" if i in first else "caught"))
o.append("")
o.append(open(root + "/tools/design_tail.md").read())
open(root + "/DESIGN.md", "w").write("\n".join(o))
