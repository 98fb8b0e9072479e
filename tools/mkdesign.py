#!/usr/bin/env python3
"""Regenerates the appendix of DESIGN.md (spaces per property, planted bugs) from the harnesses and seeds."""
import re, os, json, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
p = V + "/DESIGN.md"
s = open(p).read().split("<!-- generated -->")[0]
o = ["<!-- generated -->", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    o.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], res.get(i, "?")))
o += ["", "## Appendix: explored spaces (from the harnesses)", ""]
seen = set()
for i in sorted(CHECKS):
    o.append("**%s**" % i)
    srcs = []
    for h in CHECKS[i]["harness"]:
        if h["src"] not in srcs: srcs.append(h["src"])
    for f in srcs:
        for n, t in re.findall(r'^MC_TASK\((\w+),\s*"(.*?)"\)', open(V + "/harness/" + f).read(), re.M):
            o.append("- `%s:%s` %s" % (f, n, t))
    o.append("")
if NOT_APPLICABLE:
    o.append("## Not applicable")
    for i, t in NOT_APPLICABLE.items(): o.append("- %s: %s" % (i, t))
open(p, "w").write(s.rstrip() + "\n\n" + "\n".join(o) + "\n")
