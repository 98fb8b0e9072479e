#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
DEF_T = "explicit enumeration of a bounded input/operation space on the compiled code against a reference model"
DEF_N = ("Every member of the finite spaces listed in the evidence file is executed on the code compiled from /repo (AddressSanitizer, "
         "poisoned heap) and every observable result compared with an independent reference model; nothing is sampled. "
         "Says nothing beyond the bounds stated per task; trusts compiler, sanitizer and the reference model.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py check %s --tier quick" % i,
                           thorough_cmd="python3 run.py check %s --tier thorough" % i,
                           technique=c.get("technique", DEF_T), level=c.get("level", "model_checking"),
                           level_note=c.get("note", DEF_N)))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         hooks=dict(guard="SDSL_VERIF_BUFFER", enable="harnesses that build whole indexes are compiled (headers and lib/*.cpp) with -DSDSL_VERIF_BUFFER=<bytes>: the buffers of int_vector_buffer are capped, so that small inputs cross block borders; the same checks also run some tasks without the define", source_commits=["ec49dc3"]),
         notes="Harnesses compile /repo's headers and lib/*.cpp directly.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
