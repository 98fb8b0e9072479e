#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds_def.py (edits of single files of /repo)."""
import os, sys, subprocess, json, shutil, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds_def import SEEDS, DEMO_SH, PRE
only = sys.argv[1:]
for sid, s in SEEDS.items():
    if only and sid not in only: continue
    d = V + "/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    diff = ""
    edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
    files = {}
    for f, o, n in edits:
        src = files.get(f) or open("/repo/" + f).read()
        assert src.count(o) == 1, (sid, f, src.count(o))
        files[f] = src.replace(o, n)
    for f, t in files.items():
        tmp = "/tmp/seedtmp"
        os.makedirs(os.path.dirname(tmp + "/b/" + f), exist_ok=True)
        open(tmp + "/b/" + f, "w").write(t)
        os.makedirs(os.path.dirname(tmp + "/a/" + f), exist_ok=True)
        shutil.copy("/repo/" + f, tmp + "/a/" + f)
        p = subprocess.run(["git", "diff", "--no-index", "--no-color", "a/" + f, "b/" + f], cwd=tmp, stdout=subprocess.PIPE, text=True)
        out = p.stdout.replace("a/a/", "a/").replace("b/b/", "b/")
        diff += out
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(s.get("demo_sh", DEMO_SH))
    os.chmod(d + "/demo.sh", 0o755)
    if "demo" in s: open(d + "/demo.cpp", "w").write(PRE + s["demo"])
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
