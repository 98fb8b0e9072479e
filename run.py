#!/usr/bin/env python3
"""Driver: builds the harnesses of a property from /repo's working tree, explores, replays, reports.

  run.py check <ID> [--tier quick|thorough] [--repo DIR]
  run.py setup            build everything the quick checks need
  run.py replay <file>    re-execute a recorded violation
"""
import sys, os, subprocess, json, time, hashlib, threading, glob, array, shlex, queue
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa

REPO = os.environ.get("MC_REPO", "/repo")
CACHE = os.environ.get("MC_CACHE", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("MC_JOBS", "8"))

BASE = ["-std=c++14", "-DNDEBUG", "-w", "-DMODE_TI", "-pthread"]
MODES = {
    # name: (compiler, compile flags, link flags)
    "asan": ("g++", ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "asan_noti": ("g++", ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-UMODE_TI"], ["-fsanitize=address"]),
    "opt": ("g++", ["-O2", "-g1"], []),
    "opt_native": ("g++", ["-O2", "-g1", "-msse4.2", "-mbmi2"], []),
    "sched": ("g++", ["-O1", "-g1", "-fsanitize=thread"], []),          # instrumentation only; own runtime
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
}
_hash_cache = {}
_lock = threading.Lock()


def fhash(p):
    with _lock:
        if p in _hash_cache:
            return _hash_cache[p]
    try:
        with open(p, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _hash_cache[p] = h
    return h


class BuildError(Exception):
    pass


def compile_obj(src, mode, extra=(), instrument=True):
    """Content-addressed compile: reuses the object only if every dependency has identical content."""
    cc, fl, _ = MODES[mode]
    if not instrument:
        fl = [f for f in fl if f != "-fsanitize=thread"]
    flags = BASE + fl + ["-I" + REPO + "/include", "-I" + VERIF + "/mc", "-I" + VERIF + "/harness"] + list(extra)
    key = hashlib.sha1(json.dumps([cc, flags, src]).encode()).hexdigest()[:24]
    d = os.path.join(CACHE, "obj", key)
    os.makedirs(d, exist_ok=True)
    ents = sorted(glob.glob(d + "/*.json"), key=lambda p: -os.path.getmtime(p))
    for e in ents:
        try:
            deps = json.load(open(e))
        except Exception:
            continue
        o = e[:-5] + ".o"
        if os.path.exists(o) and all(fhash(p) == h for p, h in deps.items()):
            return o, json.dumps(sorted(deps.items()))
    tmp = os.path.join(d, "tmp%d_%d" % (os.getpid(), threading.get_ident()))
    cmd = [cc] + flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        errs = [l for l in p.stdout.splitlines() if "error" in l or "required from here" in l]
        raise BuildError("compile failed: %s\n%s" % (shlex.join(cmd), "\n".join(errs[:25])))
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = {}
    for x in txt.split(":", 1)[1].split():
        x = os.path.realpath(x)
        if x.startswith("/usr/"):
            continue
        deps[x] = fhash(x)
    name = hashlib.sha1(json.dumps(sorted(deps.items())).encode()).hexdigest()[:20]
    o = os.path.join(d, name + ".o")
    os.replace(tmp + ".o", o)
    os.unlink(tmp + ".d")
    with open(tmp + ".json", "w") as f:
        json.dump(deps, f)
    os.replace(tmp + ".json", os.path.join(d, name + ".json"))
    for e in ents[3:]:  # keep a few variants
        for q in (e, e[:-5] + ".o"):
            try:
                os.unlink(q)
            except OSError:
                pass
    return o, json.dumps(sorted(deps.items()))


def gen_structure_tree():
    """lib/structure_tree.cpp is generated by cmake from the template; do the same substitution."""
    t = open(REPO + "/lib/structure_tree.cpp.cmake").read().replace("@PROJECT_SOURCE_DIR@", REPO)
    h = hashlib.sha1(t.encode()).hexdigest()[:16]
    d = os.path.join(CACHE, "gen", h)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "structure_tree.cpp")
    if not os.path.exists(p):
        with open(p + ".tmp%d" % os.getpid(), "w") as f:
            f.write(t)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return p


def lib_sources():
    s = [p for p in sorted(glob.glob(REPO + "/lib/*.cpp")) if os.path.basename(p) != "structure_tree.cpp"]
    return s + [gen_structure_tree()]


_lib_lock = {}


def build_all(specs, pool):
    """specs: list of harness dicts.  Returns list of binaries, in order."""
    libsrc = lib_sources()
    futs = {}

    def sub(src, mode, extra, instrument=True):
        k = (src, mode, tuple(extra), instrument)
        if k not in futs:
            futs[k] = pool.submit(compile_obj, src, mode, extra, instrument)
        return futs[k]
    plan = []
    for s in specs:
        mode = s.get("mode", "asan")
        extra = list(s.get("flags", []))
        srcs = s["src"] if isinstance(s["src"], list) else [s["src"]]
        fo = []
        for i, x in enumerate(srcs):
            p = x if x.startswith("/") else os.path.join(VERIF, "harness", x)
            fo.append(sub(p, mode, extra + (["-DMC_MAIN"] if i == 0 else [])))
        for x in s.get("plain_src", []):  # never instrumented (the scheduler runtime itself)
            fo.append(sub(os.path.join(VERIF, x), mode, extra, False))
        lo = [sub(p, mode, list(s.get("libflags", []))) for p in libsrc] if s.get("lib", True) else []
        plan.append((s, mode, fo, lo))
    bins = []
    for s, mode, fo, lo in plan:
        objs = [f.result() for f in fo + lo]
        key = hashlib.sha1(json.dumps([mode, [o for o, _ in objs], s.get("link", [])]).encode()).hexdigest()[:24]
        b = os.path.join(CACHE, "bin", key)
        bins.append((s, mode, objs, b))
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)

    def link(t):
        s, mode, objs, b = t
        if os.path.exists(b):
            return b
        cc, fl, lf = MODES[mode]
        tmp = b + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
        cmd = [cc, "-pthread"] + lf + ["-o", tmp] + [o for o, _ in objs] + ["-ldivsufsort", "-ldivsufsort64"] + list(s.get("link", []))
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("link failed: %s\n%s" % (shlex.join(cmd), p.stdout[-6000:]))
        os.replace(tmp, b)
        return b
    return list(pool.map(link, bins))


def prune_cache():
    """Bound the size of the cache directory (old binaries and objects)."""
    ents = []
    for base in ("bin", "obj"):
        for r, _, fs in os.walk(os.path.join(CACHE, base)):
            for f in fs:
                p = os.path.join(r, f)
                try:
                    st = os.stat(p)
                    ents.append((max(st.st_mtime, st.st_atime), st.st_size, p))
                except OSError:
                    pass
    tot = sum(e[1] for e in ents)
    ents.sort()
    for _, sz, p in ents:
        if tot < 6 << 30:
            break
        try:
            os.unlink(p)
            tot -= sz
        except OSError:
            pass


def load_known():
    """known_findings.txt:  KNOWN property=<id> key=<key> :: text"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("KNOWN "):
                head, _, text = l.partition(" :: ")
                f = dict(x.split("=", 1) for x in head.split()[1:])
                res.setdefault(f["property"], {})[f["key"]] = text
    return res


def env_for(mode, scratch, fill="be"):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:max_malloc_fill_size=262144:malloc_fill_byte=%d:hard_rss_limit_mb=3500:"
                         "allocator_may_return_null=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:"
                         "max_allocation_size_mb=2000:symbolize=1:quarantine_size_mb=16:malloc_context_size=6:handle_abort=1") % int(fill, 16)
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"
    e["TMPDIR"] = scratch
    e["MC_SCRATCH"] = scratch
    e["MALLOC_PERTURB_"] = str(int(fill, 16))
    e["LC_ALL"] = "C"
    return e


class Proc:
    pass


def run_one(binary, mode, args, scratch, timeout, fill="be"):
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch,
                           env=env_for(mode, scratch, fill), timeout=timeout, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
    except subprocess.TimeoutExpired as ex:
        return "timeout", (ex.stdout or b"").decode("latin1"), (ex.stderr or b"").decode("latin1")


def tail(s, n=3000):
    return s if len(s) <= n else s[:n // 2] + "\n...\n" + s[-n // 2:]


def check(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch_root = os.path.join("/tmp", "mc_%s_%d" % (pid, os.getpid()))
    os.makedirs(scratch_root, exist_ok=True)
    pool = ThreadPoolExecutor(JOBS)
    try:
        return _check(pid, tier, c, seed, scratch_root, pool, t0)
    finally:
        subprocess.run(["rm", "-rf", scratch_root])


def _check(pid, tier, c, seed, scratch_root, pool, t0):
    specs = [h for h in c["harness"] if tier == "thorough" or not h.get("thorough_only")]
    if os.environ.get("MC_ONLY"):  # development aid: only the harnesses named
        specs = [h for h in specs if h.get("name", h["src"]) in os.environ["MC_ONLY"].split(",")]
    bins = build_all(specs, pool)
    tb = time.time()
    known = load_known().get(pid, {})
    budget = float(os.environ.get("MC_BUDGET", c.get("budget", {}).get(tier, 600 if tier == "quick" else 6 * 3600)))
    hard = budget * 1.2 + 200
    jobs = []
    for s, b in zip(specs, bins):
        n = s.get("nshards", JOBS)
        for sh in range(n):
            jobs.append((s, b, sh, n))
    # long poles first if the harness says so
    jobs.sort(key=lambda j: -j[0].get("weight", 1))
    problems = []
    abort = threading.Event()

    def tasklist(b, s):
        p = subprocess.run([b, "--list"], stdout=subprocess.PIPE, text=True, env=env_for("", scratch_root))
        return [l.split("\t")[0] for l in p.stdout.splitlines()]

    def job(j):
        s, b, sh, n = j
        if abort.is_set():
            return None
        tag = "%s_%d_%d" % (os.path.basename(b)[:10], specs.index(s), sh)
        sc = os.path.join(scratch_root, tag)
        out = os.path.join(scratch_root, tag + ".out")
        stf = os.path.join(scratch_root, tag + ".st")
        args = ["--tier", tier, "--shard", str(sh), "--nshards", str(n), "--out", out, "--status", stf,
                "--deadline", str(max(30, budget - (time.time() - tb)))]
        for k in known:
            args += ["--known", k]
        rc, so, se = run_one(b, s.get("mode", "asan"), args, sc, hard)
        r = dict(spec=s, bin=b, shard=sh, n=n, rc=rc, se=se, args=args)
        if rc in (0, 42) and os.path.exists(out + ".json"):
            r["json"] = json.load(open(out + ".json"))
            a = array.array("Q")
            a.frombytes(open(out + ".states", "rb").read())
            r["states"] = a
        if rc != 0:
            abort.set()
            if rc == 42 and "json" in r:
                f = [t for t in r["json"]["tasks"] if "fail" in t][0]
                r["where"] = (f["task"], f["fail"]["case"])
                r["msg"] = f["fail"]["msg"]
                r["desc"] = f["fail"]["desc"]
            else:
                st = array.array("Q")
                try:
                    st.frombytes(open(stf, "rb").read()[:24])
                    r["where"] = (tasklist(b, s)[st[0]], int(st[1]))
                except Exception:
                    r["where"] = None
                r["msg"] = {43: "hang (CPU limit exceeded)", "timeout": "hang (wall-clock limit exceeded)"}.get(
                    rc, "crash: process ended with status %s" % rc)
                r["desc"] = ""
        return r
    results = [r for r in pool.map(job, jobs) if r]
    te = time.time()
    bad = [r for r in results if r["rc"] != 0]
    viol = None
    notes = []
    for r in bad:
        # replay alone, in a fresh process, with a longer limit
        ok = False
        rec = None
        if r["where"] and r["where"][1] < (1 << 62):
            task, case = r["where"]
            ra = ["--tier", tier, "--task", task, "--case", str(case), "--limit", "150"]
            for k in known:
                ra += ["--known", k]
            for att in range(2):
                rc, so, se = run_one(r["bin"], r["spec"].get("mode", "asan"), ra, os.path.join(scratch_root, "replay"), 700)
                if rc not in (0, 2):
                    ok = True
                    rec = (ra, rc, se)
                    break
        if not ok:
            # the failure may need the cases before it in the same process: rerun the shard
            ra = [a for a in r["args"]]
            rc, so, se = run_one(r["bin"], r["spec"].get("mode", "asan"), ra, os.path.join(scratch_root, "replay2"), hard)
            if rc not in (0, 2) :
                ok = True
                rec = (ra, rc, se)
        if ok:
            viol = (r, rec)
            break
        notes.append("unreproduced: %s rc=%s at %s: %s" % (r["spec"]["src"], r["rc"], r["where"], tail(r["se"], 500)))
    # ---- evidence
    tasks = {}
    states = set()
    transitions = executed = 0
    samples = []
    hits = {}
    capped = False
    for r in results:
        if "json" not in r:
            continue
        hname = r["spec"].get("name", os.path.basename(str(r["spec"]["src"])))
        salt = hash_str(hname)
        states.update(x ^ salt for x in r["states"])
        for t in r["json"]["tasks"]:
            k = hname + ":" + t["task"]
            d = tasks.setdefault(k, dict(space=t["space"], cases=0, executed=0, comparisons=0, capped=False, cpu_s=0.0))
            d["cases"] = max(d["cases"], t["cases"])
            d["executed"] += t["executed"]
            d["comparisons"] += t["transitions"]
            d["cpu_s"] = round(d["cpu_s"] + t["wall"], 2)
            d["capped"] = d["capped"] or t["capped"]
            capped = capped or t["capped"]
            transitions += t["transitions"]
            executed += t["executed"]
            if len(samples) < 12:
                for s in t["samples"][:2]:
                    samples.append(k + ": " + s[:400])
        hits.update(r["json"]["known"])
    if not samples:
        samples = ["(no case completed)"]
    level = c.get("level", "model_checking")
    cov = dict(tasks=tasks, samples=samples, exhaustive=(not capped and not bad),
               build_s=round(tb - t0, 1), explore_s=round(te - tb, 1))
    if level == "model_checking":
        cov.update(states=len(states), transitions=transitions, traces_validated_against_impl=executed)
    else:
        cov.update(evaluations=executed, distinct_nontrivial=len(states),
                   rule=c.get("rule", "distinct = different vectors of observed results"))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=c.get("assumptions", []) + notes, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(EVID, exist_ok=True)
    rc = 0
    for k, v in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known.get(k, ""), k))
    if viol:
        r, (ra, rrc, se) = viol
        rp = os.path.join(EVID, pid + ".replay.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, tier=tier, harness=r["spec"]["src"], spec={k: v for k, v in r["spec"].items()},
                           where=r["where"], message=r["msg"], input=r["desc"], args=ra, exit=str(rrc),
                           output=tail(se, 8000)), f, indent=1)
        print("  at %s: %s" % (r["where"], r["msg"][:1500]))
        if r["desc"]:
            print("  input: %s" % r["desc"][:1500])
        print("\n".join("  | " + x for x in tail(se, 3000).splitlines()))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        ev["violation"] = dict(message=r["msg"], input=r["desc"], replay=rp)
        rc = 1
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct outcomes, %d comparisons%s; build %.1fs explore %.1fs" % (
        pid, tier, executed, len(states), transitions, " (CAPPED)" if capped else "", tb - t0, te - tb))
    for n in notes:
        print("note:", n)
    return rc


def hash_str(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:15], 16)


def replay(path):
    d = json.load(open(path))
    pool = ThreadPoolExecutor(JOBS)
    b = build_all([d["spec"]], pool)[0]
    sc = "/tmp/mc_replay_%d" % os.getpid()
    a = [x for x in d["args"]]
    rc, so, se = run_one(b, d["spec"].get("mode", "asan"), a, sc, 900)
    print(se)
    print(so)
    print("exit", rc)
    subprocess.run(["rm", "-rf", sc])
    return 0 if rc == 0 else 1


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        rc = check(a[1], tier)
        return rc
    if a[0] == "setup":
        pool = ThreadPoolExecutor(JOBS)
        specs = [h for p in sorted(CHECKS) for h in CHECKS[p]["harness"] if not h.get("thorough_only")]
        t = time.time()
        build_all(specs, pool)
        prune_cache()
        print("built %d harnesses in %.1fs" % (len(specs), time.time() - t))
        return 0
    if a[0] == "replay":
        return replay(a[1])
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except BuildError as e:
        print("BUILD ERROR:", e)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
