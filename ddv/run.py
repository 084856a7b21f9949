"""Entry point:  python3-vt -m ddv.run <PROPERTY>"""
import sys, os, time, json, subprocess, tempfile, multiprocessing, importlib, shutil, signal
from .ir import Module, IRError
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DDV_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"

def build_ir(tmp, tu="dd_tu.cpp"):
    out = os.path.join(tmp, "dd.ll")
    cc = CLANG if os.path.exists(CLANG) else "clang++-18"
    cmd = [cc, "-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-g", "-DNDEBUG", "-std=c++17",
           "-I" + REPO + "/include", os.path.join(VERIF, "tu", tu), "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0: return None, " ".join(cmd), p.stderr[-3000:]
    return out, " ".join(cmd), ""

_MOD = None
def _worker(a):
    modname, idx, tier = a
    from . import lib
    m = importlib.import_module("ddv.specs." + modname)
    tasks = m.tasks(_MOD)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    return lib.run_task(_MOD, tasks[idx], tier)

def _result(x):
    try: return x[1].get()
    except Exception as e: return dict(task="%s task %d" % x[0], error="worker: %r" % e, obligations=[], wall=0)

def run_tasks(mods, tier, only=None, jobs=8):
    """mods: list of spec module names. Returns list of results"""
    from . import lib
    work = []; res = []
    for mn in mods:
        m = importlib.import_module("ddv.specs." + mn)
        try: ts = m.tasks(_MOD)
        except Exception as e:
            res.append(dict(task=mn + ":setup", error="setup: %s" % e, obligations=[], wall=0)); continue
        for k, t in enumerate(ts):
            if only and not any(x in t.name for x in only): continue
            work.append((mn, k, tier, getattr(t, "cost", 1)))
    work.sort(key=lambda w: -w[3])
    # the check must give its answer in time: once something is open (the verdict is then fixed) the other
    # tasks get a short while only; tasks that do not finish are reported as undischarged
    t0 = time.time(); hard = t0 + (700 if tier == "quick" else 20000); grace = 45 if tier == "quick" else 600
    names = {}
    with multiprocessing.get_context("fork").Pool(min(jobs, max(1, len(work))), maxtasksperchild=1) as pool:
        pend = [(w[:2], pool.apply_async(_worker, (w[:3],))) for w in work]
        while pend:
            done = [x for x in pend if x[1].ready()]
            for x in done:
                pend.remove(x); r = _result(x); res.append(r)
                if r.get("error") or any(o["result"] != "proved" for o in r["obligations"]): hard = min(hard, time.time() + grace)
            if pend and time.time() > hard:
                for (mn, k), _ in pend:
                    nm = "%s task %d" % (mn, k)
                    try: nm = importlib.import_module("ddv.specs." + mn).tasks(_MOD)[k].name
                    except Exception: pass
                    res.append(dict(task=nm, error="stopped (%s)" % ("time limit" if time.time() - t0 > 690 else "another obligation is open"), obligations=[], wall=round(time.time() - t0, 1)))
                pool.terminate(); break
            if not done: time.sleep(0.02)
    return res

def main():
    global _MOD
    pid = sys.argv[1]
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    verbose = "-v" in sys.argv or "-vv" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import props
    spec = props.PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="ddv_%s_" % pid)
    code = 1
    try:
        ll, cmd, err = build_ir(tmp, spec.get("tu", "dd_tu.cpp"))
        if ll is None:
            results = [dict(task="build", error="the headers do not compile: " + err, obligations=[], wall=0)]
        else:
            _MOD = Module(ll)
            results = run_tasks(spec["specs"], tier, only, int(os.environ.get("DDV_JOBS", "8")))
        code = report(pid, spec, results, tier, seed, t0, cmd, tmp, verbose, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)

def scan_known(pid):
    fn = os.path.join(VERIF, "known_findings.txt"); out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid): out.append(l[len("finding: "):])
    return out

def report(pid, spec, results, tier, seed, t0, cmd, tmp, verbose, only):
    results.sort(key=lambda r: r["task"])
    n = d = 0; backends = {}; solve = 0.0; failed = []; errs = []
    for r in results:
        for o in r["obligations"]:
            n += 1
            if o["result"] == "proved": d += 1
            else: failed.append((r, o))
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            solve += o["time"]
        if r.get("error"): errs.append(r)
        if verbose:
            print("  %-60s %4d obligations %3d open %7.1fs %s" % (r["task"], len(r["obligations"]), sum(1 for o in r["obligations"] if o["result"] != "proved"), r["wall"], (r.get("error") or "")[:600]))
            for o in r["obligations"]:
                if o["result"] != "proved" or "-vv" in sys.argv: print("      ", o["result"], o["name"], o["loc"], o["time"], o["backend"])
                if o["result"] != "proved":
                    print("          goal:", o.get("goal", "")[:600].replace("\n", " "))
                    print("          path:", str(o.get("path"))[:1200])
                    if "-m" in sys.argv: print("          model:", o.get("model"))
            if r.get("invariants") and "-i" in sys.argv: print("      inv:", r["invariants"])
    open_obl = len(failed) + len(errs)
    violations = 0; code = 0
    known = scan_known(pid)
    bounded = None
    if open_obl or tier == "thorough" or spec.get("bounded_always"):
        bounded = run_replay(pid, spec, tmp, tier, seed, bool(open_obl))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if open_obl or (bounded and bounded.get("found")):
        violations = 1; code = 1
        rp = os.path.join(VERIF, "evidence", "replay_%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s: the verifier did not accept the code in %s\n\n" % (pid, REPO))
            for r in errs: f.write("TASK %s: no verdict: %s\n" % (r["task"], r["error"]))
            for r, o in failed:
                f.write("FAILED OBLIGATION %s\n  at %s (%s, %s)\n  goal: %s\n  path conditions: %s\n  verifier model: %s\n\n" % (o["name"], o["loc"], o["result"], o["backend"], o.get("goal"), "\n    ".join(o.get("path", [])), o.get("model")))
            if bounded: f.write("\nreplay on the real code (%s):\n%s\n" % (bounded["cmd"], bounded["out"]))
        if bounded and bounded.get("found"):
            print("failing input found by replaying on the real code: " + bounded["found"])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        else:
            for r, o in failed[:3]: print("failed obligation: %s at %s (%s)" % (o["name"], o["loc"], o["result"]))
            for r in errs[:3]: print("undischarged: %s: %s" % (r["task"], r["error"].strip().split("\n")[-1][:300]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    for k in known:
        if code == 0: print("KNOWN-FINDING: " + k)
    inl = sorted({x for r in results for x in r.get("inlined", [])})
    con = sorted({x for r in results for x in r.get("contracted", [])})
    ext = sorted({x for r in results for x in r.get("external", [])})
    inv = {}
    for r in results:
        if r.get("invariants"): inv[r["task"]] = r["invariants"]
    assumed = sorted({x for r in results for x in r.get("assumed", [])})
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "proof"), wall_s=round(time.time() - t0, 2), violations=violations,
      coverage=dict(obligations=n, discharged=d, checker_cmd="cd /verif && python3-vt -m ddv.run %s" % pid,
        trusted_base=["clang 18 front end (-O0 IR of /repo/include)", "ddv IR semantics and VC generation (/verif/ddv)", "z3 (z3-solver %s)" % _z3v(), "cvc5 (fallback)"] + ["external function by contract: " + e for e in ext],
        functions_under_contract=[r["task"] for r in results], backends=backends, solver_s=round(solve, 2),
        ir_cmd=cmd, inlined_functions=inl, callee_contracts_used=con, loop_invariants=inv,
        vacuity_checks=[(r["task"], v) for r in results for v in r.get("vacuity", [])],
        undischarged=[o["name"] for r, o in failed] + [r["task"] + ": " + r["error"][:200] for r in errs],
        bounded_functions=[dict(task=r["task"], bound=r["bounded"]) for r in results if r.get("bounded")],
        bounded_replay=(dict(cmd=bounded["cmd"], cases=bounded.get("cases"), note="bounded search on the real code, not counted as proof") if bounded else None),
        tasks={r["task"]: dict(obligations=len(r["obligations"]), wall_s=r["wall"], paths=r.get("paths"), instructions=r.get("instr")) for r in results}),
      assumptions=list(spec.get("assumptions", [])) + assumed)
    if not only:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if code == 0:
        if n == 0: print("no obligation was generated"); return 2
        print("%s: %d/%d obligations discharged, %d functions under contract, %.1fs" % (pid, d, n, len(results), time.time() - t0))
    return code

def _z3v():
    import z3
    return z3.get_version_string()

def run_replay(pid, spec, tmp, tier, seed, failed):
    """search a failing input on the real code (bounded; never counted as proof)"""
    src = spec.get("replay")
    if not src: return None
    exe = os.path.join(tmp, "replay")
    extra = spec.get("replay_flags", [])
    cmd = ["g++", "-O1", "-std=c++17", "-w", "-DNDEBUG", "-I" + REPO + "/include", "-I" + os.path.join(VERIF, "replay"), os.path.join(VERIF, "replay", src), "-o", exe] + extra
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0: return dict(cmd=" ".join(cmd), out="replay driver does not compile:\n" + p.stderr[-2000:], found=None)
    budget = 60 if tier == "quick" else 240
    run = [exe, pid, str(seed), str(budget)]
    try:
        p = subprocess.run(run, capture_output=True, text=True, timeout=budget + 60, cwd=tmp, errors="replace")
        out = p.stdout[-6000:] + p.stderr[-2000:]
        found = None; cases = None
        for l in p.stdout.split("\n"):
            if l.startswith("FAIL "): found = found or l[5:]
            if l.startswith("CASES "): cases = int(l.split()[1])
        if p.returncode < 0 and not found: found = "the program under test died with signal %d on the replayed input (see the last CASE line)" % -p.returncode
        if p.returncode != 0 and not found: found = "abnormal exit %d: %s" % (p.returncode, out[-300:].strip().replace("\n", " | "))
    except subprocess.TimeoutExpired as e:
        out = "replay ran out of time\n" + ((e.stdout or b"").decode(errors="replace")[-2000:]); found = None; cases = None
        last = [l for l in out.split("\n") if l.startswith("CASE ")]
        if failed: found = "the replayed operation does not terminate within %ds: %s" % (budget + 60, last[-1] if last else "")
    return dict(cmd=" ".join(cmd) + " && " + " ".join(run), out=out, found=found, cases=cases)

if __name__ == "__main__":
    main()
