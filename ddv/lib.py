"""Verification tasks, heap views and the common vocabulary of the specifications."""
import time, traceback
import z3
from z3 import *
from .symex import *
from .symex import SPECIAL
from . import symex
from . import solver

# sqrt(1/2) is idealised: the double constant stands for the exact number
R2 = Const("SQRT1_2", RealSort())
PI = Const("PI", RealSort())
SPECIAL[0.707106781186547524400844362104849039284835937688] = R2
SPECIAL[3.141592653589793] = PI
SPECIAL[1.4142135623730951] = 2 * R2
SPECIAL[1.5707963267948966] = PI / 2
SPECIAL[0.7853981633974483] = PI / 4
SPECIAL[6.283185307179586] = 2 * PI
CONST_AXIOMS = [R2 * R2 == RealVal("1/2"), R2 > RealVal("7/10"), R2 < RealVal("71/100"), PI > 3, PI < 4]

ENTRY = "struct.dd::ComplexTable<>::Entry"
VREG = (ENTRY, 0, (), "d")       # Entry::value
NREG = (ENTRY, 8, (), "p")       # Entry::next
RREG = (ENTRY, 16, (), "i32")    # Entry::refCount

def B(x): return BitVecVal(x, 64)
def strip(p, mask=1): return simplify(bv(p, 64) & B((1 << 64) - 1 - mask))
def tagged(p):
    return simplify(Extract(0, 0, bv(p, 64)) == 1)

class Task:
    """one function under contract"""
    def __init__(self, name, fn, run, contracts=None, merge=True, timeout=20000, budget=240, bounded=None, replay=None, tags=()):
        self.name, self.fn, self.run = name, fn, run
        self.contracts = contracts or []
        self.merge, self.timeout, self.budget = merge, timeout, budget
        self.bounded = bounded

class TaskResult:
    pass

class Ctx:
    """what a task's run() gets: executor plus helpers"""
    def __init__(self, mod, task, tier="quick"):
        self.mod, self.task, self.tier = mod, task, tier
        self.ex = Exec(mod, merge=task.merge)
        self.ex.contracts = list(task.contracts)
        self.ex.axioms = list(CONST_AXIOMS)
        self.ex.deadline = time.time() + task.budget
        self.notes = []; self.assumed = []
        self.vacuity = []
        self.hook = None
    # --- globals
    def zero(self): return self.ex.gdem("dd::ComplexTable<65537ul, 2048ul, 2ul, 65536ul>::zero")
    def one(self): return self.ex.gdem("dd::ComplexTable<65537ul, 2048ul, 2ul, 65536ul>::one")
    def sq(self): return self.ex.gdem("dd::ComplexTable<65537ul, 2048ul, 2ul, 65536ul>::sqrt2_2")
    def tol(self): return self.ex.gdem(self.tolname())
    def tolname(self):
        c = [d for n, d in self.mod.dem.items() if n in self.mod.globals and d.startswith("dd::ComplexTable<") and "TOLERANCE" in d and "guard" not in d]
        if len(c) != 1: raise Unsupported("tolerance variable not found")
        return c[0]
    def fn(self, pred): return self.ex.find(pred)
    def state(self, tol=0):
        """initial state: shared constants hold their values, tolerance as given (0 = exact arithmetic)"""
        st = State()
        V = self.region(st, VREG)
        st.assume([Select(V, B(self.zero())) == 0, Select(V, B(self.one())) == 1, Select(V, B(self.sq())) == R2])
        self.settol(st, tol)
        czero = self.ex.gdem("dd::Complex::zero"); cone = self.ex.gdem("dd::Complex::one")
        for rt in ("struct.dd::Complex",):
            A0 = self.region(st, (rt, 0, (), "p")); A8 = self.region(st, (rt, 8, (), "p"))
            z, o = B(self.zero()), B(self.one())
            A0 = Store(Store(A0, B(czero), z), B(cone), o); A8 = Store(Store(A8, B(czero), z), B(cone), z)
            st.heap[(rt, 0, (), "p")] = A0; st.heap[(rt, 8, (), "p")] = A8
        return st
    def settol(self, st, tol):
        t = RealVal(tol) if isinstance(tol, (int, str)) else tol
        st.heap[("double", 0, (), "d")] = Store(self.region(st, ("double", 0, (), "d")), B(self.tol()), t)
    SORTS = {"d": RealSort(), "p": BitVecSort(64)}
    def region(self, st, key):
        k = key[-1]
        srt = self.SORTS[k] if k in self.SORTS else BitVecSort(int(k[1:]))
        nidx = (0 if key[0] == "obj" else 1) + len(key[-2])
        return self.ex.region_array(st, key, nidx, srt)
    def V(self, st): return self.region(st, VREG)
    def val(self, st, p, V=None):
        """signed value denoted by a number handle"""
        V = self.V(st) if V is None else V
        p = bv(p, 64)
        t = tagged(p); m = Select(V, strip(p))
        if is_true(t): return -m
        if is_false(t): return m
        return If(t, -m, m)
    # --- running
    def call(self, st, fn, args):
        """execute the function body from st; returns outcomes"""
        self.ex.outcomes = []
        fn.parse()
        self.ex.push(st, fn, args)
        self.ex.explore([st])
        outs = self.ex.outcomes; self.ex.outcomes = []
        if not any(o.kind == "ret" for o in outs):
            self.notes.append("no normal return of " + fn.dem)
        self.ex.stats["paths"] += len(outs)
        return outs
    def obj(self, st, name, ty, symbolic=True):
        t = self.mod.named(ty) if isinstance(ty, str) else ty
        return self.ex.new_object(st, name, t, symbolic, self.mod.size(t))
    def cell(self, st, p, off, ty):
        """current content of the object p points to, at byte offset off"""
        p = self.ex.asptr(p)
        return self.ex.load(st, Ptr(p.base, p.rt, p.off + off, p.sym), ty)
    def setcell(self, st, p, off, ty, v):
        p = self.ex.asptr(p)
        tw = self.ex.trackwrites; self.ex.trackwrites = False
        self.ex.store(st, Ptr(p.base, p.rt, p.off + off, p.sym), ty, v)
        self.ex.trackwrites = tw
    def oblige(self, st, name, goal, kind="post", using=None):
        """using: try first with only these hypotheses (each must already be assumed on this path)"""
        n = len(self.ex.obls)
        self.ex.oblige(st, self.task.name + ":" + name, goal, loc=self.loc, kind=kind)
        if using is not None:
            have = {c.get_id() for c in st.pc} | set(st.pcids)
            for u in using:
                if u.get_id() not in have: raise Unsupported("hypothesis not established: " + str(u)[:80])
            for o in self.ex.obls[n:]: o.using = list(using)
    def lemma(self, st, name, goal, using=None):
        """prove, then use on the rest of this path"""
        self.oblige(st, name, goal, "lemma", using); st.assume(goal)
        return goal
    loc = "?"
    def reach(self, st, name):
        """vacuity guard: the assumptions at this point must be satisfiable"""
        self.vacuity.append((name, list(st.pc)))

def cplx_ptr(ctx, st, name, r=None, i=None):
    p = ctx.obj(st, name, "struct.dd::Complex")
    if r is not None: ctx.setcell(st, p, 0, PTR, r)
    if i is not None: ctx.setcell(st, p, 8, PTR, i)
    return p

def forkmap(f, xs, par, enough):
    """f over xs in par forked processes (results in order; stops early when enough)"""
    import os, pickle, select as sel
    if par <= 1 or len(xs) < 4:
        out = []
        for x in xs:
            out.append(f(x))
            if enough(out): break
        return out
    par = min(par, len(xs)); CH = max(1, min(24, len(xs) // (par * 4)))
    fds = {}; pids = []
    for w in range(par):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    import ctypes; ctypes.CDLL(None).prctl(1, 9)   # end with the parent
                except Exception: pass
                for k in [k for k in range(len(xs)) if (k // CH) % par == w]:
                    try: v = f(xs[k])
                    except Exception as e: v = dict(name=xs[k].name, loc=xs[k].loc, kind=xs[k].kind, result="unknown", backend="error", time=0.0, goal=repr(e)[:300])
                    b = pickle.dumps((k, v))
                    b = len(b).to_bytes(8, "little") + b
                    while b: b = b[os.write(wr, b):]
            except BaseException: code = 1
            os._exit(code)
        os.close(wr); fds[r] = b""; pids.append(pid)
    res = {}
    stopped = False
    while fds:
        rd, _, _ = sel.select(list(fds), [], [])
        for r in rd:
            b = os.read(r, 1 << 16)
            if not b: os.close(r); del fds[r]; continue
            fds[r] += b
            while len(fds[r]) >= 8:
                n = int.from_bytes(fds[r][:8], "little")
                if len(fds[r]) < 8 + n: break
                k, v = pickle.loads(fds[r][8:8 + n]); fds[r] = fds[r][8 + n:]
                res[k] = v
        if enough(list(res.values())):
            stopped = True; break
    for p in pids:
        if stopped:
            try: os.kill(p, 9)
            except OSError: pass
        os.waitpid(p, 0)
    for r in fds:
        os.close(r)
    if not stopped:
        for k, x in enumerate(xs):
            if k not in res: res[k] = dict(name=x.name, loc=x.loc, kind=x.kind, result="unknown", backend="worker lost", time=0.0, goal="solver process ended")
    return [res[k] for k in sorted(res)]

def run_task(mod, task, tier="quick"):
    """execute one task: returns a plain dict (picklable)"""
    t0 = time.time()
    res = dict(task=task.name, fn="", obligations=[], error=None, notes=[], vacuity=[], functions=[], inlined=[], contracted=[], external=[], invariants={}, bounded=task.bounded)
    ctx = None
    try:
        ctx = Ctx(mod, task, tier)
        task.run(ctx)
        # vacuity
        if not ctx.ex.obls: raise Unsupported("no obligation generated")
        for name, pc in ctx.vacuity:
            s = z3.Solver(); s.set("timeout", 3000)
            for a in ctx.ex.axioms: s.add(a)
            for a in pc: s.add(a)
            r = s.check()
            res["vacuity"].append((name, str(r)))
            if r == z3.unsat: raise Unsupported("vacuous: assumptions of %s are contradictory" % name)
        t1 = time.time()
        def one(o):
            to = task.timeout * (3 if tier == "thorough" else 1)
            solver.discharge(o, ctx.ex.axioms, to, hook=ctx.hook)
            d = dict(name=o.name, loc=o.loc, kind=o.kind, result=o.result, backend=o.backend, time=round(o.time, 4))
            if o.result != "proved":
                d["goal"] = str(getattr(o, "failgoal", o.goal))[:3000]
                d["path"] = [str(c)[:300] for c in o.br][:40]
                if o.model is not None:
                    try: d["model"] = str(o.model)[:4000]
                    except Exception: d["model"] = "?"
            return d
        res["obligations"] = forkmap(one, ctx.ex.obls, getattr(task, "par", 1), lambda ds: sum(1 for q in ds if q["result"] != "proved") >= 2)
        res["solve_s"] = round(time.time() - t1, 3)
    except (Unsupported, symex.IRError, MergeFail) as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        res["error"] = "internal: " + traceback.format_exc()[-1500:]
    if ctx is not None:
        s = ctx.ex.stats
        res.update(inlined=sorted(s["inlined"]), contracted=sorted(s["contracted"]), external=sorted(s["external"]),
                   instr=s["instr"], paths=s["paths"], invariants=s.get("invariants", {}), notes=ctx.notes, assumed=ctx.assumed)
    res["wall"] = round(time.time() - t0, 3)
    return res
