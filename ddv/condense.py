"""Case distinctions resolved before rewriting: conditions that follow from the linear part of a path are decided with the
solver (implications fire, impossible alternatives drop out, conditional terms collapse, applications with provably equal
arguments are identified); what remains is handed to the rewriting prover.  Only consequences of the path are added."""
import z3
from . import rules
from .poly import flatten

def nonlinear(c, cache={}):
    i = c.get_id(); r = cache.get(i)
    if r is not None: return r[0]
    stack = [c]; seen = set(); v = False
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): v = True; break
        if z3.is_mul(t) and sum(1 for x in t.children() if not z3.is_rational_value(x)) > 1: v = True; break
        stack.extend(t.children())
    cache[i] = (v, c)
    return v

class Oracle:
    def __init__(self, hyps, timeout=150):
        self.s = z3.SolverFor("ALL") if False else z3.Solver(); self.s.set("timeout", timeout)
        for h in hyps: self.s.add(h)
        self.memo = {}
    def holds(self, c):
        i = c.get_id()
        if i in self.memo: return self.memo[i][0]
        self.s.push(); self.s.add(z3.Not(c)); r = self.s.check() == z3.unsat; self.s.pop()
        self.memo[i] = (r, c)
        return r

def apps(ts):
    """real-valued applications of uninterpreted functions, and conditional terms"""
    seen = set(); fs = {}; ites = []
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t): continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if z3.is_real(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: fs.setdefault(t.decl().name(), []).append(t)
            if z3.is_app_of(t, z3.Z3_OP_ITE) and (z3.is_real(t) or z3.is_bv(t)): ites.append(t)
            stack.extend(t.children())
    return fs, ites

def hasrealeq(c):
    stack = [c]
    while stack:
        t = stack.pop()
        if z3.is_eq(t) and z3.is_real(t.arg(0)): return True
        if z3.is_bool(t): stack.extend(x for x in t.children() if z3.is_bool(x))
    return False

def prove(pc, axioms, goal, budget=20.0):
    import time
    t0 = time.time()
    pc = list(pc)
    while z3.is_implies(goal): pc.append(goal.arg(0)); goal = goal.arg(1)
    if not (z3.is_eq(goal) and z3.is_real(goal.arg(0))): return False
    hyps = flatten([c for c in list(axioms) + pc if not z3.is_quantifier(c)])
    O = Oracle([h for h in hyps if not nonlinear(h)])
    work = [h for h in hyps if hasrealeq(h)]; out = []
    for _ in range(3):
        nxt = []; grew = False
        for h in work:
            if time.time() - t0 > budget: return False
            if z3.is_eq(h) and z3.is_real(h.arg(0)): out.append(h); continue
            if z3.is_implies(h) and O.holds(h.arg(0)): add = flatten([h.arg(1)])
            elif z3.is_or(h):
                rest = [x for x in h.children() if not O.holds(z3.Not(x))]
                if not rest: return True
                uniq = []
                for x in rest:
                    if not any(x.eq(y) for y in uniq): uniq.append(x)
                if len(uniq) == 1: add = flatten([z3.simplify(uniq[0])]) if False else flatten([uniq[0]])
                else: nxt.append(h); continue
            elif z3.is_eq(h) and z3.is_bool(h.arg(0)):
                if O.holds(h.arg(0)): add = flatten([h.arg(1)])
                elif O.holds(h.arg(1)): add = flatten([h.arg(0)])
                else: nxt.append(h); continue
            else: nxt.append(h); continue
            grew = True
            for x in add:
                if hasrealeq(x): nxt.append(x)
                if not nonlinear(x): O.s.add(x); O.memo = {k: v for k, v in O.memo.items() if v[0]}
        work = nxt
        if not grew: break
    eqs = out + [h for h in work if z3.is_eq(h) and z3.is_real(h.arg(0))]
    # conditional terms with a decided condition, applications with equal arguments
    for _ in range(2):
        fs, ites = apps(eqs + [goal])
        sub = []
        for t in ites:
            if time.time() - t0 > budget: return False
            if O.holds(t.arg(0)): sub.append((t, t.arg(1)))
            elif O.holds(z3.Not(t.arg(0))): sub.append((t, t.arg(2)))
        if sub:
            # innermost first is not needed: repeat
            eqs = [z3.substitute(e, *sub) for e in eqs]; goal = z3.substitute(goal, *sub)
            continue
        break
    fs, _ = apps(eqs + [goal]); sub = []
    for ts in fs.values():
        reps = []
        for t in ts:
            for r in reps:
                if time.time() - t0 > budget: return False
                if O.holds(z3.And(*[a == b for a, b in zip(t.children(), r.children())])): sub.append((t, r)); break
            else: reps.append(t)
    if sub: eqs = [z3.substitute(e, *sub) for e in eqs]; goal = z3.substitute(goal, *sub)
    rest = [h for h in hyps if not hasrealeq(h)]
    return rules.Prep(rest + eqs, [], []).prove(goal, 4000)
