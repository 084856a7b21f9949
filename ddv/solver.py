"""Discharging obligations: z3 first, then other z3 configurations and cvc5."""
import subprocess, tempfile, os, time
import z3
from . import poly, inst, rules, condense

def smt2(pc, goal, axioms=()):
    s = z3.Solver()
    for a in axioms: s.add(a)
    for a in pc: s.add(a)
    s.add(z3.Not(goal))
    return s.to_smt2()

def check(assertions, timeout, opts=None, tactic=None):
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set("timeout", int(timeout))
    if opts:
        for k, v in opts.items(): s.set(k, v)
    for a in assertions: s.add(a)
    try: r = s.check()
    except z3.Z3Exception: return z3.unknown, None
    return r, s

def cvc5_check(text, timeout):
    fn = None
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + text); fn = f.name
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, fn], capture_output=True, text=True, timeout=timeout/1000 + 10)
        out = p.stdout.strip().split("\n")[0] if p.stdout else ""
        return out
    except Exception:
        return "unknown"
    finally:
        if fn: os.unlink(fn)

_hq = {}
def hasquant(f):
    i = f.get_id(); r = _hq.get(i)
    if r is None:
        stack = [f]; seen = set(); v = False
        while stack:
            t = stack.pop()
            if z3.is_quantifier(t): v = True; break
            if t.get_id() in seen: continue
            seen.add(t.get_id()); stack.extend(t.children())
        _hq[i] = r = (v, f)
    return r[0]

_hr = {}
def hasreal(f):
    i = f.get_id(); r = _hr.get(i)
    if r is None:
        stack = [f]; seen = set(); v = False
        while stack:
            t = stack.pop()
            if z3.is_arith(t) or z3.is_quantifier(t): v = True; break
            if t.get_id() in seen: continue
            seen.add(t.get_id()); stack.extend(t.children())
        _hr[i] = r = (v, f)
    return r[0]

_sy = {}
def symbols(f):
    i = f.get_id(); r = _sy.get(i)
    if r is None:
        stack = [f]; seen = set(); out = set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): stack.append(t.body()); continue
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(t.decl().name())
                stack.extend(t.children())
        _sy[i] = r = (out, f)
    return r[0]
def focused(hyps, focus):
    """ground hypotheses plus the quantified ones about the given symbols"""
    return [h for h in hyps if not hasquant(h) or (symbols(h) & focus)]

def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children(): out += conjuncts(c)
        return out
    if z3.is_implies(g):
        a, b = g.children()
        return [z3.Implies(a, x) for x in conjuncts(b)] if z3.is_and(b) else [g]
    return [g]

def is_poly(g):
    while z3.is_implies(g): g = g.arg(1)
    return poly.is_real_eq(g)

def relevant(pc, goal, axioms):
    return list(axioms) + list(pc)

def discharge(o, axioms, timeout=20000, use_cvc5=True, hook=None):
    """sets o.result in {'proved','failed','unknown'}"""
    t0 = time.time()
    res = "proved"; backend = "z3"
    g0 = z3.simplify(o.goal) if not z3.is_quantifier(o.goal) else o.goal
    if z3.is_true(g0):
        o.result, o.backend, o.time = "proved", "simplify", time.time() - t0; return o
    use = getattr(o, "using", None)
    if use is None and getattr(o, "focus", None): use = focused(list(axioms) + list(o.pc), o.focus)
    for g in conjuncts(o.goal):
        if use is not None and (check(list(use) + [z3.Not(g)], 1000)[0] == z3.unsat or inst.prove(list(use), g, min(timeout, 10000))): continue
        base = list(axioms) + list(o.pc)
        r = None
        if hook:
            h = hook(o, g)
            if h: backend = h if backend == "z3" else backend; continue
        if is_poly(g) and getattr(o, "rewrite", False) and rules.prove(o.pc, axioms, g): backend = "rewriting"; continue
        if is_poly(g):
            rr, s = check(base + [z3.Not(g)], 400)
            if rr == z3.unknown and getattr(o, "rewrite", False) and condense.prove(o.pc, axioms, g): backend = "rewriting"; continue
            if rr == z3.unknown and poly.prove(o.pc, axioms, g, 8.0): backend = "polynomial ideal"; continue
            if rr == z3.unknown: rr, s = check(base + [z3.Not(g)], min(timeout, 4000))
        elif any(hasquant(a) for a in base):
            rr, s = check(base + [z3.Not(g)], 250)
            if rr == z3.unknown and inst.prove(base, g, timeout): backend = "instantiation+z3"; continue
            if rr == z3.unknown: rr, s = check(base + [z3.Not(g)], min(timeout, 8000))
        else: rr, s = check(base + [z3.Not(g)], min(timeout, 4000))
        if rr == z3.unknown:
            for opts, tac in (({"smt.arith.solver": 2}, None), ({"smt.mbqi": False}, None), (None, "qfnra-nlsat" ), (None, None)):
                rr, s = check(base + [z3.Not(g)], timeout / 2 if opts or tac else timeout, opts, tac)
                if rr != z3.unknown: break
        if rr == z3.unknown and use_cvc5:
            out = cvc5_check(smt2(o.pc, g, axioms), timeout)
            if out == "unsat": rr = z3.unsat; backend = "cvc5"
            elif out == "sat": rr = z3.sat; s = None
        if rr == z3.unsat: continue
        o.failgoal = g
        if rr == z3.sat:
            res = "failed"
            try: o.model = s.model() if s is not None else None
            except z3.Z3Exception: o.model = None
            break
        res = "unknown"; break
    o.result, o.backend, o.time = res, backend, time.time() - t0
    return o
