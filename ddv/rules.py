"""Fast prover for complex-linear identities: oriented rewriting with the equalities of a path.

Every real equality of the path is a polynomial; its lexicographically largest monomial (newest atom first) is
replaced by the rest until the goal is zero.  Sound: only instances of hypotheses are subtracted."""
import z3, fractions
from .poly import Conv, TooBig, flatten

_cache = {}
def prove(pc, axioms, goal, steps=4000):
    extra = []
    while z3.is_implies(goal): extra.append(goal.arg(0)); goal = goal.arg(1)
    if not (z3.is_eq(goal) and z3.is_real(goal.arg(0))): return False
    if extra: return Prep(pc, axioms, extra).prove(goal, steps)
    key = tuple(c.get_id() for c in pc)
    P = _cache.get(key)
    if P is None:
        if len(_cache) > 3: _cache.clear()
        P = _cache[key] = Prep(pc, axioms, []); P.hold = list(pc)
    return P.prove(goal, steps)

class Prep:
    """the equalities of one path, oriented"""
    def __init__(self, pc, axioms, extra):
        lits = flatten([c for c in list(axioms) + list(pc) + extra if not z3.is_quantifier(c)])
        facts = {}
        keep = []
        subst = []; seen = set()
        for c in lits:
            if z3.is_not(c): facts[c.arg(0).get_id()] = False
            else: facts[c.get_id()] = True
            d = c
            if z3.is_eq(d) and (z3.is_bv(d.arg(0)) and d.arg(0).size() == 64):
                a, b = d.arg(0), d.arg(1)
                s = (b == a); keep.append(s); facts[s.get_id()] = True
                if z3.is_bv_value(a) or (not z3.is_const(a) and z3.is_const(b) and not z3.is_bv_value(b)): a, b = b, a
                if (z3.is_const(a) or z3.is_select(a)) and not z3.is_bv_value(a) and a.get_id() not in seen:
                    seen.add(a.get_id()); subst.append((a, b))
            elif z3.is_not(d) and z3.is_eq(d.arg(0)):
                s = (d.arg(0).arg(1) == d.arg(0).arg(0)); keep.append(s); facts[s.get_id()] = False
        def truth(x):
            if z3.is_true(x): return True
            if z3.is_false(x): return False
            f = facts.get(x.get_id())
            if f is not None: return f
            if z3.is_not(x):
                t = truth(x.arg(0)); return None if t is None else not t
            if z3.is_and(x):
                ts = [truth(y) for y in x.children()]
                if all(t is True for t in ts): return True
                if any(t is False for t in ts): return False
            if z3.is_or(x):
                ts = [truth(y) for y in x.children()]
                if any(t is True for t in ts): return True
                if all(t is False for t in ts): return False
            if z3.is_eq(x) and z3.is_bool(x.arg(0)):
                a, b = truth(x.arg(0)), truth(x.arg(1))
                if a is not None and b is not None: return a == b
            return None
        work = list(lits); eqs = []
        for _ in range(4):
            nxt = []; new = False
            for c in work:
                if z3.is_eq(c) and z3.is_real(c.arg(0)) and not z3.is_array(c.arg(0)): eqs.append(c); continue
                if z3.is_implies(c):
                    t = truth(c.arg(0))
                    if t is True: add = flatten([c.arg(1)])
                    else: nxt.append(c); continue
                elif z3.is_or(c):
                    rest = [x for x in c.children() if truth(x) is not False]
                    if len(rest) == 1: add = flatten(rest)
                    else: nxt.append(c); continue
                elif z3.is_eq(c) and z3.is_bool(c.arg(0)):
                    a, b = truth(c.arg(0)), truth(c.arg(1))
                    if a is not None and b is None: add = flatten([c.arg(1) if a else z3.Not(c.arg(1))])
                    elif b is not None and a is None: add = flatten([c.arg(0) if b else z3.Not(c.arg(0))])
                    else: nxt.append(c); continue
                else: continue
                for x in add:
                    keep.append(x)
                    if z3.is_eq(x) and z3.is_real(x.arg(0)): eqs.append(x)
                    else:
                        facts[x.arg(0).get_id() if z3.is_not(x) else x.get_id()] = not z3.is_not(x)
                        if z3.is_eq(x) and z3.is_bv(x.arg(0)) and x.arg(0).size() == 64:
                            a, b = x.arg(0), x.arg(1)
                            if z3.is_bv_value(a): a, b = b, a
                            if (z3.is_const(a) or z3.is_select(a)) and not z3.is_bv_value(a) and a.get_id() not in seen:
                                seen.add(a.get_id()); subst.append((a, b))
                        nxt.append(x)
                    new = True
            work = nxt
            if not new: break
        def norm(t):
            for _ in range(3):
                u = z3.substitute(t, *subst) if subst else t
                if u.eq(t): break
                t = u
            keep.append(t)
            return t
        cv = Conv(facts)
        try:
            hyps = []
            for e in eqs:
                e = norm(e)
                try: q = cv.conv(e.arg(1)); p = cv.add(cv.conv(e.arg(0)), q, -1)
                except TooBig: continue
                if p and len(p) < 300: hyps.append(p)
        except TooBig: pass
        lexkey = lambda m: tuple(sorted(((v, e) for v, e in m), reverse=True))
        # orientation: newest atoms first; rules inter-reduced in order of introduction
        rules = {}
        def lead(p): return max(p, key=lexkey)
        def divides(a, b):
            db = dict(b)
            return all(db.get(v, 0) >= e for v, e in a)
        def reduce(p, limit):
            done = {}
            p = dict(p)
            n = 0
            while p:
                m = lead(p); c = p.pop(m)
                hit = None
                for v, _ in m:
                    for lm, rest in rules.get(v, ()):
                        if divides(lm, m): hit = (lm, rest); break
                    if hit: break
                if hit is None: done[m] = c; continue
                n += 1
                if n > limit or len(p) > 3000: return None
                lm, rest = hit
                dm = dict(m)
                for v, e in lm: dm[v] -= e
                q = tuple(sorted((v, e) for v, e in dm.items() if e))
                for mm, k in rest.items():
                    x = cv.mm(q, mm); val = p.get(x, 0) + c * k
                    if val: p[x] = val
                    else: p.pop(x, None)
            return done
        def addrule(p):
            m = lead(p); c = p[m]
            rest = {n: -k / c for n, k in p.items() if n != m}
            if not m: return
            v = max(m)[0]
            rules.setdefault(v, []).append((m, rest))
        for h in hyps:
            r = reduce(h, 400)
            if r: addrule(r)
        self.norm, self.cv, self.reduce, self.keep = norm, cv, reduce, keep
    def prove(self, goal, steps):
        cv = self.cv
        try:
            g = self.norm(goal)
            gp = cv.add(cv.conv(g.arg(0)), cv.conv(g.arg(1)), -1)
        except TooBig: return False
        if not gp: return True
        r = self.reduce(gp, steps)
        return r is not None and not r
