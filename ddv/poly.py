"""Polynomial identities: proves  hyps |- p == q  over the reals by ideal membership.

Atoms are the non-polynomial subterms.  ite(c, x, y) becomes b*x + (1-b)*y with b*b = b.  Hypotheses are the
equalities in the path condition (conditional ones once their condition is established).  Sound: only
adds consequences of the hypotheses; incomplete: a failure means nothing."""
import z3, time, fractions
from sympy.polys.rings import ring
from sympy.polys.domains import QQ
from sympy.polys.orderings import grevlex
from sympy.polys.groebnertools import groebner

class TooBig(Exception): pass

def flatten(pc):
    out = []; stack = list(reversed(pc))
    while stack:
        c = stack.pop()
        if z3.is_and(c): stack += list(reversed(c.children()))
        elif z3.is_not(c) and z3.is_or(c.arg(0)): stack += [z3.Not(x) for x in reversed(c.arg(0).children())]
        elif z3.is_not(c) and z3.is_not(c.arg(0)): stack.append(c.arg(0).arg(0))
        else: out.append(c)
    return out

def is_uconst(t): return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED

def substitute_eqs(pc, goals, rounds=3):
    """eliminate x == t for uninterpreted constants x (x not in t)"""
    for _ in range(rounds):
        subst = []; used = set(); keep = []
        for c in pc:
            if z3.is_eq(c):
                a, b = c.children()
                if is_uconst(b) and not is_uconst(a): a, b = b, a
                if is_uconst(a) and a.get_id() not in used and not z3.is_array(a):
                    if not occurs(a, b) and not any(occurs(x, b) for x, _ in subst) and not any(occurs(a, t) for _, t in subst):
                        subst.append((a, b)); used.add(a.get_id()); continue
            keep.append(c)
        if not subst: break
        pc = [z3.simplify(z3.substitute(c, *subst)) for c in keep]
        pc = [c for c in flatten(pc) if not z3.is_true(c)]
        goals = [z3.simplify(z3.substitute(g, *subst)) for g in goals]
    return pc, goals

def occurs(x, t, cache=None):
    seen = set(); st = [t]
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_quantifier(u): st.append(u.body()); continue
        if u.eq(x): return True
        st += u.children()
    return False

class Conv:
    def __init__(self, facts, maxterms=4000):
        self.atoms = []; self.index = {}; self.facts = facts; self.bools = {}; self.extra = []
        self.maxterms = maxterms; self.cache = {}; self.keep = []
    def var(self, key, term):
        if key not in self.index:
            self.index[key] = len(self.atoms); self.atoms.append(term)
        return {((self.index[key], 1),): fractions.Fraction(1)}
    def const(self, f): return {(): fractions.Fraction(f)} if f else {}
    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v: r[m] = v
            else: r.pop(m, None)
        return r
    def mul(self, a, b):
        r = {}
        if len(a) * len(b) > 200000: raise TooBig()
        for m, c in a.items():
            for n, d in b.items():
                k = self.mm(m, n); v = r.get(k, 0) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        if len(r) > self.maxterms: raise TooBig()
        return r
    def mm(self, m, n):
        if not m: return n
        if not n: return m
        d = dict(m)
        for v, e in n: d[v] = d.get(v, 0) + e
        # booleans are idempotent
        return tuple(sorted((v, 1 if v in self.bools else e) for v, e in d.items()))
    def boolean(self, c):
        if z3.is_not(c): return self.add(self.const(1), self.boolean(c.arg(0)), -1)
        if z3.is_true(c): return self.const(1)
        if z3.is_false(c): return {}
        k = c.get_id()
        f = self.facts.get(k)
        if f is not None: return self.const(1 if f else 0)
        p = self.var(("b", k), c); self.bools[self.index[("b", k)]] = c
        return p
    def conv(self, t):
        k = t.get_id()
        if k in self.cache: return self.cache[k]
        r = self._conv(t); self.cache[k] = r
        return r
    def _conv(self, t):
        if z3.is_rational_value(t): return self.const(fractions.Fraction(t.numerator_as_long(), t.denominator_as_long()))
        d = t.decl().kind()
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in t.children(): r = self.add(r, self.conv(c))
            return r
        if d == z3.Z3_OP_SUB:
            ch = t.children(); r = self.conv(ch[0])
            for c in ch[1:]: r = self.add(r, self.conv(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS: return self.add({}, self.conv(t.arg(0)), -1)
        if d == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in t.children(): r = self.mul(r, self.conv(c))
            return r
        if d == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            e = t.arg(1); n = e.numerator_as_long()
            if e.denominator_as_long() == 1 and 0 <= n <= 8:
                r = self.const(1); b = self.conv(t.arg(0))
                for _ in range(n): r = self.mul(r, b)
                return r
        if d == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)):
            e = t.arg(1); f = fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
            if f: return self.mul(self.conv(t.arg(0)), self.const(1 / f))
        if d == z3.Z3_OP_ITE:
            c, tx, ty = t.children()
            lb = lowbit(c)
            if lb is not None:
                e, pos = lb
                al = z3.simplify(z3.Concat(z3.Extract(63, 1, e), z3.BitVecVal(0, 1)))
                if pos: ty = z3.simplify(z3.substitute(ty, (e, al)))
                else: tx = z3.simplify(z3.substitute(tx, (e, al)))
                self.keep += [tx, ty]
                c = z3.Extract(0, 0, e) == 1; self.keep.append(c)
                if not pos: c = z3.Not(c)
            b = self.boolean(c); x, y = self.conv(tx), self.conv(ty)
            return self.add(y, self.mul(b, self.add(x, y, -1)))
        if d == z3.Z3_OP_TO_REAL and z3.is_int_value(t.arg(0)): return self.const(t.arg(0).as_long())
        return self.var(t.get_id(), t)

def lowbit(c):
    """c is  bit0(e) == 1  -> (e, True);  bit0(e) == 0 -> (e, False)  for an uninterpreted e"""
    if z3.is_not(c):
        r = lowbit(c.arg(0)); return r and (r[0], not r[1])
    if z3.is_eq(c):
        a, b = c.children()
        if z3.is_bv_value(a): a, b = b, a
        if z3.is_bv_value(b) and z3.is_bv(a) and a.size() == 1 and a.decl().kind() == z3.Z3_OP_EXTRACT and a.params() == [0, 0] and a.arg(0).size() == 64:
            return a.arg(0), b.as_long() == 1
    return None

class Resolver:
    """select-over-store resolution with the (dis)equalities of the path condition"""
    def __init__(self, pc, budget=4.0):
        self.s = z3.Solver(); self.s.set("timeout", 300)
        self.facts = {}; self.keep = list(pc)
        for c in pc:
            if z3.is_quantifier(c): continue
            if nonarith(c): self.s.add(c)
            if z3.is_not(c): self.facts[c.arg(0).get_id()] = False
            else: self.facts[c.get_id()] = True
        self.cache = {}; self.eqc = {}; self.t = time.time(); self.budget = budget; self.keepers = []
    def eq(self, a, b):
        if a.eq(b): return True
        k = (min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
        if k in self.eqc: return self.eqc[k]
        self.keepers += [a, b]
        e = z3.simplify(a == b); self.keepers.append(e)
        r = None
        if z3.is_true(e): r = True
        elif z3.is_false(e): r = False
        elif e.get_id() in self.facts: r = self.facts[e.get_id()]
        elif z3.is_not(e) and e.arg(0).get_id() in self.facts: r = not self.facts[e.arg(0).get_id()]
        elif time.time() - self.t < self.budget:
            self.s.push(); self.s.add(e); q = self.s.check(); self.s.pop()
            if q == z3.unsat: r = False
            else:
                self.s.push(); self.s.add(z3.Not(e)); q = self.s.check(); self.s.pop()
                if q == z3.unsat: r = True
        self.eqc[k] = r
        return r
    def run(self, t):
        k = t.get_id()
        if k in self.cache: return self.cache[k]
        if z3.is_quantifier(t) or not t.children(): r = t
        else:
            ch = [self.run(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_SELECT and len(ch) == 2:
                a, i = ch
                while True:
                    if a.decl().kind() == z3.Z3_OP_STORE and a.num_args() == 3:
                        q = self.eq(a.arg(1), i)
                        if q is True: r = a.arg(2); break
                        if q is False: a = a.arg(0); continue
                    r = z3.Select(a, i); break
            elif all(x.eq(y) for x, y in zip(ch, t.children())): r = t
            else:
                r = z3.substitute(t, *[(x, y) for x, y in zip(t.children(), ch) if not x.eq(y)])
        self.keepers += [t, r]
        self.cache[k] = r
        return r

def nonarith(c):
    """no real arithmetic inside (cheap for the bit-vector solver)"""
    seen = set(); st = [c]
    while st:
        u = st.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if z3.is_quantifier(u) or z3.is_real(u): return False
        if len(seen) > 400: return False
        st += u.children()
    return True

def is_real_eq(c): return z3.is_eq(c) and z3.is_real(c.arg(0)) and not z3.is_array(c.arg(0))

def prove(pc, axioms, goal, timeout=10.0, entail=None):
    """goal: an equality between reals (possibly under an implication)"""
    t0 = time.time()
    pc = list(pc)
    while z3.is_implies(goal): pc.append(goal.arg(0)); goal = goal.arg(1)
    if not is_real_eq(goal): return False
    pc = flatten([z3.simplify(c) for c in flatten(list(axioms) + pc) if not z3.is_quantifier(c)])
    goal = z3.simplify(goal)
    pc, (g,) = substitute_eqs(pc, [goal])
    if z3.is_true(g): return True
    if z3.is_false(g) or not is_real_eq(g): return False
    rs = Resolver(pc)
    g = z3.simplify(rs.run(g)); pc = [z3.simplify(rs.run(c)) for c in pc]
    pc = flatten([c for c in pc if not z3.is_true(c)])
    if z3.is_true(g): return True
    if not is_real_eq(g): return False
    facts = {}
    for c in pc:
        if z3.is_not(c): facts[c.arg(0).get_id()] = False
        else: facts[c.get_id()] = True
    facts_keep = pc
    cv = Conv(facts)
    try:
        gp = cv.add(cv.conv(g.arg(0)), cv.conv(g.arg(1)), -1)
        if not gp: return True
        hyps = []
        for c in pc:
            h = c
            if z3.is_or(c):
                # conditional equality: disjuncts refuted by the facts are dropped
                rest = [x for x in c.children() if not refuted(x, facts, pc, entail)]
                if len(rest) != 1: continue
                h = rest[0]
            elif z3.is_implies(c):
                if not (facts.get(c.arg(0).get_id()) is True): continue
                h = c.arg(1)
            for e in flatten([h]):
                if is_real_eq(e):
                    try:
                        p = cv.add(cv.conv(e.arg(0)), cv.conv(e.arg(1)), -1)
                    except TooBig: continue
                    if p and len(p) < 200: hyps.append(p)
        # cone of influence
        def vs(p): return {v for m in p for v, _ in m}
        # eliminate linear definitions  x = poly  (x occurs linearly with constant coefficient, alone)
        changed = True
        while changed and time.time() - t0 < timeout:
            changed = False
            for i, h in enumerate(hyps):
                cand = None
                for m, c in h.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] not in cv.bools:
                        v = m[0][0]
                        if all(v not in [w for w, _ in n] for n in h if n != m): cand = (v, m, c); break
                if cand is None: continue
                v, m, c = cand
                rep = {n: -k / c for n, k in h.items() if n != m}
                def sub(p):
                    if v not in vs(p): return p
                    out = {}
                    for n, k in p.items():
                        e = dict(n).get(v, 0); rest = tuple(x for x in n if x[0] != v); q = {rest: k}
                        for _ in range(e): q = cv.mul(q, rep)
                        out = cv.add(out, q)
                    return out
                gp = sub(gp); hyps = [sub(x) for j, x in enumerate(hyps) if j != i]; hyps = [x for x in hyps if x]
                changed = True
                if not gp: return True
                break
        rel = vs(gp); pick = []; pending = list(hyps); grew = True
        while grew:
            grew = False
            for h in list(pending):
                if vs(h) & rel: pick.append(h); pending.remove(h); n0 = len(rel); rel |= vs(h); grew = True
        if len(rel) > 40: 
            pick = [h for h in pick if len(vs(h) & vs(gp)) > 0]; rel = vs(gp).union(*[vs(h) for h in pick])
        names = sorted(rel)
        if not names: return False
        R, *gens = ring(["x%d" % v for v in names], QQ, grevlex)
        pos = {v: i for i, v in enumerate(names)}
        def tor(p):
            d = {}
            for m, c in p.items():
                e = [0] * len(names)
                for v, k in m: e[pos[v]] += k
                d[tuple(e)] = QQ(c.numerator, c.denominator)
            return R.from_dict(d)
        G = tor(gp); H = [tor(h) for h in pick] + [gens[pos[v]] ** 2 - gens[pos[v]] for v in names if v in cv.bools]
        if not H: return False
        if not G.rem(H): return True
        if len(H) > 24: return False
        import signal
        class TO(Exception): pass
        def hd(*a): raise TO()
        old = signal.signal(signal.SIGALRM, hd); signal.setitimer(signal.ITIMER_REAL, max(0.5, timeout - (time.time() - t0)))
        try:
            gb = groebner(H, R)
            return not G.rem(gb)
        except TO: return False
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
    except TooBig: return False

def refuted(x, facts, pc, entail):
    f = facts.get(x.get_id())
    if f is not None: return f is False
    if z3.is_not(x):
        f = facts.get(x.arg(0).get_id())
        if f is not None: return f is True
    if is_real_eq(x) and entail is None: pass
    if entail is not None: return entail(pc, z3.Not(x))
    s = z3.Solver(); s.set("timeout", 1500)
    for c in pc:
        if not z3.is_quantifier(c): s.add(c)
    s.add(x)
    return s.check() == z3.unsat
