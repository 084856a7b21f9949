"""Quantifier instantiation back end: skolemise, instantiate the universally quantified hypotheses at the ground
terms that occur in matching positions (bounded generations), and decide the remaining ground formula with z3.

Sound for proving: only instances of hypotheses are added and hypotheses are only dropped."""
import itertools, time
import z3
from z3 import is_quantifier, is_app, is_var, is_select, is_store

MAXINST = 6000

def _roots(a, cache):
    """names of the array constants an array term is built from"""
    i = a.get_id()
    r = cache.get(i)
    if r is not None: return r[0]
    if is_store(a): s = _roots(a.arg(0), cache)
    elif z3.is_app_of(a, z3.Z3_OP_ITE): s = _roots(a.arg(1), cache) | _roots(a.arg(2), cache)
    elif is_select(a): s = frozenset(["sel"])
    elif is_app(a): s = frozenset([a.decl().name()])
    else: s = frozenset()
    cache[i] = (s, a)
    return s

class Inst:
    def __init__(self):
        self.rc = {}; self.seen = {}; self.keep = []
        self.terms = {}      # (symbol, position) -> {term id: (term, generation)}
        self.quants = []     # (guard bool, quantifier)
        self.qseen = {}
        self.done = set()
        self.ninst = 0
    def occ(self, t):
        """symbol/position pairs with argument of an application: list of (key, arg)"""
        if is_select(t):
            rs = _roots(t.arg(0), self.rc)
            return [((r, k), t.arg(k + 1)) for r in rs for k in range(t.num_args() - 1)]
        if is_store(t):
            rs = _roots(t.arg(0), self.rc)
            return [((r, k), t.arg(k + 1)) for r in rs for k in range(t.num_args() - 2)]
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
            return [((t.decl().name(), k), t.arg(k)) for k in range(t.num_args())]
        return []
    def collect(self, f, gen):
        """record ground terms of a quantifier free formula"""
        stack = [f]
        while stack:
            t = stack.pop()
            i = t.get_id()
            if i in self.seen: continue
            self.seen[i] = t
            if not is_app(t): continue
            for k, a in self.occ(t):
                d = self.terms.setdefault(k, {})
                if a.get_id() not in d: d[a.get_id()] = (a, gen)
            stack.extend(t.children())
    def abstract(self, f):
        """replace quantifiers by propositional names"""
        subs = []
        stack = [f]; seen = set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if is_quantifier(t):
                i = t.get_id()
                if i not in self.qseen:
                    b = z3.FreshBool("q"); self.qseen[i] = (b, t)
                    if t.is_forall(): self.quants.append((b, t))
                subs.append((t, self.qseen[i][0])); continue
            stack.extend(t.children())
        return z3.substitute(f, *subs) if subs else f
    def triggers(self, q):
        """per variable: list of (symbol, position)"""
        n = q.num_vars()
        out = [set() for _ in range(n)]
        def scan(t, seen):
            stack = [t]
            while stack:
                u = stack.pop()
                if u.get_id() in seen: continue
                seen.add(u.get_id())
                if is_quantifier(u) or not is_app(u): continue
                for k, a in self.occ(u):
                    if is_var(a): out[z3.get_var_index(a)].add(k)
                stack.extend(u.children())
        for i in range(q.num_patterns()): scan(q.pattern(i), set())
        if any(not o for o in out):
            keep = [set(o) for o in out]
            scan(q.body(), set())
            for i in range(n):
                if keep[i]: out[i] = keep[i]
        return out      # indexed by de Bruijn index
    def round(self, gen, maxgen):
        new = []
        for b, q in list(self.quants):
            tr = getattr(q, "_trig", None)
            tr = self.qtrig.setdefault(q.get_id(), None) or self.triggers(q)
            self.qtrig[q.get_id()] = tr
            n = q.num_vars()
            sets = []
            for v in range(n):
                d = {}
                for k in tr[v]:
                    for i, (t, g) in self.terms.get(k, {}).items():
                        if g < gen: d[i] = t
                srt = q.var_sort(n - 1 - v)
                sets.append([t for t in d.values() if t.sort() == srt])
            if any(not s for s in sets): continue
            tot = 1
            for s in sets: tot *= len(s)
            if tot > MAXINST: continue
            for combo in itertools.product(*sets):
                key = (q.get_id(),) + tuple(t.get_id() for t in combo)
                if key in self.done: continue
                self.done.add(key)
                body = z3.substitute_vars(q.body(), *combo)
                self.ninst += 1
                new.append(z3.Implies(b, body))
                if self.ninst > MAXINST: return new
        return new
    qtrig = None

def nnf(fs):
    g = z3.Goal()
    for f in fs: g.add(f)
    r = z3.Tactic("nnf")(g)
    if len(r) != 1: return None
    return list(r[0])

def prove(assertions, goal, timeout=4000, rounds=3, want_model=False):
    t0 = time.time()
    try: fs = nnf(list(assertions) + [z3.Not(goal)])
    except z3.Z3Exception: return False
    if fs is None: return False
    I = Inst(); I.qtrig = {}
    hasq = False
    ground = []
    for f in fs:
        a = I.abstract(f)
        ground.append(a)
    if not I.quants: return False
    s = z3.Solver(); s.set("timeout", int(timeout))
    for a in ground: s.add(a); I.collect(a, 0)
    for gen in range(1, rounds + 1):
        new = I.round(gen, rounds)
        if not new:
            if gen > 1: return False
        # instances may contain nested quantifiers: normalise and abstract again
        if new:
            try: ns = nnf(new)
            except z3.Z3Exception: return False
            for f in ns:
                a = I.abstract(f)
                s.add(a); I.collect(a, gen)
        left = timeout - (time.time() - t0) * 1000
        if left < 50: return False
        s.set("timeout", int(left / 3 if gen < rounds else left))
        r = s.check()
        if r == z3.unsat: return True
    return False
