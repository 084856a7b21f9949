"""C03: reference counts and garbage collection of the table of real numbers."""
from .numtable import *
from ..symex import LoopSpec, Inv, Obj

ZC, NZ = Function("dead.before", P, P, P), Function("alive.before", P, P, P)     # number of unreferenced / referenced entries before a sweep position

CNT = {'dead.before', 'alive.before'}
class FreeView:
    """role after the sweep has passed some entries"""
    def __init__(self, dead): self.dead = dead
    def __getitem__(self, p): return If(self.dead(p), 2, ROLE[p])

class Sweep:
    def __init__(self, t, st):
        self.t = t
        self.N0, self.T0, self.L0, self.V, self.R = t.N(st), t.T(st), t.L(st), t.V(st), t.R(st)
    def vis(self, k1, p):
        V = self.V
        return lambda q: And(ROLE[q] == 1, Or(ULT(BK[q], k1), And(BK[q] == k1, Or(p == 0, V[q] < V[p]))))
    def kept(self, k1, p): v = self.vis(k1, p); return lambda q: And(v(q), self.R[q] != 0)
    def dead(self, k1, p): v = self.vis(k1, p); return lambda q: And(v(q), self.R[q] == 0)
    def pool(self, s, k1, p, prev):
        A, N = self.t.ch.get(s, "available"), self.t.N(s); dd = self.dead(k1, p)
        fr = lambda q: Or(ROLE[q] == 2, dd(q))
        return [("free-head", Or(A == 0, And(fr(A), prev[A] == 0))),
                ("free-next", FA([e], Implies(fr(e), Or(N[e] == 0, And(fr(N[e]), prev[N[e]] == e))), [ROLE[e]]))]
    def invs(self, s, k1, p, lastp, prev):
        t, V, R, N0, T0, L0 = self.t, self.V, self.R, self.N0, self.T0, self.L0
        N, T, L = t.N(s), t.T(s), t.L(s)
        vis, kept = self.vis(k1, p), self.kept(k1, p)
        inr = ULT(k1, NB)
        return [("cursor", Or(p == 0, And(ROLE[p] == 1, BK[p] == k1))),
                ("ahead-chain", FA([e], Implies(And(ROLE[e] == 1, Not(vis(e))), N[e] == N0[e]), [ROLE[e]])),
                ("ahead-tables", ForAll([j], Implies(And(UGT(j, k1), ULT(j, NB)), And(T[j] == T0[j], L[j] == L0[j])))),
                ("last-kept", Or(lastp == 0, And(kept(lastp), BK[lastp] == k1, N[lastp] == p))),
                ("head-cursor", Implies(And(lastp == 0, inr), T[k1] == p)),
                ("last-is-max", FA([e], Implies(And(kept(e), BK[e] == k1), And(lastp != 0, V[e] <= V[lastp], Or(e == lastp, N[e] != 0))), [ROLE[e]])),
                ("tail-current", Implies(inr, Or(L[k1] == lastp, And(p == T0[k1], L[k1] == L0[k1])))),
                ("first", FA([e], Implies(kept(e), And(T[BK[e]] != 0, kept(T[BK[e]]), BK[T[BK[e]]] == BK[e], V[T[BK[e]]] <= V[e])), [ROLE[e]])),
                ("order", FA([e], Implies(And(kept(e), e != lastp, N[e] != 0), And(kept(N[e]), BK[N[e]] == BK[e], V[e] < V[N[e]])), [ROLE[e]])),
                ("last", FA([e], Implies(And(kept(e), ULT(BK[e], k1)), And(L[BK[e]] != 0, V[e] <= V[L[BK[e]]], Implies(N[e] == 0, e == L[BK[e]]))), [ROLE[e]])),
                ("adjacent", FA([e, f], Implies(And(kept(e), kept(f), e != lastp, BK[e] == BK[f], V[e] < V[f]), And(Or(N[e] != 0), V[N[e]] <= V[f])), [ROLE[e], ROLE[f]])),
                ("heads", ForAll([j], Implies(And(ULT(j, k1), ULT(j, NB)), And((T[j] == 0) == (L[j] == 0), Implies(T[j] != 0, And(kept(T[j]), BK[T[j]] == j)), Implies(L[j] != 0, And(kept(L[j]), BK[L[j]] == j, N[L[j]] == 0)))))),
                ("head-current", Implies(And(inr, lastp != 0), And(kept(T[k1]), BK[T[k1]] == k1)))] + self.pool(s, k1, p, prev)
    def count_axioms(self, st):
        N0, T0, R = self.N0, self.T0, self.R
        st.assume([ZC(B(0), T0[B(0)]) == 0, NZ(B(0), T0[B(0)]) == 0,
          FA([e], Implies(ROLE[e] == 1, And(ZC(BK[e], N0[e]) == ZC(BK[e], e) + If(R[e] == 0, B(1), B(0)), NZ(BK[e], N0[e]) == NZ(BK[e], e) + If(R[e] == 0, B(0), B(1)))), [ROLE[e]]),
          ForAll([j], Implies(ULT(j, NB - 1), And(ZC(j + 1, T0[j + 1]) == ZC(j, B(0)), NZ(j + 1, T0[j + 1]) == NZ(j, B(0)))), patterns=[T0[j]])])
    def pos(self, F, k1, p):
        # number before position (k1, p); past the end it is the total
        return If(ULT(k1, NB), F(k1, p), F(B(NB - 1), B(0)))

j = BitVec("j", 64)

def intcells(s, zero=True):
    pre = s.frames[-1].id + "#"; out = []
    for oid, o in s.mem.items():
        if oid[1].startswith(pre):
            for off, (sz, v) in o.cells.items():
                if sz == 8 and ((type(v) is int) or (isinstance(v, ExprRef) and is_bv(v))): out.append((oid, off))
    return out

def isindex(ex, fn, body, oid):
    """does the loop use this local as an array index?"""
    reg = oid[1].split("#")[-1]
    for b in fn.blocks:
        if b.name not in body: continue
        lds = set()
        for i in b.ins:
            if i.op == "load" and i.a["p"] == ("reg", reg): lds.add(i.res)
            elif i.op in ("call", "invoke") and i.a["f"][0] == "glob":
                if "operator[]" in ex.mod.dem.get(i.a["f"][1], "") and any(v[0] == "reg" and v[1] in lds for _, v in i.a["args"][1:]): return True
            elif i.op == "getelementptr" and any(v[0] == "reg" and v[1] in lds for _, v in i.a["idx"]): return True
    return False

def gc_loops(ctx, t, sw):
    ex = ctx.ex
    ctxd = {}
    def prev(s): return s.ghost["prev"]
    def spec(ex, st, fn, h, body):
        if not fn.dem.startswith(CT + "garbageCollect("): return None
        if "key" not in ctxd:
            # outer loop
            zero = [c for c in intcells(st) if is_bv_value(cellv(st, c)) and cellv(st, c).as_long() == 0]
            keys = [c for c in zero if isindex(ex, fn, body, c[0])]
            if len(keys) != 1: raise Unsupported("bucket loop of garbageCollect not recognised")
            ctxd["key"] = keys[0]; ctxd["cnt"] = [c for c in zero if c != keys[0]]
            kc = keys[0]
            def cands(ex, s0):
                out = []
                K = lambda s: cellv(s, kc)
                head = lambda s: If(ULT(K(s), NB), sw.T0[K(s)], B(0))
                out.append(Inv("bound", lambda s: ULE(K(s), NB), True))
                names = [n for n, _ in sw.invs(s0, B(0), B(0), B(0), prev(s0))]
                for n, nm in enumerate(names):
                    out.append(Inv(nm, lambda s, n=n: sw.invs(s, K(s), head(s), B(0), prev(s))[n][1], True))
                for c in ctxd["cnt"]:
                    for F, fn_ in ((ZC, "dead"), (NZ, "alive")):
                        out.append(Inv("counts-" + fn_, lambda s, c=c, F=F: cellv(s, c) == sw.pos(F, K(s), head(s)), focus=CNT))
                return out
            return LoopSpec("buckets", cands)
        kc = ctxd["key"]
        def cands(ex, s0):
            out = []
            K = lambda s: cellv(s, kc)
            cs = ptrcells(s0); T0_ = t.T(s0)
            cur = [c for c in cs if c != kc and is_select(cellv(s0, c)) and cellv(s0, c).arg(0).eq(T0_)]
            nulls = [c for c in cs if c != kc and c not in ctxd["cnt"] and is_bv_value(cellv(s0, c)) and cellv(s0, c).as_long() == 0]
            nulls = [c for c in nulls if ex.mod.resolve(s0.mem[c[0]].ty).k == "ptr" if s0.mem[c[0]].ty is not None]
            cur = [c for c in cur if ex.mod.resolve(s0.mem[c[0]].ty).k == "ptr"]
            if len(cur) != 1 or len(nulls) < 1: raise Unsupported("chain loop of garbageCollect not recognised")
            Pc = lambda s: cellv(s, cur[0]); Lc = lambda s: cellv(s, nulls[0])
            names = [n for n, _ in sw.invs(s0, B(0), B(0), B(0), prev(s0))]
            out.append(Inv("bound", lambda s: ULT(K(s), NB), True))
            for n, nm in enumerate(names):
                out.append(Inv(nm, lambda s, n=n: sw.invs(s, K(s), Pc(s), Lc(s), prev(s))[n][1], True))
            out.append(Inv("cursor-chain", lambda s: Or(Pc(s) == 0, t.N(s)[Pc(s)] == sw.N0[Pc(s)]), True))
            for c in ctxd["cnt"]:
                for F, fn_ in ((ZC, "dead"), (NZ, "alive")):
                    out.append(Inv("counts-" + fn_, lambda s, c=c, F=F: cellv(s, c) == F(K(s), Pc(s)), focus=CNT))
            return out
        return LoopSpec("chain", cands)
    return spec

def t_gc(force):
    def run(ctx):
        fn = fnof(ctx, "garbageCollect("); ctx.loc = fn.dem
        ctx.ex.defs["feas_ground"] = True
        st = ctx.state()
        t = NumTable(ctx, st); t.setup(st)
        # the hash function plays no part here
        ctx.ex.axioms = [a for a in ctx.ex.axioms if not symex.hasquant(a)]
        sw = Sweep(t, st); sw.count_axioms(st)
        # size of the table: every stored entry counted once
        n0 = t.ch.geti(st, "count")
        total = lambda F: F(B(NB - 1), B(0))
        st.assume(FA([e], Implies(ROLE[e] == 1, ULT(BK[e], NB)), [ROLE[e]]))
        st.ghost["prev"] = PREV
        def on_store(ex, s, key, idx, v, a):
            if key == NREG and "prev" in s.ghost:
                q = idx[0]; pv = s.ghost["prev"]
                s.ghost["prev"] = If(Select(sw.R, q) == 0, Store(Store(pv, bv(v, 64), q), q, B(0)), pv); s.wlog.add(("g", "prev"))
        ctx.ex.defs["on_store"] = on_store
        ctx.ex.loopspec = gc_loops(ctx, t, sw)
        ctx.reach(st, "invariant")
        V0, R0, N0, T0, L0 = t.V(st), t.R(st), t.N(st), t.T(st), t.L(st)
        lim0 = t.ch.get(st, "gcLimit") if "gcLimit" in t.o else None
        A0 = t.ch.get(st, "available")
        for o in ctx.call(st, fn, [t.obj, force]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state; ret = bv(o.ret, 64); n1 = t.ch.geti(s, "count")
            ctx.oblige(s, "values-unchanged", And(t.V(s) == V0, t.R(s) == R0))
            if t.N(s).eq(N0) and t.T(s).eq(T0) and t.L(s).eq(L0):
                ctx.oblige(s, "nothing-done", And(ret == 0, n1 == n0, t.ch.get(s, "available") == A0))
                ctx.oblige(s, "only-if-not-needed", Or(ULE(n0, 1), And(BoolVal(not force), ULT(n0, lim0))))
                continue
            for nm, g in (("number-removed", ret == total(ZC)), ("number-remaining", n1 == total(NZ))):
                ctx.oblige(s, nm, g); ctx.ex.obls[-1].focus = CNT
            end = (B(NB), B(0))
            dead = sw.dead(*end)
            role = FreeView(dead)
            for nm, g in t.lists(t.T(s), t.L(s), t.N(s), t.V(s), role, BK): ctx.oblige(s, "inv-" + nm, g)
            for nm, g in t.pool(s, role, s.ghost["prev"], True): ctx.oblige(s, "inv-" + nm, g)
    t = Task("ComplexTable::garbageCollect(%s)" % ("forced" if force else "if needed"), "", run, merge=False, timeout=30000, budget=600); t.cost = 15; t.par = 4
    return t

def t_ref(kind, level):
    """incRef / decRef: of one entry (table) or of both parts of a complex number"""
    def run(ctx):
        name = (CT if level == "table" else CN) + kind + "("
        fn = ctx.fn(lambda d: d.startswith(name)); ctx.loc = fn.dem
        st = ctx.state()
        z, o1, sq = [B(g) for g in (ctx.zero(), ctx.one(), ctx.sq())]
        R0 = ctx.region(st, RREG); V0 = ctx.V(st); N0 = ctx.region(st, NREG)
        MAX = BitVecVal(0xffffffff, 32)
        pr, pi = BitVecs("pr pi", 64)
        for q in (pr, pi): st.assume([Extract(2, 1, q) == 0, ULT(q, B(1 << 62))])
        def static(q): return Or(q == z, q == o1, q == sq, q == 0)
        def step(R, q):
            q = strip(q)
            keep = Or(static(q), R[q] == MAX)
            return If(keep, R, Store(R, q, R[q] + 1 if kind == "incRef" else R[q] - 1)), And(Not(static(q)), R[q] == 0)
        if level == "table":
            args = [pr]; R1, err = step(R0, pr); early = BoolVal(False); err2 = BoolVal(False); R2_ = R1
        else:
            arg = cplx_ptr(ctx, st, "arg", pr, pi); args = [arg]
            for q in (pr, pi): st.assume(strip(q) != 0)
            R1, err = step(R0, pr); R2_, err2 = step(R1, pi)
        if kind == "incRef": err = err2 = BoolVal(False)
        ctx.reach(st, "state")
        for o in ctx.call(st, fn, args):
            s = o.state
            if o.kind == "throw":
                ctx.oblige(s, "error-only-if-unreferenced", Or(err, err2)); continue
            ctx.oblige(s, "accepted", And(Not(err), Not(err2)) if kind == "decRef" else BoolVal(True))
            ctx.oblige(s, "counts", ctx.region(s, RREG) == R2_)
            ctx.oblige(s, "values-unchanged", And(ctx.V(s) == V0, ctx.region(s, NREG) == N0))
    return Task("%s::%s" % ("ComplexTable" if level == "table" else "ComplexNumbers", kind), "", run, timeout=15000)

def tasks(mod):
    return [t_gc(True), t_gc(False)] + [t_ref(a, b) for a in ("incRef", "decRef") for b in ("table", "numbers")]
