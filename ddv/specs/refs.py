"""C06: reference counts of nodes and of their weights (incRef and decRef, proved against their own contract).

Ghost state: the set ACC of referenced nodes; EXT / WEXT: outstanding acquisitions of a node / a weight;
CNT / WCNT: number of edges of referenced nodes that lead to a node / carry a weight (a function of ACC and of the
contents of the nodes: taking a node into ACC adds its edges, removing it takes them away again)."""
from ..lib import *
from ..symex import Unsupported, bv, Ptr
from .. import ir
from ..ddm import DD, PKG, NODE, CPP, VOFF, NSUCC, ESZ
from .unique import UT, FA, REFOFF

P = BitVecSort(64)
VAL = Function("value", BitVecSort(32), IntSort())          # the unsigned value of a count
n, m = BitVec("n", 64), BitVec("w", 64)
MAX = BitVecVal(0xffffffff, 32)
GH = ("ACC", "EXT", "CNT", "WEXT", "WCNT")

class Refs:
    def __init__(self, ctx, st, kind, up):
        self.ctx, self.ex, self.k, self.up = ctx, ctx.ex, kind, up
        self.t = t = UT(ctx, st, kind)
        term = [a for a, d in ctx.mod.dem.items() if d == CPP[kind] + "::terminalNode" and a in ctx.mod.globals][0]
        self.term = B(ctx.ex.gaddr(term))
        self.static = lambda q: Or(*[q == B(g) for g in (ctx.zero(), ctx.one(), ctx.sq())], q == 0)
        self.L = t.L(st)
        self.lv = lambda q: self.L[q]
        for g in GH: st.ghost[g] = Array(g.lower(), P, BoolSort() if g == "ACC" else IntSort())
        self.defs = {}
        self.R0, self.W0 = self.R(st), self.W(st)
    def R(self, st): return self.t.R(st)
    def W(self, st): return self.ctx.region(st, RREG)
    def succ(self, st, p, j): return tuple(self.ctx.region(st, (NODE[self.k], ESZ * j + o, (), "p"))[p] for o in (0, 8, 16))
    def inner(self, p): return And(p != 0, p != self.term)
    # ---- invariant
    def nodes(self, st, lev=None):
        """counts of the nodes up to a level"""
        R, g = self.R(st), st.ghost; dom = And(n != 0, n != self.term) if lev is None else And(n != 0, n != self.term, self.lv(n) <= lev)
        return [("count", FA([n], Implies(dom, Or(R[n] == MAX, VAL(R[n]) == g["EXT"][n] + g["CNT"][n])), [R[n]])),
                ("referenced", FA([n], Implies(dom, g["ACC"][n] == (R[n] != 0)), [R[n]]))]
    def weights(self, st):
        W, g = self.W(st), st.ghost
        return [("weight-count", FA([m], Or(self.static(m), W[m] == MAX, VAL(W[m]) == g["WEXT"][m] + g["WCNT"][m]), [W[m]]))]
    def range(self, *arrays): return [FA([n], a[n] >= 0, [a[n]]) for a in arrays]          # numbers of things
    def step(self, st, x):
        """instances of the laws of unsigned values"""
        st.assume([VAL(x) >= 0, (VAL(x) == 0) == (x == 0), Implies(x != MAX, VAL(x + 1) == VAL(x) + 1), Implies(x != 0, VAL(x - 1) == VAL(x) - 1)])
    # ---- ghost updates
    def bump(self, st, a, q, d, cond=BoolVal(True)):
        """the array with one more (or less) at q"""
        b = self.ex.fresh("n", a.sort()); ax = FA([n], b[n] == a[n] + If(And(cond, n == q), IntVal(d), IntVal(0)), [b[n]]); st.assume(ax)
        self.defs[b.get_id()] = (b, ax); return b
    def acquire(self, st, g, e, d):
        """the user acquires (or releases) an edge"""
        g["EXT"] = self.bump(st, g["EXT"], e[0], d, self.inner(e[0]))
        for w in e[1:]: g["WEXT"] = self.bump(st, g["WEXT"], strip(w), d)
    def edges(self, st, p, d):
        """the edges of p now are (d = 1) or no longer are (d = -1) edges of a referenced node, instead of acquired ones"""
        g = st.ghost; ctx = self.ctx
        def move(to, frm, q, cond=BoolVal(True)):
            """one edge moves from one account to the other: the sum stays"""
            a, b = g[to], g[frm]
            g[to], g[frm] = self.bump(st, a, q, d, cond), self.bump(st, b, q, -d, cond)
            ctx.lemma(st, "sum-kept", FA([n], g[to][n] + g[frm][n] == a[n] + b[n], [g[to][n]]), using=[self.defs[g[x].get_id()][1] for x in (to, frm)])
        for j in range(NSUCC[self.k]):
            c = self.succ(st, p, j)
            move("CNT", "EXT", c[0], self.inner(c[0]))
            for w in c[1:]: move("WCNT", "WEXT", strip(w))
        g["ACC"] = Store(g["ACC"], p, BoolVal(d > 0))
    def owned(self, g, e):
        """the user holds the edge"""
        r, i = strip(e[1]), strip(e[2]); W = g["WEXT"]
        return And(Implies(self.inner(e[0]), g["EXT"][e[0]] >= 1), Or(self.static(r), W[r] >= 1), Or(self.static(i), W[i] >= 1), Implies(And(r == i, Not(self.static(r))), W[r] >= 2))
    # ---- contracts
    def numbers(self, st, args):
        """ComplexNumbers::incRef / decRef (proved under C03): (new counts, error)"""
        ex = self.ex; c = ex.asptr(args[0]); W = self.W(st); err = []
        for o in (0, 8):
            q = strip(bv(ex.pbv(ex.load(st, Ptr(c.base, c.rt, c.off + o, c.sym), PTR)), 64))
            err.append(And(Not(self.static(q)), W[q] == 0)); self.step(st, W[q])
            W = If(Or(self.static(q), W[q] == MAX), W, Store(W, q, W[q] + 1 if self.up else W[q] - 1))
        return W, Or(*err)
    def install(self, st):
        ex = self.ex; op = "incRef" if self.up else "decRef"
        def num(ex_, s, a, i):
            W, err = self.numbers(s, a)
            if not self.up: self.ctx.oblige(s, "weight-release-accepted", Not(err)) if not getattr(self, "mayfail", False) else s.assume(Not(err))
            s.heap[RREG] = W; s.wlog.add(("h", RREG)); return ("val", None)
        def rec(ex_, s, a, i):
            c = ex.asptr(a[1]); e = tuple(bv(ex.pbv(ex.load(s, Ptr(c.base, c.rt, c.off + o, c.sym), PTR)), 64) for o in (0, 8, 16))
            self.call(s, e); return ("val", None)
        ex.contracts += [(lambda d: d.startswith("dd::ComplexNumbers::" + op + "("), num), (lambda d: d.startswith(self.t.cpp + op + "("), rec)]
    def call(self, s, e):
        """the contract of incRef / decRef itself, for a smaller diagram"""
        ctx, ex, g = self.ctx, self.ex, s.ghost
        lev = self.lv(e[0])
        ctx.oblige(s, "smaller", Implies(self.inner(e[0]), lev < self.lev))
        for nm, f in self.nodes(s, lev): ctx.oblige(s, "callee-" + nm, Implies(self.inner(e[0]), f))
        for nm, f in self.weights(s): ctx.oblige(s, "callee-" + nm, f)
        if not self.up: ctx.oblige(s, "callee-owned", self.owned(g, e))
        R0, A0, C0 = self.R(s), g["ACC"], g["CNT"]
        fr = lambda nm, a: ex.fresh(nm, a.sort())
        R1, W1 = fr("ref", R0), fr("wref", self.W(s))
        s.heap[self.t.rreg] = R1; s.heap[RREG] = W1; s.wlog |= {("h", self.t.rreg), ("h", RREG)}
        for x in ("ACC", "CNT", "WCNT"): g[x] = fr(x.lower(), g[x])
        self.acquire(s, g, e, 1 if self.up else -1)
        s.wlog |= {("g", x) for x in GH}
        above = lambda q: Or(Not(self.inner(e[0])), self.lv(q) > lev)
        s.assume([FA([n], Implies(above(n), And(R1[n] == R0[n], g["ACC"][n] == A0[n], g["CNT"][n] == C0[n])), [R1[n]])] + [Implies(self.inner(e[0]), f) for _, f in self.nodes(s, lev)] + [f for _, f in self.weights(s)])
        s.assume(self.range(g["CNT"], g["WCNT"]) + (self.range(g["EXT"], g["WEXT"]) if self.up else []))

def t_ref(kind, up, case):
    """case: first / again (acquire), last / other / none (release)"""
    def run(ctx):
        st = ctx.state(); r = Refs(ctx, st, kind, up); t = r.t; ex = ctx.ex; ex.defs["feas_ground"] = True
        fn = t.fn(("incRef" if up else "decRef") + "("); ctx.loc = fn.dem; fn.parse()
        p, wr, wi = BitVecs("e.p e.r e.i", 64); E = (p, wr, wi); g = st.ghost; R0 = r.R0
        edge = [x for x in ctx.mod.typesrc if x.startswith("struct.dd::Edge")][0]
        pe = ctx.obj(st, "e", edge, False)
        for off, x in ((0, p), (8, wr), (16, wi)): ctx.setcell(st, pe, off, PTR, x)
        r.lev = r.lv(p); lev = r.lev
        for w in (wr, wi): st.assume(strip(w) != 0)
        act = BitVec("active", 64); st.assume([UGT(act, B(1 << 32)), ULT(act, B(1 << 60))])
        ctx.setcell(st, t.obj, t.o["active"], PTR, act)
        # successors: nodes of lower levels or the terminal
        kids = [r.succ(st, p, j) for j in range(NSUCC[kind])]
        st.assume([Implies(p != 0, Extract(2, 0, p) == 0), lev >= 0, *[Implies(r.inner(c[0]), And(r.lv(c[0]) < lev, r.lv(c[0]) >= 0)) for c in kids], *[strip(w) != 0 for c in kids for w in c[1:]], *[Implies(c[0] != 0, Extract(2, 0, c[0]) == 0) for c in kids], *[c[0] != 0 for c in kids]])
        st.assume([f for _, f in r.nodes(st, lev)] + [f for _, f in r.weights(st)] + r.range(*[g[x] for x in GH[1:]]))
        inner = r.inner(p)
        st.assume({"first": And(inner, R0[p] == 0), "again": Or(Not(inner), R0[p] != 0), "last": And(inner, R0[p] == 1), "other": Or(Not(inner), UGT(R0[p], 1)), "none": And(inner, R0[p] == 0)}[case])
        if not up and case != "none": st.assume(r.owned(g, E))
        r.mayfail = case == "none"
        old = dict(g); A0, W0 = g["ACC"], r.W0
        want = dict(g); r.acquire(st, want, E, 1 if up else -1); r.step(st, R0[p])
        if case == "last":
            r.acquire(st, g, E, -1); r.edges(st, p, -1); st.assume(r.range(*[g[x] for x in GH[1:]]))
        elif case == "first": r.acquire(st, g, E, 1); st.assume(r.range(g["EXT"], g["WEXT"]))
        else: r.acquire(st, g, E, 1 if up else -1)
        r.install(st)
        C0 = t.contents(st)
        ctx.reach(st, "counts")
        for o in ctx.call(st, fn, [t.obj, pe]):
            s = o.state
            if case == "none": ctx.oblige(s, "error", BoolVal(o.kind == "throw")); ctx.oblige(s, "counts-of-nodes-unchanged", r.R(s) == R0); continue
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            if case == "first": r.edges(s, p, 1); s.assume(r.range(s.ghost["CNT"], s.ghost["WCNT"]))
            G = s.ghost; R1 = r.R(s)
            for x in ("EXT", "WEXT"): ctx.oblige(s, "acquisitions" if x == "EXT" else "weight-acquisitions", ForAll([n], G[x][n] == want[x][n]))
            for nm, f in r.nodes(s, lev): ctx.oblige(s, nm, Implies(inner, f))
            for nm, f in r.weights(s): ctx.oblige(s, nm, f)
            ctx.oblige(s, "others-unchanged", ForAll([n], Implies(Or(Not(inner), r.lv(n) > lev), And(R1[n] == R0[n], G["ACC"][n] == A0[n], G["CNT"][n] == old["CNT"][n]))))
            ctx.oblige(s, "diagram-unchanged", And(t.N(s) == t.N(st), t.T(s) == t.T(st), *[a == b for a, b in zip(t.contents(s), C0)]))
    T = Task("UniqueTable<%sNode>::%s.%s" % (kind, "incRef" if up else "decRef", case), "", run, merge=False, timeout=20000, budget=400); T.cost = 20; T.par = 2
    return T

def t_forward(kind, up):
    """acquiring and releasing through the package"""
    def run(ctx):
        D = DD(ctx); ex = ctx.ex; st = D.state(); op = "incRef" if up else "decRef"
        fn = ctx.fn(lambda d: d.startswith("void " + PKG + op + "<" + CPP[kind] + ">(")); ctx.loc = fn.dem
        edge = [x for x in ctx.mod.typesrc if x.startswith("struct.dd::Edge")][0]
        pe = ctx.obj(st, "e", edge, False); v = BitVecs("e.p e.r e.i", 64)
        for off, x in zip((0, 8, 16), v): ctx.setcell(st, pe, off, PTR, x)
        st.ghost["calls"] = ()
        def h(which):
            def f(ex_, s, a, i):
                c = ex.asptr(a[1]); w = tuple(bv(ex.pbv(ex.load(s, Ptr(c.base, c.rt, c.off + o, c.sym), PTR)), 64) for o in (0, 8, 16))
                s.ghost["calls"] = s.ghost["calls"] + ((which, D.this_member(a[0]), w),); return ("val", None)
            return f
        for w in ("incRef", "decRef"): ex.contracts.append((lambda d, w=w: d.startswith("dd::UniqueTable<") and ("::" + w + "(") in d, h(w)))
        ctx.reach(st, "edge")
        for o in ctx.call(st, fn, [D.pkg, pe]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            c = o.state.ghost["calls"]
            ctx.oblige(o.state, "exactly-once", And(BoolVal(len(c) == 1 and c[0][:2] == (op, kind + "UniqueTable")), *[a == b for a, b in zip(c[0][2], v)]) if c else BoolVal(False))
    T = Task("Package::%s<%sNode>" % ("incRef" if up else "decRef", kind), "", run, merge=False, budget=60); T.cost = 2
    return T

def t_reach(kind):
    """what an acquired node leads to is referenced"""
    def run(ctx):
        st = ctx.state(); r = Refs(ctx, st, kind, True); g = st.ghost; p, q = BitVecs("p q", 64)
        st.assume([f for _, f in r.nodes(st)] + r.range(*[g[x] for x in GH[1:]]))
        for x in (p, q): r.step(st, r.R0[x])
        st.assume([r.inner(p), r.inner(q)])
        ctx.reach(st, "counts")
        ctx.lemma(st, "acquired-is-referenced", Implies(g["EXT"][p] >= 1, g["ACC"][p]))
        # an edge of a referenced node to q is among the counted edges
        ctx.lemma(st, "successor-is-referenced", Implies(And(g["ACC"][p], Or(*[r.succ(st, p, j)[0] == q for j in range(NSUCC[kind])]), g["CNT"][q] >= 1), And(g["ACC"][q], r.R0[q] != 0)))
    T = Task("reachable nodes are referenced (%sNode)" % kind, "", run, merge=False, budget=60); T.cost = 1
    return T

def tasks(mod):
    return [t_forward(kk, up) for kk in "vmd" for up in (True, False)] + [t_reach(kk) for kk in "vmd"] + [t_ref(kk, up, c) for kk in "vmd" for up, cs in ((True, ("first", "again")), (False, ("last", "other", "none"))) for c in cs]
