"""C05, C07: the unique tables of nodes: storing, sharing, handing out, collecting."""
from ..lib import *
from ..chunks import *
from ..symex import LoopSpec, Inv
from .. import ir
from ..ddm import NODE, CPP, VOFF, FOFF, NSUCC, ESZ
from .numtable import ptrcells, cellv

NB = 32768
P = BitVecSort(64)
I8 = ir.INT(8)
SIZE = {"v": 64, "m": 112, "d": 112}
NEXTOFF = {"v": 48, "m": 96, "d": 96}
REFOFF = {"v": 56, "m": 104, "d": 104}
# ghost: role of an address (0 unknown, 1 stored, 2 free, 3 handed out and in use), bucket and rank of a stored node
ROLE = Array("role", P, IntSort()); BK = Array("bucket", P, P); POS = Array("rank", P, IntSort()); PREV = Array("prevfree", P, P)
H = Function("hash", P, P)                  # of the contents of a node
EQ = Function("same", P, P, BoolSort())     # contents compare equal
e, f, k = BitVec("e", 64), BitVec("f", 64), BitVec("k", 64)
lq = BitVec("l", 64)
DEF = {}
def FA(vs, body, pats=None):
    if pats and all(is_select(p) and is_const(p.arg(0)) for p in pats):
        return ForAll(vs, body, patterns=[MultiPattern(*pats)] if len(pats) > 1 else pats)
    return ForAll(vs, body)

class UT:
    def __init__(self, ctx, st, kind, symbolic=True):
        self.ctx, self.ex, self.k = ctx, ctx.ex, kind
        self.cpp = "dd::UniqueTable<%s, %dul, 2048ul, 2ul, 131072ul>::" % (CPP[kind], NB)
        cls = "UniqueTable<%s, %dUL, 2048UL, 2UL, 131072UL>" % (CPP[kind], NB)
        fn = ctx.fn(self.cpp + "getNode()"); fn.parse()
        self.ty = [i.a["st"].a for b in fn.blocks for i in b.ins if i.op == "getelementptr" and i.a["st"].k == "named" and i.a["st"].a.startswith("class.dd::UniqueTable")][0]
        self.obj = ctx.obj(st, "tab", self.ty, symbolic)
        self.size = SIZE[kind]
        self.ch = Chunks(ctx, self.obj, cls, self.size, CPP[kind], DEF)
        self.ch.off = self.o = dict(self.ch.extra)
        n = NODE[kind]
        self.nreg, self.rreg, self.lreg = (n, NEXTOFF[kind], (), "p"), (n, REFOFF[kind], (), "i32"), (n, VOFF[kind], (), "i8")
        self.content = [(n, ESZ * j + o, (), "p") for j in range(NSUCC[kind]) for o in (0, 8, 16)] + ([(n, FOFF[kind], (), "i8")] if kind in FOFF else [])
        rows = [t for t in ctx.mod.typesrc if t.startswith("struct.std::array") and self.isrow(t)]
        want = "struct.std::_Vector_base<std::array<%s *, %d>, std::allocator<std::array<%s *, %d>>>::_Vector_impl_data" % (CPP[kind], NB, CPP[kind], NB)
        self.row = self.rowtype()
        self.treg = (self.ex.canon(self.row), 0, (8,), "p")
        self.begin = BitVec("tables", 64); self.n = BitVec("nvars", 64)
    def rowtype(self):
        """the element type of the table of levels"""
        d = "std::vector<std::array<%s*, %dul>, std::allocator<std::array<%s*, %dul> > >::operator[](unsigned long)" % (CPP[self.k], NB, CPP[self.k], NB)
        fn = self.ctx.fn(d); fn.parse()
        ts = [i.a["st"].a for b in fn.blocks for i in b.ins if i.op == "getelementptr" and i.a["st"].k == "named" and self.isrow(i.a["st"].a)]
        if len(set(ts)) != 1: raise Unsupported("element type of the node tables")
        return ts[0]
    def isrow(self, t):
        mod = self.ctx.mod
        try:
            r = mod.resolve(mod.named(t)); a = r.a[0]
            return len(r.a) == 1 and a.k == "arr" and a.a == NB and a.b.k == "ptr"
        except Exception: return False
    def fn(self, m): return self.ctx.fn(lambda d: d.startswith(self.cpp + m))
    def N(self, st): return self.ctx.region(st, self.nreg)
    def R(self, st): return self.ctx.region(st, self.rreg)
    def L(self, st): return self.ctx.region(st, self.lreg)
    def T(self, st): return self.ctx.region(st, self.treg)
    ROWS = None
    def rowaddr(self, r): return self.begin + r * (8 * NB) if self.ROWS is None else self.ROWS(r)
    def rowof(self, v): return self.rowaddr(SignExt(56, v))
    def head(self, T, v, kk): return Select(T, self.rowof(v), kk)
    def contents(self, st): return [self.ctx.region(st, c) for c in self.content] + [self.L(st)]
    # ---- invariant
    def lists(self, st, role, bk, pos, T=None, N=None):
        T = self.T(st) if T is None else T; N = self.N(st) if N is None else N; L = self.L(st)
        hd = lambda p: self.head(T, L[p], bk[p])
        same = lambda p, q: And(L[p] == L[q], bk[p] == bk[q])
        lvl = lambda v: And(v >= 0, ULT(SignExt(56, v), self.n))
        return [("place", FA([e], Implies(role[e] == 1, And(lvl(L[e]), ULT(bk[e], NB), bk[e] == H(e))), [role[e]])),
                ("head", ForAll([lq, k], Implies(And(ULT(lq, self.n), ULT(k, NB), Select(T, self.rowaddr(lq), k) != 0), And(role[Select(T, self.rowaddr(lq), k)] == 1, SignExt(56, L[Select(T, self.rowaddr(lq), k)]) == lq, bk[Select(T, self.rowaddr(lq), k)] == k)))),
                ("first", FA([e], Implies(role[e] == 1, And(hd(e) != 0, pos[e] <= pos[hd(e)])), [role[e]])),
                ("order", FA([e], Implies(And(role[e] == 1, N[e] != 0), And(role[N[e]] == 1, same(N[e], e), pos[N[e]] < pos[e])), [role[e]])),
                ("adjacent", FA([e, f], Implies(And(role[e] == 1, role[f] == 1, same(e, f), pos[f] < pos[e]), And(N[e] != 0, pos[f] <= pos[N[e]])), [role[e], role[f]])),
                ("rank", FA([e, f], Implies(And(role[e] == 1, role[f] == 1, same(e, f), pos[e] == pos[f]), e == f), [role[e], role[f]]))]
    def distinct(self, st, role, bk):
        L = self.L(st)
        return [("no-two-equal", FA([e, f], Implies(And(role[e] == 1, role[f] == 1, L[e] == L[f], bk[e] == bk[f], EQ(e, f)), e == f), [role[e], role[f]]))]
    def pool(self, st, role, prev, goal=False):
        A = self.ch.get(st, "available"); N = self.N(st)
        it, end = self.ch.get(st, "chunkIt"), self.ch.get(st, "chunkEndIt"); R = self.R(st); s = self.size
        return [("free-head", Or(A == 0, And(role[A] == 2, prev[A] == 0))),
                ("free-next", FA([e], Implies(role[e] == 2, Or(N[e] == 0, And(role[N[e]] == 2, prev[N[e]] == e))), [role[e]])),
                ("nodes", FA([e], Implies(role[e] != 0, And(Extract(2, 0, e) == 0, UGT(e, B(1 << 32)), ULT(e, B(1 << 62)), role[e] >= 1, role[e] <= 3)), [role[e]])),
                ("disjoint", FA([e, f], Implies(And(role[e] != 0, role[f] != 0, e != f), Or(ULE(e + s, f), ULE(f + s, e))), [role[e], role[f]])),
                ("unhanded", FA([e], Implies(role[e] != 0, Or(ULE(e + s, it), UGE(e, end))), [role[e]])),
                ("unhanded-unreferenced", ForAll([e], Implies(And(ULE(it, e), ULT(e, end)), R[e] == 0)))] + self.ch.wf(st, 1, goal)
    def inv(self, st, role=ROLE, bk=BK, pos=POS, prev=PREV, goal=False):
        return self.lists(st, role, bk, pos) + self.distinct(st, role, bk) + self.pool(st, role, prev, goal)
    def setup(self, st, inv=True):
        ctx, ex = self.ctx, self.ex
        ctx.ex.defs["feas_ground"] = True
        st.assume([UGT(self.begin, B(1 << 32)), ULT(self.begin, B(1 << 60)), Extract(2, 0, self.begin) == 0, ULE(self.n, 128)])
        for off, v in ((0, self.rowaddr(B(0)) if self.ROWS is not None else self.begin), (8, self.rowaddr(self.n)), (16, self.rowaddr(self.n))): ctx.setcell(st, self.obj, self.o["tables"] + off, PTR, v)
        ctx.setcell(st, self.obj, self.o["nvars"], ir.INT(64), self.n)
        if inv: st.assume([g for _, g in self.inv(st)])
        def alloc(ex_, s, b, en, n):
            s.assume(ForAll([e], Implies(ROLE[e] != 0, Or(ULE(e + self.size, b), UGE(e, en))), patterns=[ROLE[e]]))
            R0 = self.R(s); s.assume(ForAll([e], Implies(And(ULE(b, e), ULT(e, en)), R0[e] == 0)))        # value-initialised
        self.ch.onalloc.append(alloc)
        ex.contracts.append((is_emplace(CPP[self.k]), self.ch.emplace()))
        ex.contracts.append((lambda d: "::pop_back()" in d and ("std::vector<std::vector<" + CPP[self.k]) in d, self.popback()))
    def popback(self):
        def h(ex, st, args, i):
            ex.store(st, Ptr(self.obj.base, self.obj.rt, self.o["chunks"] + 8), PTR, self.ch.finish(st) - 24); return ("val", None)
        return h
    def contracts(self):
        """contracts of hash and nodesAreEqual (proved below)"""
        ex = self.ex
        def hh(ex_, st, args, i):
            p = bv(ex_.pbv(args[0]), 64); st.assume(ULT(H(p), NB)); return ("val", H(p))
        def eq(ex_, st, args, i): return ("val", EQ(bv(ex_.pbv(args[0]), 64), bv(ex_.pbv(args[1]), 64)))
        ex.contracts += [(lambda d: d.startswith(self.cpp + "hash("), hh), (lambda d: d.startswith(self.cpp + "nodesAreEqual("), eq)]
        ex.axioms += [ForAll([e], EQ(e, e), patterns=[EQ(e, e)]), ForAll([e, f], EQ(e, f) == EQ(f, e), patterns=[EQ(e, f)])]

def search_loop(t, N, v, key):
    """walking a bucket: nothing before the current node equals the requested one"""
    def spec(ex, st, fn, h, body):
        if ".dem" and "searchTable" not in fn.dem and "lookup" not in fn.dem: return None
        def cands(ex_, s0):
            T0, L0, N0 = t.T(s0), t.L(s0), t.N(s0); out = []
            inb = lambda q: And(ROLE[q] == 1, L0[q] == v, BK[q] == key)
            for c in ptrcells(s0):
                x = cellv(s0, c)
                if not ex_.must(s0, x == t.head(T0, v, key), 500): continue
                w = lambda s, c=c: cellv(s, c)
                out.append(Inv("in-bucket", lambda s, w=w: Or(w(s) == 0, inb(w(s)))))
                out.append(Inv("none-before", lambda s, w=w: ForAll([e], Implies(And(inb(e), Or(w(s) == 0, POS[e] > POS[w(s)])), Not(EQ(N, e))), patterns=[ROLE[e]])))
            return out
        return LoopSpec("bucket-walk", cands)
    return spec

def t_lookup(kind, stored):
    def run(ctx):
        st = ctx.state(); t = UT(ctx, st, kind); t.setup(st); t.contracts()
        fn = t.fn("lookup("); ctx.loc = fn.dem; ex = ctx.ex
        N, wr, wi, keep = BitVec("node", 64), BitVec("w.r", 64), BitVec("w.i", 64), Bool("keepNode")
        term = [n for n, d in ctx.mod.dem.items() if d == CPP[kind] + "::terminalNode" and n in ctx.mod.globals][0]
        edge = [x for x in ctx.mod.typesrc if x.startswith("struct.dd::Edge")][0]
        pe = ctx.obj(st, "e", edge, False); out = ctx.obj(st, "out", edge, False)
        for off, x in ((0, N), (8, wr), (16, wi)): ctx.setcell(st, pe, off, PTR, x)
        L0, R0 = t.L(st), t.R(st); v = L0[N]; key = H(N)
        st.assume([N != B(ex.gaddr(term)), ROLE[N] == (1 if stored else 3), v >= 0, ULT(SignExt(56, v), t.n), ULT(key, NB), ROLE[B(ex.gaddr(term))] == 0])
        n0, p0 = t.ch.geti(st, "nodeCount"), t.ch.geti(st, "peakNodeCount")
        N0, T0, A0, C0 = t.N(st), t.T(st), t.ch.get(st, "available"), t.contents(st)
        ex.loopspec = search_loop(t, N, v, key)
        zero_edge(ctx, st, kind, ex.gaddr(term))
        inb = lambda q: And(ROLE[q] == 1, L0[q] == v, BK[q] == key)
        ctx.reach(st, "invariant")
        for o in ctx.call(st, fn, [out, t.obj, pe, keep]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            r, r1, r2 = (bv(ex.pbv(ctx.cell(s, out, off, PTR)), 64) for off in (0, 8, 16))
            ctx.oblige(s, "weight-kept", And(r1 == wr, r2 == wi))
            ctx.oblige(s, "contents-unchanged", And(*[a == b for a, b in zip(t.contents(s), C0)], t.R(s) == R0))
            ctx.oblige(s, "stored-and-equal", Or(r == N, And(ROLE[r] == 1, L0[r] == v, EQ(N, r))))
            # if an equal node is stored, no second one is added: a stored node is returned (the requested one itself when it is stored)
            if stored: ctx.oblige(s, "stored-node-is-itself", r == N)
            else: ctx.oblige(s, "equal-node-is-shared", ForAll([e], Implies(And(inb(e), EQ(N, e)), ROLE[r] == 1), patterns=[ROLE[e]]))
            n1 = t.ch.geti(s, "nodeCount")
            if s.heap.get(t.treg) is not None and t.T(s).eq(T0):
                ctx.oblige(s, "found", ROLE[r] == 1); ctx.oblige(s, "count", n1 == n0)
                if t.N(s).eq(N0) and t.ch.get(s, "available").eq(A0):
                    ctx.oblige(s, "node-kept", Or(keep, r == N)); continue
                # the given node went back to the pool
                ctx.oblige(s, "node-returned", And(Not(keep), r != N, ROLE[N] == 3, t.ch.get(s, "available") == N))
                role = Store(ROLE, N, IntVal(2)); prev = Store(Store(PREV, A0, N), N, B(0))
                for nm, g in t.inv(s, role, BK, POS, prev, True): ctx.oblige(s, "inv-" + nm, g)
                continue
            ctx.oblige(s, "new", And(r == N, ROLE[N] == 3, n1 == n0 + 1, UGE(t.ch.geti(s, "peakNodeCount"), n1), t.ch.get(s, "available") == A0))
            absent = ctx.lemma(s, "new-only-if-absent", ForAll([e], Implies(inb(e), Not(EQ(N, e))), patterns=[ROLE[e]]))
            old = t.head(T0, v, key)
            role = Store(ROLE, N, IntVal(1)); bk = Store(BK, N, key); pos = Store(POS, N, If(old == 0, IntVal(0), POS[old] + 1))
            for nm, g in t.inv(s, role, bk, pos, PREV, True): ctx.oblige(s, "inv-" + nm, g)
    T = Task("UniqueTable<%sNode>::lookup.%s" % (kind, "stored" if stored else "new"), "", run, merge=False, timeout=30000, budget=400); T.cost = 20; T.par = 4
    return T

def zero_edge(ctx, st, kind, term):
    ex = ctx.ex
    for n, d in ctx.mod.dem.items():
        if n in ctx.mod.globals and d == "dd::Edge<%s>::zero" % CPP[kind]:
            g = ex.global_init(n); rt = ex.canon(ex.rootname(g[1]))
            for off, v in ((0, term), (8, ctx.zero()), (16, ctx.zero())):
                key = (rt, off, (), "p"); st.heap[key] = Store(ctx.region(st, key), BitVecVal(ex.gaddr(n), 64), BitVecVal(v, 64))

def t_getnode(kind):
    def run(ctx):
        st = ctx.state(); t = UT(ctx, st, kind); t.setup(st); fn = t.fn("getNode("); ctx.loc = fn.dem
        n0 = t.ch.geti(st, "nodeCount"); N0, T0, C0 = t.N(st), t.T(st), t.contents(st); R0 = t.R(st)
        ctx.reach(st, "invariant")
        for o in ctx.call(st, fn, [t.obj]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            r = bv(ctx.ex.pbv(o.ret), 64); A1 = t.ch.get(s, "available")
            role = Store(ROLE, r, IntVal(3)); prev = If(A1 == 0, PREV, Store(PREV, A1, B(0)))
            ctx.oblige(s, "neither-stored-nor-in-use", And(ROLE[r] != 1, ROLE[r] != 3))
            ctx.oblige(s, "count-zero", t.R(s)[r] == 0)
            ctx.oblige(s, "others-unchanged", And(t.T(s) == T0, t.N(s) == N0, *[a == b for a, b in zip(t.contents(s), C0)], t.ch.geti(s, "nodeCount") == n0, ForAll([e], Implies(And(ROLE[e] != 0, e != r), t.R(s)[e] == R0[e]))))
            for nm, g in t.inv(s, role, BK, POS, prev, True): ctx.oblige(s, "inv-" + nm, g)
    T = Task("UniqueTable<%sNode>::getNode" % kind, "", run, merge=False, timeout=30000, budget=400); T.cost = 10; T.par = 3
    return T

def t_returnnode(kind):
    def run(ctx):
        st = ctx.state(); t = UT(ctx, st, kind); t.setup(st); fn = t.fn("returnNode("); ctx.loc = fn.dem
        p = BitVec("node", 64); st.assume(ROLE[p] == 3); A0 = t.ch.get(st, "available"); R0, T0, C0, N0 = t.R(st), t.T(st), t.contents(st), t.N(st); n0 = t.ch.geti(st, "nodeCount")
        ctx.reach(st, "invariant")
        for o in ctx.call(st, fn, [t.obj, p]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            role = Store(ROLE, p, IntVal(2)); prev = Store(Store(PREV, A0, p), p, B(0))
            ctx.oblige(s, "available-again", t.ch.get(s, "available") == p)
            ctx.oblige(s, "others-unchanged", And(t.T(s) == T0, t.R(s) == R0, *[a == b for a, b in zip(t.contents(s), C0)], t.ch.geti(s, "nodeCount") == n0))
            for nm, g in t.inv(s, role, BK, POS, prev, True): ctx.oblige(s, "inv-" + nm, g)
    T = Task("UniqueTable<%sNode>::returnNode" % kind, "", run, merge=False, timeout=30000, budget=300); T.cost = 5; T.par = 2
    return T

def t_terminal(kind):
    """the terminal is never stored"""
    def run(ctx):
        st = ctx.state(); t = UT(ctx, st, kind); t.setup(st); t.contracts()
        fn = t.fn("lookup("); ctx.loc = fn.dem; ex = ctx.ex
        wr, wi, keep = BitVec("w.r", 64), BitVec("w.i", 64), Bool("keepNode")
        term = [n for n, d in ctx.mod.dem.items() if d == CPP[kind] + "::terminalNode" and n in ctx.mod.globals][0]; N = B(ex.gaddr(term))
        edge = [x for x in ctx.mod.typesrc if x.startswith("struct.dd::Edge")][0]
        pe = ctx.obj(st, "e", edge, False); out = ctx.obj(st, "out", edge, False)
        for off, x in ((0, N), (8, wr), (16, wi)): ctx.setcell(st, pe, off, PTR, x)
        before = [t.N(st), t.T(st), t.R(st)] + t.contents(st); n0 = t.ch.geti(st, "nodeCount"); A0 = t.ch.get(st, "available")
        ctx.reach(st, "invariant")
        for o in ctx.call(st, fn, [out, t.obj, pe, keep]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            ctx.oblige(s, "same-edge", And(*[bv(ex.pbv(ctx.cell(s, out, off, PTR)), 64) == x for off, x in ((0, N), (8, wr), (16, wi))]))
            ctx.oblige(s, "nothing-stored", And(*[a == b for a, b in zip([t.N(s), t.T(s), t.R(s)] + t.contents(s), before)], t.ch.geti(s, "nodeCount") == n0, t.ch.get(s, "available") == A0))
    T = Task("UniqueTable<%sNode>::lookup.terminal" % kind, "", run, merge=False, budget=60); T.cost = 2
    return T

def t_equal(kind):
    """two nodes are equal exactly if their successors are: same nodes, equal weights (and the same flags)"""
    def run(ctx):
        st = ctx.state(); t = UT(ctx, st, kind, False); ex = ctx.ex
        fn = t.fn("nodesAreEqual("); ctx.loc = fn.dem; fn.parse()
        tol = Real("tol"); ctx.settol(st, tol); st.assume(tol >= 0)
        within = lambda x, y: And(x - y <= tol, y - x <= tol)
        def weq(ex_, s, a, i):
            g = lambda p: [ctx.val(s, bv(ex.pbv(ex.load(s, Ptr(p.base, p.rt, p.off + o, p.sym), PTR)), 64)) for o in (0, 8)]
            x, y = g(ex.asptr(a[0])), g(ex.asptr(a[1])); return ("val", And(*[within(u_, v_) for u_, v_ in zip(x, y)]))
        ex.contracts.append(("dd::Complex::approximatelyEquals(dd::Complex const&) const", weq))      # proved under C01 and C09
        p, q = BitVec("p", 64), BitVec("q", 64)
        for x in (p, q): st.assume([Extract(2, 0, x) == 0, UGT(x, B(1 << 32)), ULT(x, B(1 << 62))])
        n = NODE[kind]; at = lambda x, off: ctx.region(st, (n, off, (), "p"))[x]
        def same(a, b):
            c = [And(at(a, ESZ * m) == at(b, ESZ * m), *[within(ctx.val(st, at(a, ESZ * m + o)), ctx.val(st, at(b, ESZ * m + o))) for o in (8, 16)]) for m in range(NSUCC[kind])]
            if kind == "d": fl = ctx.region(st, (n, FOFF[kind], (), "i8")); c.append(fl[a] == fl[b])
            return And(*c)
        ctx.reach(st, "nodes")
        for a, b, nm in ((p, q, "two"), (p, p, "itself")):
            for o in ctx.call(st.clone() if hasattr(st, "clone") else st, fn, [a, b]):
                s = o.state
                if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
                ctx.oblige(s, "equal-iff-same-successors." + nm, bl(o.ret) == same(a, b))
                if nm == "itself": ctx.oblige(s, "reflexive", bl(o.ret))
        ctx.lemma(st, "symmetric", same(p, q) == same(q, p))
    T = Task("UniqueTable<%sNode>::nodesAreEqual" % kind, "", run, merge=False, budget=120); T.cost = 3
    return T

def t_hash(kind):
    """the bucket is in range and the same for nodes with the same contents"""
    def run(ctx):
        st = ctx.state(); t = UT(ctx, st, kind, False); ex = ctx.ex
        fn = t.fn("hash("); ctx.loc = fn.dem; fn.parse()
        p, q = BitVec("p", 64), BitVec("q", 64)
        for x in (p, q): st.assume([Extract(2, 0, x) == 0, UGT(x, B(1 << 32)), ULT(x, B(1 << 62))])
        n = NODE[kind]
        def on_load(ex_, s, key, idx, base):
            """both nodes hold the same contents"""
            if key[0] == n and (key in t.content or key == t.lreg) and (idx[0].eq(p) or idx[0].eq(q)): return BitVec("content%d" % key[1], 64 if key[3] == "p" else 8)
            return None
        ex.defs["on_load"] = on_load
        ctx.reach(st, "nodes"); rets = []
        for a in (p, q):
            r = []
            for o in ctx.call(st, fn, [a]):
                if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
                ctx.oblige(o.state, "bucket-in-range", ULT(bv(o.ret, 64), NB)); r.append((o.state, bv(o.ret, 64)))
            rets.append(r)
        for s1, r1 in rets[0]:
            for s2, r2 in rets[1]: ctx.oblige(s2, "same-contents-same-bucket", r1 == r2)
    T = Task("UniqueTable<%sNode>::hash" % kind, "", run, merge=False, budget=120); T.cost = 3
    return T

def tasks(mod):
    return [t(kk) for kk in "vmd" for t in (t_getnode, t_returnnode, t_terminal, t_equal, t_hash)] + [t_lookup(kk, b) for kk in "vmd" for b in (False, True)]
