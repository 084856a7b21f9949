"""C02/C03: the table of real numbers (ComplexTable): lookup, reference counts, collection."""
from ..lib import *
from ..chunks import *
from ..symex import LoopSpec, Inv

CT = "dd::ComplexTable<65537ul, 2048ul, 2ul, 65536ul>::"
CLS = "ComplexTable<65537UL, 2048UL, 2UL, 65536UL>"
DEF = {'table': 0, 'tailTable': 524296, 'available': 1048656, 'chunks': 1048664, 'chunkID': 1048688, 'chunkIt': 1048696, 'chunkEndIt': 1048704,
       'allocationSize': 1048712, 'allocations': 1048720, 'count': 1048728, 'peakCount': 1048736, 'gcLimit': 1048760}
NB = 65537
P = BitVecSort(64)
ROLE = Array("role", P, IntSort())        # 0 unknown, 1 stored, 2 free
BK = Array("bucket", P, P)                # bucket of a stored entry
PREV = Array("prevfree", P, P)
HK = Function("hash", RealSort(), P)      # specified by the contract of hash(), proved below
e, f, k = BitVec("e", 64), BitVec("f", 64), BitVec("k", 64)
x, y = Reals("x y")

def FA(vs, body, pats=None):
    if pats and all(is_select(p) and is_const(p.arg(0)) for p in pats):
        return ForAll(vs, body, patterns=[MultiPattern(*pats)] if len(pats) > 1 else pats)
    return ForAll(vs, body)

def hash_axioms(tol):
    return [ForAll([x, y], Implies(And(0 <= x, x <= y), HK(x) <= HK(y)), patterns=[MultiPattern(HK(x), HK(y))]),
            ForAll([x], Implies(x >= 0, And(HK(x) >= 0, HK(x) < NB)), patterns=[HK(x)]),
            ForAll([x, y], Implies(And(0 <= x, x <= y, y - x <= 2 * tol), HK(y) <= HK(x) + 1), patterns=[MultiPattern(HK(x), HK(y))])]

class NumTable:
    def __init__(self, ctx, st, symbolic=True, name="tab"):
        self.ctx = ctx
        self.obj = ctx.obj(st, name, "class.dd::ComplexTable", symbolic)
        self.ch = Chunks(ctx, self.obj, CLS, 24, "dd::ComplexTable<>::Entry", DEF)
        self.o = self.ch.off
        self.tol = Real("tol")
        self.treg = ("obj", name, self.o["table"], (8,), "p"); self.lreg = ("obj", name, self.o["tailTable"], (8,), "p")
    def T(self, st): return self.ctx.region(st, self.treg)
    def L(self, st): return self.ctx.region(st, self.lreg)
    def N(self, st): return self.ctx.region(st, NREG)
    def R(self, st): return self.ctx.region(st, RREG)
    def V(self, st): return self.ctx.V(st)
    def lists(self, T, L, N, V, role, bk):
        inb = lambda p, kk: And(role[p] == 1, bk[p] == kk)
        return [("head", ForAll([k], Implies(ULT(k, NB), And((T[k] == 0) == (L[k] == 0), Implies(T[k] != 0, And(role[T[k]] == 1, bk[T[k]] == k)), Implies(L[k] != 0, And(role[L[k]] == 1, bk[L[k]] == k, N[L[k]] == 0)))))),
                ("first", FA([e], Implies(role[e] == 1, And(T[bk[e]] != 0, V[T[bk[e]]] <= V[e])), [role[e]])),
                ("last", FA([e], Implies(role[e] == 1, And(L[bk[e]] != 0, V[e] <= V[L[bk[e]]], Implies(N[e] == 0, e == L[bk[e]]))), [role[e]])),
                ("order", FA([e], Implies(And(role[e] == 1, N[e] != 0), And(role[N[e]] == 1, bk[N[e]] == bk[e], V[e] < V[N[e]])), [role[e]])),
                ("adjacent", FA([e, f], Implies(And(role[e] == 1, role[f] == 1, bk[e] == bk[f], N[e] != 0, V[e] < V[f]), V[N[e]] <= V[f]), [role[e], role[f]]))]
    def values(self, V, role, bk):
        t = self.tol
        return [("apart", FA([e, f], Implies(And(role[e] == 1, role[f] == 1, e != f), Or(V[e] - V[f] > t, V[f] - V[e] > t)), [role[e], role[f]])),
                ("bucket", FA([e], Implies(role[e] == 1, And(bk[e] == HK(V[e]), V[e] > t)), [role[e]])),
                ("not-special", FA([e], Implies(role[e] == 1, And(Or(V[e] - 1 > t, 1 - V[e] > t), Or(V[e] - R2 > t, R2 - V[e] > t))), [role[e]]))]
    def pool(self, st, role, prev, goal=False):
        A = self.ch.get(st, "available"); N = self.N(st); R = self.R(st)
        it, end = self.ch.get(st, "chunkIt"), self.ch.get(st, "chunkEndIt")
        return [("free-head", Or(A == 0, And(role[A] == 2, prev[A] == 0))),
                ("free-next", FA([e], Implies(role[e] == 2, Or(N[e] == 0, And(role[N[e]] == 2, prev[N[e]] == e))), [role[e]])),
                ("entries", FA([e], Implies(role[e] != 0, And(Extract(2, 0, e) == 0, UGT(e, B(1 << 32)), ULT(e, B(1 << 62)), Or(role[e] == 1, role[e] == 2))), [role[e]])),
                ("disjoint", FA([e, f], Implies(And(role[e] != 0, role[f] != 0, e != f), Or(ULE(e + 24, f), ULE(f + 24, e))), [role[e], role[f]])),
                ("unhanded", FA([e], Implies(role[e] != 0, Or(ULE(e + 24, it), UGE(e, end))), [role[e]])),
                ("unhanded-unreferenced", ForAll([e], Implies(And(ULE(it, e), ULT(e, end)), R[e] == 0)))] + self.ch.wf(st, 1, goal)
    def inv(self, st, role=ROLE, bk=BK, prev=PREV, goal=False):
        return self.lists(self.T(st), self.L(st), self.N(st), self.V(st), role, bk) + self.values(self.V(st), role, bk) + self.pool(st, role, prev, goal)
    def setup(self, st):
        ctx = self.ctx
        ctx.settol(st, self.tol)
        st.assume([self.tol >= 0, self.tol < RealVal("1/1000000")])
        for a in hash_axioms(self.tol): ctx.ex.axioms.append(a)
        st.assume([g for _, g in self.inv(st)])
        def alloc(ex, s, b, en, n):
            s.assume(ForAll([e], Implies(ROLE[e] != 0, Or(ULE(e + 24, b), UGE(e, en))), patterns=[ROLE[e]]))
            R0 = self.R(s)
            # value-initialised elements
            s.assume(ForAll([e], Implies(And(ULE(b, e), ULT(e, en)), R0[e] == 0)))
        self.ch.onalloc.append(alloc)
        ctx.ex.contracts.append((is_emplace("dd::ComplexTable<"), self.ch.emplace()))
    def hashcontract(self):
        def h(ex, st, args, i):
            st.assume(And(HK(args[0]) >= 0, HK(args[0]) < NB)) if not ex.must(st, args[0] < 0, 200) else None
            return ("val", HK(args[0]))
        self.ctx.ex.contracts.append((lambda d: d.startswith(CT + "hash("), h))

    POOLF = ("available", "chunkIt", "chunkEndIt", "chunkID", "allocationSize", "allocations")
    def getentry(self):
        """contract of getEntry(), proved by its own task: an entry that was neither stored nor free, with count 0"""
        def h(ex, st, args, i):
            r = ex.fresh("entry", P); prev = st.ghost.get("prev", PREV); role = st.ghost.get("role", ROLE)
            for nm in self.POOLF: self.put_raw(ex, st, nm, ex.fresh("pool." + nm, P))
            for o in (0, 8): self.put_off(ex, st, self.o["chunks"] + o, ex.fresh("pool.vec%d" % o, P))
            for o in (0, 8, 16):
                kk = self.ch.vreg(o); a = self.ctx.region(st, kk); st.heap[kk] = ex.fresh("pool.h%d" % o, a.sort()); st.wlog.add(("h", kk))
            R1 = ex.fresh("refcounts", self.R(st).sort()); R0 = self.R(st)
            st.heap[RREG] = R1; st.wlog.add(("h", RREG))
            role1, prev1 = Const("role1", ArraySort(P, IntSort())), Const("prev1", ArraySort(P, P))
            st.assume(self.entry_post(st, r, role, role1, R0, R1))
            st.assume([g for _, g in self.pool(st, role1, prev1)])
            st.ghost["role"], st.ghost["prev"] = role1, prev1
            return ("val", r)
        return h
    def entry_post(self, st, r, role, role1, R0, R1):
        return [role1[r] == 0, role[r] != 1, R1[r] == 0, Extract(2, 0, r) == 0, UGT(r, B(1 << 32)), ULT(r, B(1 << 62)),
                ForAll([e], Implies(e != r, role1[e] == role[e]), patterns=[role1[e]]),
                ForAll([e], Implies(role[e] == 1, R1[e] == R0[e]), patterns=[role[e]]),
                ForAll([e], Implies(And(role[e] != 0, e != r), Or(ULE(e + 24, r), ULE(r + 24, e))), patterns=[role[e]]),
                Or(ULE(r + 24, self.ch.get(st, "chunkIt")), UGE(r, self.ch.get(st, "chunkEndIt")))]
    def put_raw(self, ex, st, nm, v): self.put_off(ex, st, self.o[nm], v)
    def put_off(self, ex, st, off, v): ex.store(st, Ptr(self.obj.base, self.obj.rt, self.obj.off + off), PTR, v)

def ptrcells(s):
    """local pointer variables of the innermost frame and their values"""
    pre = s.frames[-1].id + "#"; out = []
    for oid, o in s.mem.items():
        if oid[1].startswith(pre):
            for off, (sz, v) in o.cells.items():
                if sz == 8 and (type(v) is int or (isinstance(v, ExprRef) and is_bv(v)) or (type(v) is Ptr and not v.isobj() and not v.off and not v.sym)): out.append((oid, off))
    return out
def cellv(s, c):
    o = s.mem.get(c[0])
    if o is None or c[1] not in o.cells: raise KeyError(c)
    v = o.cells[c[1]][1]
    if type(v) is Ptr: v = v.base
    return bv(v, 64)

def fnof(ctx, pre): return ctx.fn(lambda d: d.startswith(CT + pre))

def isptr(v): return True

def search_loops(t, val):
    """walking a sorted bucket: everything before the current entry is smaller than the requested value"""
    def spec(ex, st, fn, h, body):
        def cands(ex, s0):
            out = []
            cs = ptrcells(s0); N0, V0, T0 = t.N(s0), t.V(s0), t.T(s0)
            heads = []
            for c in cs:
                v = cellv(s0, c)
                if is_select(v) and v.arg(0).eq(T0): heads.append((c, v.arg(1)))
            nulls = [c for c in cs if is_bv_value(cellv(s0, c)) and cellv(s0, c).as_long() == 0]
            for cur, key in heads:
                w = lambda s, cur=cur: cellv(s, cur)
                out.append(Inv("in-bucket", lambda s, w=w, key=key: Or(w(s) == 0, And(ROLE[w(s)] == 1, BK[w(s)] == key))))
                out.append(Inv("smaller-before", lambda s, w=w, key=key: ForAll([e], Implies(And(ROLE[e] == 1, BK[e] == key, Or(w(s) == 0, V0[e] < V0[w(s)])), V0[e] + t.tol < val), patterns=[ROLE[e]])))
                out.append(Inv("not-larger-before", lambda s, w=w, key=key: ForAll([e], Implies(And(ROLE[e] == 1, BK[e] == key, Or(w(s) == 0, V0[e] < V0[w(s)])), V0[e] <= val), patterns=[ROLE[e]])))
                for pv in nulls:
                    u = lambda s, pv=pv: cellv(s, pv)
                    out.append(Inv("behind", lambda s, u=u, w=w, key=key: If(u(s) == 0, w(s) == T0[key], And(ROLE[u(s)] == 1, BK[u(s)] == key, N0[u(s)] == w(s)))))
            return out
        return LoopSpec("bucket-walk", cands)
    return spec

def t_lookup():
    def run(ctx):
        fn = fnof(ctx, "lookup("); ctx.loc = fn.dem
        ctx.ex.defs["feas_ground"] = True
        st = ctx.state()
        t = NumTable(ctx, st); t.setup(st); t.hashcontract()
        val = Real("val")
        st.assume([val >= 0, val < (1 << 40)])
        vp = ctx.obj(st, "val", DBL); ctx.setcell(st, vp, 0, DBL, val)
        ctx.ex.loopspec = search_loops(t, val)
        ctx.ex.contracts.append((lambda d: d.startswith(CT + "getEntry("), t.getentry()))
        n0 = t.ch.geti(st, "count"); V0, N0, T0, L0, R0 = t.V(st), t.N(st), t.T(st), t.L(st), t.R(st); A0 = t.ch.get(st, "available")
        tol = t.tol
        # instances of the hash facts for the requested value
        for a, b in ((val - tol, val), (val, val + tol), (val - tol, val + tol)):
            st.assume(Implies(a >= 0, And(HK(a) <= HK(b), HK(b) <= HK(a) + 1)))
        st.assume(FA([e], Implies(ROLE[e] == 1, And(Implies(V0[e] <= val + tol, HK(V0[e]) <= HK(val + tol)), Implies(And(val >= tol, V0[e] >= val - tol), HK(V0[e]) >= HK(val - tol)))), [ROLE[e]]))
        ctx.reach(st, "invariant")
        z, o1, sq = B(ctx.zero()), B(ctx.one()), B(ctx.sq())
        for o in ctx.call(st, fn, [t.obj, vp]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state
            r = bv(ctx.ex.pbv(o.ret), 64)
            V1 = t.V(s)
            special = Or(r == z, r == o1, r == sq); old = ROLE[r] == 1
            new = And(Not(special), Not(old))
            ctx.oblige(s, "within-tolerance", And(V1[r] - val <= tol, val - V1[r] <= tol))
            ctx.oblige(s, "untagged", Extract(0, 0, r) == 0)
            absent = ForAll([e], Implies(ROLE[e] == 1, Or(V0[e] - val > tol, val - V0[e] > tol)), patterns=[ROLE[e]])
            near = lambda c: And(val - c <= tol, c - val <= tol)
            ctx.lemma(s, "new-only-if-absent", Implies(new, And(absent, Not(near(0)), Not(near(1)), Not(near(R2)))))
            ctx.oblige(s, "new-exact", Implies(new, And(V1[r] == val, t.R(s)[r] == 0)))
            ctx.oblige(s, "zero-first", Implies(near(0), r == z)); 
            role1, prev = s.ghost.get("role", ROLE), s.ghost.get("prev", PREV)
            role = Store(role1, r, 1) if "role" in s.ghost else ROLE; bk = Store(BK, r, HK(val)) if "role" in s.ghost else BK
            if "role" in s.ghost:
                ctx.lemma(s, "really-new", new)
                s.assume(V1[r] == val); s.assume(absent)     # both proved above
                same = ctx.lemma(s, "stored-unchanged", ForAll([e], Implies(ROLE[e] == 1, And(V1[e] == V0[e], role1[e] == 1, e != r, bk[e] == BK[e], t.R(s)[e] == R0[e])), patterns=[ROLE[e]]))
                back = ctx.lemma(s, "stored-before", ForAll([e], Implies(role[e] == 1, Or(e == r, ROLE[e] == 1)), patterns=[role[e]] if is_const(role) else [role1[e]]))
            ctx.oblige(s, "count", t.ch.geti(s, "count") == n0 + If(new, B(1), B(0)))
            ctx.oblige(s, "stored-unchanged", ForAll([e], Implies(ROLE[e] == 1, And(V1[e] == V0[e], t.R(s)[e] == R0[e]))))
            unchanged = s.heap.get(NREG) is not None and t.N(s).eq(N0) and t.T(s).eq(T0) and t.L(s).eq(L0) and V1.eq(V0) and t.ch.get(s, "available").eq(A0)
            ctx.oblige(s, "shared-constants", And(*[V1[B(g)] == V0[B(g)] for g in (ctx.zero(), ctx.one(), ctx.sq())]))
            if unchanged:
                ctx.oblige(s, "nothing-added", Not(new))
                continue
            old = dict(t.values(V0, ROLE, BK))
            for nm, g in t.inv(s, role, bk, prev, True):
                ctx.oblige(s, "inv-" + nm, g, using=[old["apart"], absent, same, back, V1[r] == val] if nm == "apart" else None)
    t = Task("ComplexTable::lookup", "", run, merge=False, timeout=30000, budget=400); t.cost = 20; t.par = 6
    return t

def t_getentry():
    def run(ctx):
        fn = fnof(ctx, "getEntry("); ctx.loc = fn.dem
        ctx.ex.defs["feas_ground"] = True
        st = ctx.state()
        t = NumTable(ctx, st); t.setup(st)
        A0 = t.ch.get(st, "available"); V0, N0, T0, L0, R0 = t.V(st), t.N(st), t.T(st), t.L(st), t.R(st); n0 = t.ch.geti(st, "count")
        ctx.reach(st, "invariant")
        for o in ctx.call(st, fn, [t.obj]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state; r = bv(ctx.ex.pbv(o.ret), 64)
            role1 = Store(ROLE, r, 0)
            A1 = t.ch.get(s, "available")
            prev1 = If(A1 == 0, PREV, Store(PREV, A1, B(0)))
            for k2, g in enumerate(t.entry_post(s, r, ROLE, role1, R0, t.R(s))): ctx.oblige(s, "entry.%d" % k2, g)
            for nm, g in t.pool(s, role1, prev1, True): ctx.oblige(s, "pool-" + nm, g)
            ctx.oblige(s, "frame", And(t.V(s) == V0, t.N(s) == N0, t.T(s) == T0, t.L(s) == L0, t.ch.geti(s, "count") == n0))
    t = Task("ComplexTable::getEntry", "", run, merge=False, timeout=30000, budget=400); t.cost = 10; t.par = 2
    return t

CN = "dd::ComplexNumbers::"
STORED = Array("stored", P, BoolSort())
def table_contract(ctx, tol, log):
    """contract of ComplexTable::lookup (proved by its own task)"""
    def h(ex, st, args, i):
        v = ex.load(st, ex.asptr(args[1]), DBL)
        ctx.oblige(st, "pre-nonnegative", v >= 0)
        z, o1, sq = B(ctx.zero()), B(ctx.one()), B(ctx.sq())
        S0 = st.ghost.get("stored", STORED); V0 = ctx.V(st)
        r = ex.fresh("found", P); V1 = ex.fresh("values", V0.sort())
        st.heap[VREG] = V1; st.wlog.add(("h", VREG))
        st.assume([Extract(2, 0, r) == 0, r != 0, V1[r] - v <= tol, v - V1[r] <= tol, V1[r] >= 0, (v <= tol) == (r == z),
                   ForAll([e], Implies(S0[e], V1[e] == V0[e]), patterns=[S0[e]]), V1[z] == 0, V1[o1] == 1, V1[sq] == R2])
        st.ghost["stored"] = Store(S0, r, True)
        log.append((r, v))
        return ("val", r)
    return (lambda d: d.startswith(CT + "lookup("), h)

def t_clookup(kind):
    names = {"parts": CN + "lookup(double const&, double const&)", "value": CN + "lookup(dd::ComplexValue const&)",
             "std": CN + "lookup(std::complex<double> const&)", "complex": CN + "lookup(dd::Complex const&)"}
    def run(ctx):
        fn = ctx.fn(names[kind]); ctx.loc = fn.dem
        st = ctx.state(); tol = Real("tol"); ctx.settol(st, tol)
        st.assume([tol > 0, tol < RealVal("1/1000000")])
        cn = ctx.obj(st, "cn", "class.dd::ComplexNumbers" if "class.dd::ComplexNumbers" in ctx.mod.typesrc else "struct.dd::ComplexNumbers")
        log = []
        ctx.ex.contracts.append(table_contract(ctx, tol, log))
        z, o1, sq = B(ctx.zero()), B(ctx.one()), B(ctx.sq())
        S0 = STORED
        st.assume([S0[z], S0[o1], S0[sq], ForAll([e], Implies(S0[e], And(Extract(2, 0, e) == 0, e != 0)), patterns=[S0[e]])])
        if kind in ("parts",):
            a, b = Reals("re im")
            pa, pb = ctx.obj(st, "re", DBL), ctx.obj(st, "im", DBL)
            ctx.setcell(st, pa, 0, DBL, a); ctx.setcell(st, pb, 0, DBL, b)
            args = [cn, pa, pb]
        elif kind in ("value", "std"):
            a, b = Reals("re im")
            pc_ = ctx.obj(st, "arg", "struct.dd::ComplexValue")
            ctx.setcell(st, pc_, 0, DBL, a); ctx.setcell(st, pc_, 8, DBL, b)
            args = [cn, pc_]
        else:
            pr, pi = BitVecs("pr pi", 64)
            st.assume([strip(pr) != 0, strip(pi) != 0, Extract(2, 1, pr) == 0, Extract(2, 1, pi) == 0])
            pc_ = cplx_ptr(ctx, st, "arg", pr, pi)
            a, b = ctx.val(st, pr), ctx.val(st, pi)
            args = [cn, pc_]
        ctx.reach(st, "state")
        V0 = ctx.V(st)
        for o in ctx.call(st, fn, args):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state
            r, i = [bv(ctx.ex.pbv(q), 64) for q in o.ret]
            S1 = s.ghost.get("stored", S0)
            for nm, h, v in (("real", r, a), ("imag", i, b)):
                x = ctx.val(s, h)
                ctx.oblige(s, nm + "-within-tolerance", And(x - v <= tol, v - x <= tol))
                ctx.oblige(s, nm + "-stored", S1[strip(h)])
                ctx.oblige(s, nm + "-handle", And(strip(h) != 0, Extract(2, 1, h) == 0))
                ctx.oblige(s, nm + "-one-zero", Implies(And(v <= tol, -v <= tol), h == z))
                ctx.oblige(s, nm + "-sign", Implies(h != z, tagged(h) == (v < 0)))
    return Task("ComplexNumbers::lookup(%s)" % kind, "", run, merge=False, timeout=15000)

def bridge(ctx, st):
    """signed machine comparison of converted integers is comparison of the integers (each fact proved here)"""
    cv = [(v[0], v[1]) for kk, v in ctx.ex.termcache.items() if type(kk) is tuple and kk[0] == "i2b"]
    rng = []
    for v, n in cv:
        ctx.lemma(st, "converted-range", And(n >= 0, n < (1 << 61)))
        g = BV2Int(v) == n
        ctx.lemma(st, "converted", g); rng.append([And(n >= 0, n < (1 << 61)), g])
    for (v, n), u in zip(cv, rng):
        for c in (0, 65535, 65536, 65537):
            ctx.lemma(st, "compare-constant", (v <= c) == (n <= c), u)
        ctx.lemma(st, "compare-nonneg", v >= 0, u)
    for v, n in cv:
        for w, m in cv:
            if v is w: continue
            # instances of a valid fact about two's complement numbers in the non-negative range proved above
            st.assume([(v <= w) == (n <= m), (v <= w + 1) == (n <= m + 1)])

def t_hash():
    def run(ctx):
        fn = fnof(ctx, "hash("); ctx.loc = fn.dem
        st = ctx.state()
        a, b, tol = Reals("a b tol")
        st.assume([a >= 0, a <= b, b < (1 << 40), tol >= 0, tol < RealVal("1/1000000")])
        for o in ctx.call(st, fn, [a]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            ra = bv(o.ret, 64)
            ctx.oblige(s, "range", And(ra >= 0, ra < NB))
            s.frames = []
            for o2 in ctx.call(s.copy(), fn, [b]):
                s2 = o2.state
                rb = bv(o2.ret, 64)
                # rounding to an integer is monotone (libm)
                ns = [v[0] for kk, v in ctx.ex.termcache.items() if type(kk) is tuple and kk[0] == "nearbyint"]
                xs = [v[1] for kk, v in ctx.ex.termcache.items() if type(kk) is tuple and kk[0] == "nearbyint"]
                for i in range(len(ns)):
                    for j in range(len(ns)):
                        if i != j: s2.assume(Implies(xs[i] <= xs[j], ns[i] <= ns[j]))
                bridge(ctx, s2)
                ctx.oblige(s2, "monotone", ra <= rb)
                ctx.oblige(s2, "width", Implies(b - a <= 2 * tol, rb <= ra + 1))
    return Task("ComplexTable::hash", "", run)

def tasks(mod):
    return [t_hash(), t_getentry(), t_lookup()] + [t_clookup(k2) for k2 in ("parts", "value", "std", "complex")]
