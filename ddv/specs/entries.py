"""C20: reading entries (getValueByPath by index and by path, getVector, getMatrix) and building matrix diagrams (makeDDFromMatrix).

One arbitrary but fixed index is read:  VALX(p) is the product of the weights on the path of that index below the node p
(VALX(T) = 1, VALX(p) = w_j * VALX(c_j) with j the bits of the index at p's level).  Reading by path: the same with the
digit of the path at p's level.  Dense output: the content of one arbitrary but fixed position (K, or K and M) is tracked.
Dense input: MAT(l, r, c) is the entry, at the fixed index bits SEL, of the 2^(l+1) x 2^(l+1) block at row r, column c."""
from ..ddm import *
from .. import ir
from .ident import SEL, edges_in_loop, uses

VALX = {k: fpair("VALX" + k) for k in "vm"}
PV = {k: fpair("PV" + k) for k in "vm"}
PATH = Function("PATH", P, BitVecSort(8))
I, J, LEN = BitVecs("row column path.size", 64)
K = (BitVec("K", 64), BitVec("M", 64))
MATL = (Function("MATr", BitVecSort(8), P, P, RealSort()), Function("MATi", BitVecSort(8), P, P, RealSort()))
EDG = {k: "dd::Edge<%s>" % CPP[k] for k in "vm"}
IDX = {"v": "unsigned long", "m": "unsigned long, unsigned long"}
def sx(l): return SignExt(56, l)
def one(l): return BitVecVal(1, 64) << sx(l)
def bit(i, l): return (i & one(l)) != 0
def rec_name(k): return PKG + "getValueByPath(%s const&, dd::Complex const&, %s)" % (EDG[k], IDX[k])
def levinv(D, st, k, p): return And(p != 0, Or(D.isT(k, p), And(D.lev(st, k, p) >= 0, D.lev(st, k, p) <= 62)), D.isT(k, p) == (D.lev(st, k, p) == 255))
def selected(k, ix, L):
    """condition per successor: the bits of the index at level L select it"""
    if k == "v": return [Not(bit(ix[0], L)), bit(ix[0], L)]
    r, c = bit(ix[0], L), bit(ix[1], L)
    return [And(Not(r), Not(c)), And(Not(r), c), And(r, Not(c)), And(r, c)]
def valx_def(D, st, k, p, kids, L, ix):
    for s, (c, r, i) in zip(selected(k, ix, L), kids): st.assume(Implies(s, And(*ceq(app(VALX[k], p), cmul((VALF(r), VALF(i)), app(VALX[k], c))))))

def operand(D, st, k, case, name="e"):
    T = BitVecVal(D.T[k], 64)
    pe, e, er, ei = D.edge(st, k, name, T if case == "terminal" else None)
    for h in (er, ei): D.store_ok(st, h); st.assume((VALF(h) == 0) == (h == D.bz))
    st.assume([D.bot == 0, e != 0, *ceq(app(VALX[k], T), C1), *ceq(app(PV[k], T), C1)])
    kids, L = None, None
    if case == "node":
        L = BitVec("L", 8); kids = D.node(st, k, e, L, sem=False); st.assume(L <= 62)
    return pe, e, er, ei, kids, L

def unchanged(ctx, D, s, pe, e, er, ei):
    q = D.read_edge(s, pe); ctx.oblige(s, "operand-unchanged", And(q[0] == e, q[1] == er, q[2] == ei))

def rec_contract(D, k):
    def h(ex, st, args, i):
        this, pe, pa = args[:3]
        p, r, m = D.read_edge(st, pe); v = cmul(D.cval(st, r, m), D.rdc(st, pa))
        ex.oblige(st, "getValueByPath: index passed on", And(*[bv(a, 64) == x for a, x in zip(args[3:], (I, J))]))
        D.expire(st)
        w = (ex.fresh("entry.re", RealSort()), ex.fresh("entry.im", RealSort()))
        st.assume(ceq(w, cmul(v, app(VALX[k], p))))
        return ("val", w)
    return (rec_name(k), h)

def t_rec(k, case):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(rec_name(k)); ctx.loc = fn.dem
        ex.contracts.append(rec_contract(D, k))
        st = D.state(); pe, e, er, ei, kids, L = operand(D, st, k, case)
        ar, ai = BitVecs("amp.r amp.i", 64); pa = ctx.obj(st, "amp", "struct.dd::Complex"); ctx.setcell(st, pa, 0, PTR, ar); ctx.setcell(st, pa, 8, PTR, ai)
        ix = (I, J)[:1 if k == "v" else 2]
        if kids: valx_def(D, st, k, e, kids, L, ix)
        va, ve = D.cval(st, ar, ai), D.cval(st, er, ei)
        want = cmul(cmul(va, ve), app(VALX[k], e))
        ctx.reach(st, "operands"); st0 = st.copy()
        for o in ctx.call(st, fn, [D.pkg, pe, pa, *ix]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            D.hints(s)
            for g, n in zip(ceq(o.ret, want), ("re", "im")): ctx.oblige(s, "entry." + n, g)
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0); unchanged(ctx, D, s, pe, e, er, ei)
    return Task("Package::getValueByPath<%sEdge> recursive (%s)" % (k, case), "", run, merge=False)

def t_pub(k):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(PKG + "getValueByPath(%s const&, %s)" % (EDG[k], IDX[k])); ctx.loc = fn.dem
        ex.contracts.append(rec_contract(D, k))
        st = D.state(); pe, e, er, ei, kids, L = operand(D, st, k, "any")
        ve = D.cval(st, er, ei); want = cmul(ve, app(VALX[k], e))
        ctx.reach(st, "operand"); st0 = st.copy()
        for o in ctx.call(st, fn, [D.pkg, pe, I] + ([J] if k == "m" else [])):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            for g, n in zip(ceq(o.ret, want), ("re", "im")): ctx.oblige(s, "entry." + n, g)
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0); unchanged(ctx, D, s, pe, e, er, ei)
    return Task("Package::getValueByPath(%sEdge, index)" % k, "", run, merge=False)

def t_path(k):
    n = NSUCC[k]
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith("dd::ComplexValue %sgetValueByPath<%s >(" % (PKG, EDG[k])) or d.startswith("dd::ComplexValue %sgetValueByPath<%s>(" % (PKG, EDG[k]))); ctx.loc = fn.dem
        st = D.state(); pe, e, er, ei, kids, L = operand(D, st, k, "any")
        st.assume([levinv(D, st, k, e), Implies(Not(D.isT(k, e)), UGT(LEN, sx(D.lev(st, k, e))))])
        le = D.lev(st, k, e)
        ps = ctx.obj(st, "path", "class.std::__cxx11::basic_string", False)
        def at(ex_, st_, args, i):
            q = ex_.asptr(args[0])
            if not q.isobj() or q.base != ps.base: raise Unsupported("a string other than the path")
            j = bv(args[1], 64)
            ex_.oblige(st_, "path: position in range", ULT(j, LEN))
            o = ex_.new_object(st_, "digit%d" % next(ex_.cnt), ir.INT(8), False, 1)
            ex_.store(st_, o, ir.INT(8), PATH(j))
            st_.assume([PATH(j) >= 48, PATH(j) < 48 + n])
            return ("val", o)
        def elem(ex_, st_, args, i):
            q = ex_.asptr(args[0]); j = args[1]
            if type(j) is not int:
                j = simplify(j)
                if z3.is_bv_value(j): j = j.as_long()
            if type(j) is int:
                if j >= n: raise Unsupported("successor out of range")
                return ("val", Ptr(q.base, q.rt, q.off + ESZ * j, q.sym))
            if q.isobj(): raise Unsupported("symbolic successor of a local array")
            p = bv(q.base, 64)
            ex_.oblige(st_, "successor of a node", And(Not(D.isT(k, p)), p != 0, ULT(j, n)))
            st_.assume(Not(D.isT(k, p)))
            ks = D.node(st_, k, p, sem=False); lv = D.lev(st_, k, p)
            for x, (c, r, m) in enumerate(ks):
                st_.assume([Implies(PATH(sx(lv)) == 48 + x, And(*ceq(app(PV[k], p), cmul((VALF(r), VALF(m)), app(PV[k], c))))), levinv(D, st_, k, c)])
            outs = []
            for x in range(n):
                if not ex_.feasible(st_, j == x): continue
                s = st_.copy(); s.assume(j == x, True); outs.append((s, Ptr(q.base, q.rt, q.off + ESZ * x, q.sym)))
            return ("multi", outs)
        isarr = lambda d: d.startswith("std::array<%s, %dul>::" % (EDG[k], n)) and ("::at(unsigned long)" in d or "::operator[](unsigned long)" in d)
        ex.contracts += [(lambda d: d.startswith("std::__cxx11::basic_string<char") and ("::at(unsigned long) const" in d or "::operator[](unsigned long) const" in d), at), (isarr, elem)]
        ve = D.cval(st, er, ei); want = cmul(ve, app(PV[k], e))
        def spec(ex_, s0, fn_, h, body):
            es = edges_in_loop(D, s0, fn_, body, k)
            if len(es) != 1: return None
            r = es[0]; n0 = D.num(s0)
            if n0.temp is None: return None
            tr, ti = n0.temp
            E = lambda s: D.read_edge(s, r)
            def sem(s):
                p, wr, wi = E(s)
                return And(*ceq(cmul(cmul(D.cval(s, tr, ti), D.cval(s, wr, wi)), app(PV[k], p)), want))
            cands = lambda ex__, s: [Inv("value", sem, True), Inv("level", lambda s: And(levinv(D, s, k, E(s)[0]), D.effl(s, k, E(s)[0]) <= le), True),
                                     Inv("temporary", lambda s: BoolVal(D.num(s).temp is not None and D.num(s).temp[0].eq(tr) and D.num(s).temp[1].eq(ti)), True),
                                     Inv("node", lambda s: Not(D.isT(k, E(s)[0])))]
            Lp = LoopSpec("path", cands)
            hav = ex.havoc
            def havoc(st_, modset, sp):
                hav(st_, modset, sp)
                if sp is Lp:
                    m = D.wnum(st_)
                    for h_ in (tr, ti): m.vals[h_.get_id()] = (h_, ex.fresh("acc", RealSort()))
                    for h_ in E(st_)[1:]: D.store_ok(st_, h_)
            ex.havoc = havoc
            return Lp
        ex.loopspec = spec
        ctx.reach(st, "operand"); st0 = st.copy()
        for o in ctx.call(st, fn, [D.pkg, pe, ps]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            for g, nm in zip(ceq(o.ret, want), ("re", "im")): ctx.oblige(s, "entry." + nm, g)
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0); unchanged(ctx, D, s, pe, e, er, ei)
    return Task("Package::getValueByPath<%sEdge>(path)" % k, "", run, merge=False)

# ---------------------------------------------------------------------- dense output
def mask(l): return If(l == 255, BitVecVal(0, 64), (BitVecVal(2, 64) << sx(l)) - 1)
# the tracked row (column) lies in the block of 2^(l+1) rows (columns) at i;  its definition inside_def enters only through the lemma task
INSIDE = [Function("INSIDE%d" % d, P, BitVecSort(8), BoolSort()) for d in range(2)]
def inside(k, ix, l): return And(*[f(i, l) for f, i in zip(INSIDE, ix)])
def inside_def(x, i, l): return (x & ~mask(l)) == i
def inside_leaf(st, ix): st.assume([f(i, BitVecVal(255, 8)) == (x == i) for f, x, i in zip(INSIDE, K, ix)])
def inside_split(st, ix, L):
    for f, x, i in zip(INSIDE, K, ix): st.assume([f(i, L - 1) == And(f(i, L), Not(bit(x, L))), f(i | one(L), L - 1) == And(f(i, L), bit(x, L))])
def inside_whole(st, n, L): st.assume([f(BitVecVal(0, 64), L) for f in INSIDE[:n]])
def t_blocks():
    def run(ctx):
        ctx.loc = "lemma: halves of a block"; st = ctx.state(); x, i = BitVecs("x i", 64); L = BitVec("L", 8); D1 = BitVecVal(255, 8)
        st.assume([L >= 0, L <= 62]); s2 = st.copy()
        st.assume((i & mask(L)) == 0)
        ctx.oblige(st, "leaf", inside_def(x, i, D1) == (x == i))
        ctx.oblige(st, "lower-half", inside_def(x, i, L - 1) == And(inside_def(x, i, L), Not(bit(x, L))))
        ctx.oblige(st, "upper-half", inside_def(x, i | one(L), L - 1) == And(inside_def(x, i, L), bit(x, L)))
        s2.assume(ULT(x, BitVecVal(2, 64) << sx(L)))
        ctx.oblige(s2, "whole", inside_def(x, BitVecVal(0, 64), L))
    return Task("lemma: halves of a block", "", run, merge=False)
CX = "std::complex<double>"
CV = "std::vector<%s, std::allocator<%s > >" % (CX, CX)
CM = "std::vector<%s, std::allocator<%s > >" % (CV, CV)

class Dense:
    """one position of the output is tracked: content st.ghost[("dense")] = pair; obj: the vector object; size per dimension"""
    def __init__(self, D, k):
        self.D, self.k = D, k; ex = D.ex
        def acc(dim):
            def h(ex_, st, args, i):
                q = ex_.asptr(args[0]); j = bv(args[1], 64); d = st.ghost["dense"]
                which = d["rows"].get(q.base) if q.isobj() else None
                if q.isobj() and q.base == d["obj"]: level = 0
                elif which is not None: level = 1
                else: raise Unsupported("element of an unknown vector")
                ex_.oblige(st, "dense output: position in range", ULT(j, d["n"]))
                outs = []
                hit = j == K[level]
                for yes in (True, False):
                    if not ex_.feasible(st, hit if yes else Not(hit)): continue
                    s = st.copy(); s.assume(hit if yes else Not(hit), True)
                    yes_ = yes and (level == 0 or which)
                    if k == "m" and level == 0:
                        o = ex_.new_object(s, "row%d" % next(ex_.cnt), ctx_ty(D, "row"), False, 24)
                        g = dict(s.ghost["dense"]); g["rows"] = dict(g["rows"]); g["rows"][o.base] = yes; s.ghost["dense"] = g
                        outs.append((s, o))
                    else: outs.append((s, d["cell"] if yes_ else self.trash(s)))
                return ("multi", outs)
            return h
        ex.contracts += [(lambda d: d in (CV + "::at(unsigned long)", CV + "::operator[](unsigned long)", CM + "::at(unsigned long)", CM + "::operator[](unsigned long)"), acc(0))]
    def trash(self, s):
        return self.D.ex.new_object(s, "other%d" % next(self.D.ex.cnt), self.D.ctx.mod.named("class.std::complex"), True, 16)
    def new(self, ctx, st, obj, n, v):
        cell = ctx.obj(st, "tracked", "class.std::complex", False)
        ctx.setcell(st, cell, 0, DBL, v[0]); ctx.setcell(st, cell, 8, DBL, v[1])
        st.ghost["dense"] = dict(obj=obj, rows={}, n=n, cell=cell)
    def value(self, ctx, st):
        c = st.ghost["dense"]["cell"]
        return ctx.cell(st, c, 0, DBL), ctx.cell(st, c, 8, DBL)
def ctx_ty(D, what): return ir.Ty("arr", 24, ir.INT(8))

def fill_name(k): return PKG + ("getVector" if k == "v" else "getMatrix") + "(%s const&, dd::Complex const&, %s, " % (EDG[k], IDX[k])

def fill_pre(D, st, k, ix, l, n):
    """block of the index: inside the output, aligned"""
    return And(*[And((i & mask(l)) == 0, ULE(i, (n - 1) & ~mask(l)), (n & mask(l)) == 0, n != 0) for i in ix])

def fill_contract(D, k, dense):
    def h(ex, st, args, i):
        this, pe, pa = args[:3]; nx = 1 if k == "v" else 2
        ix = [bv(a, 64) for a in args[3:3 + nx]]
        d = st.ghost["dense"]; q = ex.asptr(args[3 + nx])
        ex.oblige(st, "dense output: same object", BoolVal(q.isobj() and q.base == d["obj"]))
        p, r, m = D.read_edge(st, pe); v = cmul(D.cval(st, r, m), D.rdc(st, pa)); l = D.effl(st, k, p)
        old = dense.value(D.ctx, st)
        ex.oblige(st, "dense output: block", fill_pre(D, st, k, ix, l, d["n"]))
        ex.oblige(st, "dense output: block is still zero", Implies(inside(k, ix, l), And(old[0] == 0, old[1] == 0)))
        D.expire(st)
        new = (ex.fresh("dense.re", RealSort()), ex.fresh("dense.im", RealSort())); t = cmul(v, app(VALX[k], p))
        st.assume([Implies(inside(k, ix, l), And(*ceq(new, t))), Implies(Not(inside(k, ix, l)), And(*ceq(new, old)))])
        D.ctx.setcell(st, d["cell"], 0, DBL, new[0]); D.ctx.setcell(st, d["cell"], 8, DBL, new[1])
        return ("val", None)
    return (lambda d: d.startswith(fill_name(k)), h)

def t_fill(k, case, sel=0):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex; dense = Dense(D, k)
        fn = ctx.fn(lambda d: d.startswith(fill_name(k))); ctx.loc = fn.dem
        ex.contracts.append(fill_contract(D, k, dense))
        st = D.state(); pe, e, er, ei, kids, L = operand(D, st, k, case)
        ar, ai = BitVecs("amp.r amp.i", 64); pa = ctx.obj(st, "amp", "struct.dd::Complex"); ctx.setcell(st, pa, 0, PTR, ar); ctx.setcell(st, pa, 8, PTR, ai)
        nx = 1 if k == "v" else 2; ix = (I, J)[:nx]; n = BitVec("size", 64)
        inside_leaf(st, ix)
        if kids:
            valx_def(D, st, k, e, kids, L, K[:nx]); inside_split(st, ix, L)
            sc = selected(k, K[:nx], L)[sel]; st.assume(list(sc.children()) if z3.is_and(sc) else sc)
        l = L if L is not None else BitVecVal(255, 8)
        out = ex.new_object(st, "output", ctx_ty(D, "out"), False, 24); v0 = Reals("old.re old.im")
        dense.new(ctx, st, out.base, n, v0)
        st.assume([fill_pre(D, st, k, ix, l, n), Implies(inside(k, ix, l), And(v0[0] == 0, v0[1] == 0))])
        va, ve = D.cval(st, ar, ai), D.cval(st, er, ei); want = cmul(cmul(va, ve), app(VALX[k], e))
        ctx.reach(st, "operands"); st0 = st.copy()
        for o in ctx.call(st, fn, [D.pkg, pe, pa, *ix, out]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            D.hints(s); new = dense.value(ctx, s); inn = inside(k, ix, l)
            for g, nm in zip(ceq(new, want), ("re", "im")): ctx.oblige(s, "entry-written." + nm, Implies(inn, g))
            for g, nm in zip(ceq(new, v0), ("re", "im")): ctx.oblige(s, "other-entries-unchanged." + nm, Implies(Not(inn), g))
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0); unchanged(ctx, D, s, pe, e, er, ei)
    t = Task("Package::%s recursive (%s%s)" % ("getVector" if k == "v" else "getMatrix", case, " %d" % sel if case == "node" else ""), "", run, merge=False, budget=400)
    t.cost = 10 if k == "m" and case == "node" else 1; t.par = 4 if k == "m" else 1
    return t

def t_dense(k):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex; dense = Dense(D, k)
        fn = ctx.fn(PKG + ("getVector" if k == "v" else "getMatrix") + "(%s const&)" % EDG[k]); ctx.loc = fn.dem
        ex.contracts.append(fill_contract(D, k, dense))
        st = D.state(); pe, e, er, ei, kids, L = operand(D, st, k, "node")
        ve = D.cval(st, er, ei); want = cmul(ve, app(VALX[k], e))
        dim = BitVecVal(2, 64) << sx(L)
        inside_whole(st, 1 if k == "v" else 2, L)        # the tracked position lies below the dimension
        out = ex.new_object(st, "output", ctx_ty(D, "out"), False, 24)
        rows = {}
        def ctor(ex_, st_, args, i):
            q = ex_.asptr(args[0]); nn = bv(args[1], 64)
            v = (D.ctx.cell(st_, args[2], 0, DBL), D.ctx.cell(st_, args[2], 8, DBL))
            if q.base == out.base and k == "v": dense.new(ctx, st_, out.base, nn, v)
            else: rows[q.base] = (nn, v)
            return ("val", None)
        def ctor2(ex_, st_, args, i):
            q, r = ex_.asptr(args[0]), ex_.asptr(args[2]); nn = bv(args[1], 64)
            if q.base != out.base or r.base not in rows: raise Unsupported("matrix of unknown rows")
            n2, v = rows[r.base]
            ex_.oblige(st_, "matrix is square", n2 == nn)
            dense.new(ctx, st_, out.base, nn, v)
            return ("val", None)
        nothing = lambda ex_, st_, a, i: ("val", None)
        ex.contracts += [(lambda d: d.startswith(CV + "::vector(unsigned long, %s const&" % CX), ctor), (lambda d: d.startswith(CM + "::vector(unsigned long, %s const&" % CV), ctor2),
                         (lambda d: d in (CV + "::~vector()", CM + "::~vector()"), nothing)]
        ctx.reach(st, "operand"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, pe]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            if "dense" not in s.ghost: ctx.oblige(s, "result built", BoolVal(False)); continue
            ctx.oblige(s, "size", s.ghost["dense"]["n"] == dim)
            for g, nm in zip(ceq(dense.value(ctx, s), want), ("re", "im")): ctx.oblige(s, "entry." + nm, g)
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0); unchanged(ctx, D, s, pe, e, er, ei)
    return Task("Package::" + ("getVector" if k == "v" else "getMatrix"), "", run, merge=False)

# ---------------------------------------------------------------------- dense input
FROM = PKG + "makeDDFromMatrix(%s const&" % CM
ENTA = Function("entry_address", P, P, P)
NN = BitVec("length", 64)
MAXL = 29                                                            # 2^60 entries

class DenseIn:
    """a matrix given as a vector of rows (std::vector by trusted contract); entry (r, c) at ENTA(r, c)"""
    def __init__(self, D, ctx, st, n):
        self.D, self.n = D, n; ex = D.ex
        self.obj = ex.new_object(st, "matrix", ir.Ty("arr", 24, ir.INT(8)), False, 24)
        self.rows = {}; self.rt = ex.canon("class.std::complex")
        sz = lambda ex_, st_, a, i: ("val", self.size(st_, a[0]))
        ex.contracts += [(lambda d: d in (CM + "::size() const", CV + "::size() const"), sz),
                         (lambda d: d in (CM + "::empty() const", CV + "::empty() const"), lambda ex_, st_, a, i: ("val", simplify(bv(self.size(st_, a[0]), 64) == 0))),
                         (lambda d: d in tuple(t + f for t in (CM, CV) for f in ("::operator[](unsigned long) const", "::at(unsigned long) const")), self.at)]
    def isrow(self, q): return not q.isobj() and z3.is_expr(q.base) and q.base.get_id() in self.rows
    def size(self, st, a):
        q = self.D.ex.asptr(a)
        if q.isobj() and q.base == self.obj.base: return self.n
        if self.isrow(q): return self.width
        raise Unsupported("unknown vector")
    width = None
    def at(self, ex, st, args, i):
        q = ex.asptr(args[0]); j = bv(args[1], 64)
        if q.isobj() and q.base == self.obj.base:
            ex.oblige(st, "matrix: row in range", ULT(j, bv(self.n, 64)))
            p = ex.fresh("row", P); self.rows[p.get_id()] = (p, j)
            return ("val", Ptr(p, None, 0, ()))
        if self.isrow(q):
            ex.oblige(st, "matrix: column in range", ULT(j, bv(self.width, 64)))
            return ("val", Ptr(ENTA(self.rows[q.base.get_id()][1], j), self.rt, 0, ()))
        raise Unsupported("unknown vector")
    def entry(self, ctx, st, r, c):
        q = Ptr(ENTA(r, c), self.rt, 0, ())
        return ctx.cell(st, q, 0, DBL), ctx.cell(st, q, 8, DBL)

def from_contract(D, din, terms):
    def near(st, x, ts):
        x = bv(x, 64)
        for t in ts:
            if D.ex.quickprove(st, x == t): return t
        return x
    def h(ex, st, args, i):
        out, this, pm, level, r0, r1, c0, c1 = args[:8]
        q = ex.asptr(pm); l = bv(level, 8)
        ex.oblige(st, "makeDDFromMatrix: same matrix", BoolVal(q.isobj() and q.base == din.obj.base))
        r, c = near(st, r0, terms[0]), near(st, c0, terms[1])
        n = bv(din.n, 64); d = If(l == 255, BitVecVal(1, 64), BitVecVal(2, 64) << sx(l))
        ex.oblige(st, "makeDDFromMatrix: level", And(l >= -1, l <= MAXL))
        ex.oblige(st, "makeDDFromMatrix: block size", And(bv(r1, 64) == r + d, bv(c1, 64) == c + d))
        ex.oblige(st, "makeDDFromMatrix: block inside the matrix", And(ULE(r + d, n), ULE(c + d, n)))
        v = (ex.fresh("block.re", RealSort()), ex.fresh("block.im", RealSort()))
        p, a, b = D.zero_or_scratch(st, "m", v, "block")
        st.assume(ceq(D.edge_sem("m", v, p), app(MATL, l, r, c)))
        st.assume(Or(a == D.bz, D.effl(st, "m", p) == l))
        D.put_edge(st, out, p, a, b); D.track(st, "nodes", ("m", p))
        return ("val", None)
    return (lambda d: d.startswith(FROM + ","), h)

def t_from_rec(case, sel=0):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(FROM + ",")); ctx.loc = fn.dem
        st = D.state(); st.assume(D.bot == 0)
        din = DenseIn(D, ctx, st, NN); din.width = NN
        r, c = BitVecs("row column", 64); L = BitVecVal(255, 8) if case == "entry" else BitVec("L", 8)
        d = BitVecVal(1, 64) if case == "entry" else BitVecVal(2, 64) << sx(L)
        st.assume([ULE(NN, BitVecVal(2 << MAXL, 64)), ULE(r, NN), ULE(c, NN), ULE(d, NN), ULE(r + d, NN), ULE(c + d, NN)])
        if case == "entry": st.assume(ceq(app(MATL, L, r, c), din.entry(ctx, st, r, c))); terms = ([r], [c])
        else:
            st.assume([L >= 0, L <= MAXL])
            h = one(L); terms = ([r, r + h], [c, c + h])
            st.assume(ceq(app(MATL, L, r, c), app(MATL, L - 1, terms[0][sel >> 1], terms[1][sel & 1])))
        ex.contracts.append(from_contract(D, din, terms))
        D.makeDDNode("m", lambda ex_, st_, k, v8, es, p, rr, m, v: st_.assume(ceq(app(AMP["m"], p), app(TOP[("m", sel)], p))))
        out, *_ = D.edge(st, "m", "out")
        ctx.reach(st, "block"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, din.obj, L if case != "entry" else 255, r, r + d, c, c + d]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, a, b = D.read_edge(s, out); v = D.cval(s, a, b)
            for g, n in zip(ceq(D.edge_sem("m", v, p), app(MATL, L, r, c)), ("re", "im")): ctx.oblige(s, "entry." + n, g)
            ctx.oblige(s, "level", D.level_ok(s, "m", p, a, b, L)); ctx.oblige(s, "zero-is-terminal", And(p != 0, Implies(And(D.zeroh(a), D.zeroh(b)), D.isT("m", p))))
            D.scratch_or_zero(ctx, s, a, b); D.leak_check(ctx, s, [(a, b)]); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::makeDDFromMatrix recursive (%s%s)" % (case, "" if case == "entry" else " %d" % sel), "", run, merge=False)

def t_from(case):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(FROM + ")"); ctx.loc = fn.dem
        ex.contracts.append((lambda d: d.startswith("__gnu_cxx::__enable_if<__is_integer<unsigned long>::__value, double>::__type std::log2<unsigned long>("), log2_contract))
        st = D.state(); st.assume(D.bot == 0); nq = BitVec("nqubits", 64)
        ctx.setcell(st, Ptr(D.pkg.base, D.pkg.rt, D.member("nqubits"), ()), 0, ir.INT(64), nq)
        large = UGT(BitVecVal(case, 64), nq) if type(case) is int else BoolVal(False)
        n = 0 if case == "empty" else 1 << case if type(case) is int else BitVec("length", 64)
        din = DenseIn(D, ctx, st, n); din.width = n
        if case == "other length": st.assume((n & (n - 1)) != 0)
        if case == "not square": din.width = BitVec("width", 64); st.assume([(n & (n - 1)) == 0, n != 0, din.width != n])
        Z64 = BitVecVal(0, 64); ex.contracts.append(from_contract(D, din, ([Z64], [Z64])))
        out, *_ = D.edge(st, "m", "out")
        if case == 0: want = din.entry(ctx, st, Z64, Z64)
        elif type(case) is int: want = app(MATL, BitVecVal(case - 1, 8), Z64, Z64)
        ctx.reach(st, str(case)); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, din.obj]):
            s = o.state
            if case in ("other length", "not square"): ctx.oblige(s, "rejected", BoolVal(o.kind == "throw")); continue
            if o.kind == "throw": ctx.oblige(s, "only matrices for too many qubits are rejected", large); continue
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, a, b = D.read_edge(s, out); v = D.cval(s, a, b)
            if case == "empty": ctx.oblige(s, "empty-is-one", And(D.isT("m", p), a == D.bo, b == D.bz)); continue
            for g, nm in zip(ceq(D.edge_sem("m", v, p), want), ("re", "im")): ctx.oblige(s, "entry." + nm, g)
            ctx.oblige(s, "level", D.level_ok(s, "m", p, a, b, BitVecVal((case - 1) % 256, 8)))
            D.result_stored(ctx, s, a, b); D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::makeDDFromMatrix (%s)" % case, "", run, merge=False)

def log2_contract(ex, st, args, i):
    """std::log2 of a power of two is exact"""
    n = args[0]
    if type(n) is not int: n = simplify(n); n = n.as_long() if z3.is_bv_value(n) else None
    if not n or n & (n - 1): raise Unsupported("log2 of something else than a known power of two")
    return ("val", RealVal(n.bit_length() - 1))

def tasks(mod):
    out = [t_rec(k, c) for k in "vm" for c in ("terminal", "node")] + [t_pub("v"), t_pub("m"), t_path("v"), t_path("m")]
    out += [t_fill(k, "terminal") for k in "vm"] + [t_fill(k, "node", j) for k in "vm" for j in range(NSUCC[k])] + [t_blocks(), t_dense("v"), t_dense("m")]
    out += [t_from_rec("entry")] + [t_from_rec("block", j) for j in range(4)] + [t_from(c) for c in ["empty", "other length", "not square"] + list(range(0, MAXL + 2))]
    return out
