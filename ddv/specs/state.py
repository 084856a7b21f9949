"""C19: construction of zero, basis and product states, and of states from an amplitude vector.

VSEL(l) is the successor the fixed index assignment selects at level l; PROD(l) is the entry of the requested product state on the
levels start..l:  PROD(start-1) = 1, PROD(l) = <VSEL(l)|requested qubit state at l> * PROD(l-1)."""
import re
from ..ddm import *
from .. import ir
from ..bits import Bits
from .node import t_make, first_kept
from .ident import edges_in_loop, int_cells, uses
from .entries import log2_contract, CV, ENTA

VSEL = Function("VSEL", BitVecSort(8), BitVecSort(1))
PROD = tuple(Function("PROD" + x, BitVecSort(8), RealSort()) for x in "ri")
START = BitVec("start", 64)
S2 = R2
# basis state -> entries of the qubit state; the enumerators are numbered in the order of dd::BasisStates
BASIS = {"zero": (C1, C0), "one": (C0, C1), "plus": ((S2, RealVal(0)), (S2, RealVal(0))), "minus": ((S2, RealVal(0)), (-S2, RealVal(0))),
         "right": ((S2, RealVal(0)), (RealVal(0), S2)), "left": ((S2, RealVal(0)), (RealVal(0), -S2))}
def enumerators(D):
    """value of each enumerator of dd::BasisStates, from constants of the translation unit"""
    out = {}
    for n in BASIS:
        out[n] = BitVecVal(int(re.search(r"constant i32 (\d+)", D.ctx.mod.globals["ddv_basis_" + n]).group(1)), 32)
    return out

def prod_def(st, l, kinds):
    """definition of PROD at level l; kinds: [(condition that the requested state at l is this one, its two entries)]"""
    for c, (a, b) in kinds:
        for s, w in ((0, a), (1, b)): st.assume(Implies(And(c, VSEL(l) == s), And(*ceq(app(PROD, l), cmul(w, app(PROD, l - 1))))))

def node_extra(D):
    """normal form of a state node (C10): with one nonzero successor the node carries its weight; with two, the weight v of the node has
    |v|^2 = |w0|^2 + |w1|^2 and, unless the second is larger, the phase of w0 (the weight kept at successor 0 is real and positive)"""
    def f(ex, st, k, var8, es, p, r, m, v):
        w0, w1 = es[0][3], es[1][3]
        z0, z1 = And(w0[0] == 0, w0[1] == 0), And(w1[0] == 0, w1[1] == 0)
        sq = lambda x: x[0] * x[0] + x[1] * x[1]
        st.assume([Implies(z0, And(*ceq(v, w1))), Implies(z1, And(*ceq(v, w0)))])
        if not ex.quickprove(st, Or(z0, z1)):
            t = ex.fresh("kept", RealSort())
            st.assume(Implies(Not(Or(z0, z1)), And(sq(v) == sq(w0) + sq(w1), Implies(sq(w0) >= sq(w1), And(t > 0, *ceq((v[0] * t, v[1] * t), w0))))))
        for j in range(2): st.assume(Implies(VSEL(var8) == j, And(*ceq(app(AMP[k], p), app(TOP[(k, j)], p)))))
    return f

def levels(D, top, kinds):
    """loop building one level after the other: f is on the levels start..c-1 with weight one and entry PROD(c-1), c the loop counter"""
    def spec(ex, st, fn, h, body):
        es = edges_in_loop(D, st, fn, body, "v")
        if len(es) != 1: return None
        e = es[0]; ints = int_cells(D, st, fn, body); lent0 = D.num(st).lent
        E = lambda s: D.read_edge(s, e)
        lv = lambda s: D.effl(s, "v", E(s)[0])
        bot = D.bot - 1
        def cands(ex, s0):
            amp = lambda s: And(*[Implies(VSEL(lv(s)) == j, g) for j in range(2) for g in ceq(app(AMP["v"], E(s)[0]), app(PROD, lv(s)))])
            out = [Inv("weight", lambda s: And(*ceq(D.cval(s, E(s)[1], E(s)[2]), C1)), True),
                   Inv("weight-stored", lambda s: And(*[BoolVal(True) if D.is_stored(s, x) else Or(bv(x, 64) == D.bz, bv(x, 64) == D.bo) for x in E(s)[1:]]), True),
                   Inv("node", lambda s: And(E(s)[0] != 0), True),
                   Inv("terminal", lambda s: D.isT("v", E(s)[0]) == (lv(s) == bot), True),
                   Inv("level", lambda s: And(ZeroExt(8, lv(s)) + 1 >= 0, lv(s) >= bot, lv(s) <= top), True),
                   Inv("entry", amp, True),
                   Inv("no-scratch", lambda s: BoolVal(D.num(s).lent == lent0), True)]
            for oid, w in ints:
                for d in (0, 1, 2, -1):
                    for bn, base in (("", None), (".rel", bot)):
                        def g(s, oid=oid, w=w, d=d, base=base):
                            c = bv(s.mem[oid].cells[0][1], 8 * s.mem[oid].cells[0][0])
                            t = lv(s) if base is None else lv(s) - base
                            return c == (SignExt(w - 8, t) if w > 8 else t) + BitVecVal(d % (1 << w), w)
                        out.append(Inv("%s-%d%s" % (oid[1].split("#")[-1], d, bn), g))
            return out
        L = LoopSpec("levels", cands)
        def at(ex, s):
            p, r, i = E(s)
            s.assume(ceq(app(AMP["v"], p), app(PROD, lv(s))))
            for x in (r, i): D.store_ok(s, bv(x, 64)); s.assume((VALF(x) == 0) == (x == D.bz))
            n = D.wnum(s)
            if n.temp is not None: n.dead = n.dead | {x.get_id() for x in n.temp}; n.temp = None
            n.dead = n.dead | n.freed; n.freed = frozenset()
            prod_def(s, lv(s) + 1, kinds(lv(s) + 1))
        L.at_header = at
        return L
    return spec

def start(ctx, D):
    """start offset and number of qubits; the package is configured for nq qubits"""
    ex = D.ex; st = D.state(); n = BitVec("n", 8); nq = BitVec("nqubits", 64)
    st.assume([ULE(START, BitVecVal(1 << 62, 64)), D.bot == Extract(7, 0, START), UGE(nq, 1), ULE(nq, 128)])
    ctx.setcell(st, Ptr(D.pkg.base, D.pkg.rt, D.member("nqubits"), ()), 0, ir.INT(64), nq)
    end = ZeroExt(56, n) + START
    bot = Extract(7, 0, START) - 1; top = Extract(7, 0, end) - 1
    st.assume(ceq(app(PROD, bot), C1)); st.assume(ceq(app(AMP["v"], BitVecVal(D.T["v"], 64)), C1))
    st.assume(Implies(ULE(end, nq), And(top >= bot, top <= 127, bot >= -1)))
    return st, n, nq, end, bot, top

def finish(ctx, D, o, st0, out, reject, top):
    s = o.state
    if o.kind == "throw": ctx.oblige(s, "only too large requests are rejected", reject); return
    if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); return
    ctx.oblige(s, "too large requests are rejected", Not(reject))
    p, r, i = D.read_edge(s, out); v = D.cval(s, r, i)
    for g, n in zip(ceq(D.edge_sem("v", v, p), app(PROD, top)), ("re", "im")): ctx.oblige(s, "amplitude." + n, g)
    ctx.oblige(s, "level", And(p != 0, D.effl(s, "v", p) == top))
    D.result_stored(ctx, s, r, i); D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)

def t_zero():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(PKG + "makeZeroState(")); ctx.loc = fn.dem
        D.makeDDNode("v", node_extra(D))
        st, n, nq, end, bot, top = start(ctx, D); out, *_ = D.edge(st, "v", "out")
        ex.loopspec = levels(D, top, lambda l: [(BoolVal(True), BASIS["zero"])])
        ctx.reach(st, "request"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, n, START]): finish(ctx, D, o, st0, out, UGT(end, nq), top)
    return Task("Package::makeZeroState", "", run, merge=False)

def t_bits():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(PKG + "makeBasisState(") and "std::vector<bool" in d); ctx.loc = fn.dem
        D.makeDDNode("v", node_extra(D)); bits = Bits(D)
        st, n, nq, end, bot, top = start(ctx, D); out, *_ = D.edge(st, "v", "out")
        F = Function("BIT", P, BoolSort()); size = BitVec("size", 64); st.assume(UGE(size, end))
        b = bits.new(ctx, st, "bits", F, size)
        ex.loopspec = levels(D, top, lambda l: [(Not(F(SignExt(56, l))), BASIS["zero"]), (F(SignExt(56, l)), BASIS["one"])])
        ctx.reach(st, "request"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, n, b, START]): finish(ctx, D, o, st0, out, UGT(end, nq), top)
    return Task("Package::makeBasisState(vector<bool>)", "", run, merge=False)

def t_basis():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(PKG + "makeBasisState(") and "BasisStates" in d); ctx.loc = fn.dem
        D.makeDDNode("v", node_extra(D))
        st, n, nq, end, bot, top = start(ctx, D); out, *_ = D.edge(st, "v", "out")
        V = "std::vector<dd::BasisStates, std::allocator<dd::BasisStates> >::"
        size = BitVec("size", 64); vec = ex.new_object(st, "basis", ir.Ty("arr", 24, ir.INT(8)), False, 24)
        few = ULT(size, ZeroExt(56, n)); st.assume(Or(few, UGE(size, end)))
        ADDR = Function("basis_address", P, P); rt = ex.canon("class.std::complex")
        num = enumerators(D)
        val = lambda st_, k: ctx.cell(st_, Ptr(ADDR(k), rt, 0, ()), 0, ir.INT(32))
        def at(ex_, st_, a, i):
            k = bv(a[1], 64); ex_.oblige(st_, "vector: index in range", ULT(k, size))
            x = val(st_, k); st_.assume(Or(*[x == c for c in num.values()]))
            return ("val", Ptr(ADDR(k), rt, 0, ()))
        ex.contracts += [(lambda d: d == V + "size() const", lambda ex_, st_, a, i: ("val", size)),
                         (lambda d: d in (V + "operator[](unsigned long) const", V + "at(unsigned long) const"), at)]
        st1 = st
        ex.loopspec = levels(D, top, lambda l: [(val(st1, SignExt(56, l)) == c, BASIS[b]) for b, c in num.items()])
        ctx.reach(st, "request"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, n, vec, START]): finish(ctx, D, o, st0, out, Or(UGT(end, nq), few), top)
    return Task("Package::makeBasisState(vector<BasisStates>)", "", run, merge=False)

# ---------------------------------------------------------------------- from an amplitude vector
STATE = tuple(Function("STATE" + x, BitVecSort(8), P, RealSort()) for x in "ri")
CIT = "__gnu_cxx::__normal_iterator<std::complex<double> const*, std::vector<std::complex<double>, std::allocator<std::complex<double> > > >"
FROMV = PKG + "makeStateFromVector("
def is_rec(d): return d.startswith(FROMV + CIT)
def is_top(d): return d.startswith(FROMV + "std::vector")

class Amps:
    """an amplitude vector: n elements from address base (std::vector and its iterators by trusted contract; the iterators are pointers)"""
    def __init__(self, D, st, n):
        self.D, self.n = D, n; ex = D.ex; self.base = Concat(BitVec("amplitudes", 61), BitVecVal(0, 3)); self.rt = ex.canon("class.std::complex")
        self.obj = ex.new_object(st, "vector", ir.Ty("arr", 24, ir.INT(8)), False, 24)
        st.assume([UGE(self.base, BitVecVal(1 << 40, 64)), ULT(self.base, BitVecVal(1 << 46, 64))])
        def own(a):
            q = ex.asptr(a)
            if not (q.isobj() and q.base == self.obj.base): raise Unsupported("unknown vector")
        def sz(ex_, st_, a, i): own(a[0]); return ("val", self.n)
        def em(ex_, st_, a, i): own(a[0]); return ("val", simplify(bv(self.n, 64) == 0))
        def at(ex_, st_, a, i):
            own(a[0]); j = bv(a[1], 64); ex_.oblige(st_, "vector: index in range", ULT(j, bv(self.n, 64)))
            return ("val", Ptr(simplify(self.base + 16 * j), self.rt, 0, ()))
        def it(off):
            def f(ex_, st_, a, i): own(a[0]); return ("val", Ptr(simplify(self.base + 16 * bv(self.n, 64) if off else self.base), self.rt, 0, ()))
            return f
        ex.contracts += [(lambda d: d == CV + "::size() const", sz), (lambda d: d == CV + "::empty() const", em),
                         (lambda d: d in (CV + "::operator[](unsigned long) const", CV + "::at(unsigned long) const"), at),
                         (lambda d: d in (CV + "::begin() const", CV + "::cbegin() const"), it(0)), (lambda d: d in (CV + "::end() const", CV + "::cend() const"), it(1))]

def distance_contract(D, d):
    """distance of two iterators into one vector; d: the distance expected (elements)"""
    def h(ex, st, args, i):
        a, b = (bv(D.norm(D.ctx.cell(st, x, 0, PTR)), 64) for x in args[:2])
        if not ex.quickprove(st, b - a == -16 * d): raise Unsupported("distance of other iterators")
        return ("val", d)
    def rev(ex, st, args, i):
        a, b = (bv(D.norm(x), 64) for x in args[:2])
        if not ex.quickprove(st, b - a == 16 * d): raise Unsupported("distance of other iterators")
        return ("val", d)
    return [(lambda n: "__gnu_cxx::operator-<std::complex<double> const*" in n, h), (lambda n: "std::distance<%s" % CIT in n, rev)]

def state_contract(D, terms):
    """makeStateFromVector(begin, end, level): the vector block of 2^(level+1) amplitudes at begin, as a diagram; the weight is a scratch number"""
    def h(ex, st, args, i):
        out, this, pb, pe, level = args[:5]
        a, b = (bv(D.norm(D.ctx.cell(st, x, 0, PTR)), 64) for x in (pb, pe)); l = bv(level, 8)
        for t in terms:
            if ex.quickprove(st, a == t): a = t; break
        ex.oblige(st, "makeStateFromVector: level", And(l >= 0, l <= 60))
        ex.oblige(st, "makeStateFromVector: block size", b - a == (BitVecVal(32, 64) << SignExt(56, l)))
        v = (ex.fresh("block.re", RealSort()), ex.fresh("block.im", RealSort()))
        p, r, m = D.zero_or_scratch(st, "v", v, "block")
        st.assume(ceq(D.edge_sem("v", v, p), app(STATE, l, a)))
        st.assume(Or(r == D.bz, D.effl(st, "v", p) == l))
        st.ghost["blocks"] = st.ghost.get("blocks", ()) + ((a, l),)
        D.put_edge(st, out, p, r, m); D.track(st, "nodes", ("v", p))
        return ("val", None)
    return (is_rec, h)

def iterator(ctx, st, name, a):
    o = ctx.obj(st, name, "class.__gnu_cxx::__normal_iterator", False)
    ctx.setcell(st, o, 0, PTR, a); return o

def t_vec_rec(case, sel):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(is_rec); ctx.loc = fn.dem
        st = D.state(); st.assume(D.bot == 0)
        a = Concat(BitVec("begin", 61), BitVecVal(0, 3)); L = BitVecVal(0, 8) if case == "pair" else BitVec("L", 8)
        st.assume([UGE(a, BitVecVal(1 << 40, 64)), ULT(a, BitVecVal(1 << 46, 64))])
        size = simplify(BitVecVal(2, 64) << SignExt(56, L)); rt = ex.canon("class.std::complex")
        half = simplify(BitVecVal(16, 64) << SignExt(56, L))                                   # bytes
        if case == "pair":
            q = Ptr(simplify(a + 16 * sel), rt, 0, ()); st.assume(ceq(app(STATE, L, a), (ctx.cell(st, q, 0, DBL), ctx.cell(st, q, 8, DBL))))
        else:
            st.assume([L >= 1, L <= 29])
            st.assume(ceq(app(STATE, L, a), app(STATE, L - 1, a + half if sel else a)))
        st.assume(ceq(app(AMP["v"], BitVecVal(D.T["v"], 64)), C1))
        ex.contracts += distance_contract(D, size) + [state_contract(D, [a, a + half])]
        D.makeDDNode("v", lambda ex_, st_, k, v8, es, p, rr, m, v: st_.assume(ceq(app(AMP["v"], p), app(TOP[("v", sel)], p))))
        out, *_ = D.edge(st, "v", "out")
        b, e = iterator(ctx, st, "begin", a), iterator(ctx, st, "end", simplify(a + 16 * size))
        ctx.reach(st, "block"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, b, e, 0 if case == "pair" else L]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(s, out); v = D.cval(s, r, i)
            for g, n in zip(ceq(D.edge_sem("v", v, p), app(STATE, L, a)), ("re", "im")): ctx.oblige(s, "amplitude." + n, g)
            ctx.oblige(s, "level", D.level_ok(s, "v", p, r, i, L)); ctx.oblige(s, "zero-is-terminal", And(p != 0, Implies(And(D.zeroh(r), D.zeroh(i)), D.isT("v", p))))
            D.scratch_or_zero(ctx, s, r, i); D.leak_check(ctx, s, [(r, i)]); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::makeStateFromVector recursive (%s %d)" % (case, sel), "", run, merge=False)

MAXL = 29
def t_vec(case):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(is_top); ctx.loc = fn.dem
        st = D.state(); st.assume(D.bot == 0); nq = BitVec("nqubits", 64); st.assume([UGE(nq, 1), ULE(nq, 128)])
        ctx.setcell(st, Ptr(D.pkg.base, D.pkg.rt, D.member("nqubits"), ()), 0, ir.INT(64), nq)
        ex.contracts.append((lambda d: d.startswith("__gnu_cxx::__enable_if<__is_integer<unsigned long>::__value, double>::__type std::log2<unsigned long>("), log2_contract))
        n = 0 if case == "empty" else 1 << case if type(case) is int else BitVec("length", 64)
        if case == "other length": st.assume((n & (n - 1)) != 0)
        amps = Amps(D, st, n); ex.contracts.append(state_contract(D, [amps.base]))
        st.assume(ceq(app(AMP["v"], BitVecVal(D.T["v"], 64)), C1))
        out, *_ = D.edge(st, "v", "out")
        if case == 0: q = Ptr(amps.base, amps.rt, 0, ()); want = (ctx.cell(st, q, 0, DBL), ctx.cell(st, q, 8, DBL))
        elif type(case) is int: want = app(STATE, BitVecVal(case - 1, 8), amps.base)
        ctx.reach(st, str(case)); st0 = st.copy()
        large = UGT(BitVecVal(case, 64), nq) if type(case) is int else None
        for o in ctx.call(st, fn, [out, D.pkg, amps.obj]):
            s = o.state
            if case == "other length": ctx.oblige(s, "rejected", BoolVal(o.kind == "throw")); continue
            if o.kind == "throw": ctx.oblige(s, "only too large requests are rejected", large if large is not None else BoolVal(False)); continue
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(s, out); v = D.cval(s, r, i)
            if case == "empty": ctx.oblige(s, "empty-is-one", And(D.isT("v", p), r == D.bo, i == D.bz)); continue
            ctx.oblige(s, "too large requests are rejected", Not(large))
            for g, nm in zip(ceq(D.edge_sem("v", v, p), want), ("re", "im")): ctx.oblige(s, "amplitude." + nm, g)
            ctx.oblige(s, "level", D.level_ok(s, "v", p, r, i, BitVecVal((case - 1) % 256, 8)))
            D.result_stored(ctx, s, r, i); D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::makeStateFromVector (%s)" % case, "", run, merge=False)

def tasks(mod):
    return [t_make("v", False, (0, 0), first_kept, ", equal magnitudes"), t_zero(), t_bits(), t_basis()] + [t_vec_rec(c, j) for c in ("pair", "blocks") for j in range(2)] + [t_vec(c) for c in ["empty", "other length"] + list(range(0, MAXL + 2))]
