"""C16: Package::trace, partialTrace.

The marking is a sequence of bits ELIM(l); ELB(l) = number of marked levels <= l, RL(l) = l - ELB(l) the level a kept level l has in
the result.  One arbitrary but fixed index assignment of the kept levels is used throughout (SEL(l): the successor selected at the
kept level l), and PT(p) is the entry of the partial trace of the node p there:
    PT(terminal) = 1;   marked level: PT(p) = w0 * PT(c0) + w3 * PT(c3);   kept level: PT(p) = w_j * PT(c_j),  j = SEL(level).
Contract of trace(a):  value(result) * AMP(result) = value(a) * PT(a), the result being at level RL(level of a).  Lowest level is 0."""
from ..ddm import *
from ..bits import Bits
from .dd_add import add2_contract
from .kron import nzmul, t_lemma as t_nz

PT = fpair("PT")
ELIM = Function("ELIM", P, BoolSort())
ELB = Function("ELB", BitVecSort(8), P)
N, COUNT = BitVec("marks.size", 64), BitVec("marks.count", 64)
ANY, ALL = Bool("some_mark"), Bool("all_marks")
NAME = PKG + "trace(dd::Edge<dd::mNode> const&, std::vector<bool"

def sx(l): return SignExt(56, l)
def RL(l): return l - Extract(7, 0, ELB(l))
def marks(D, ctx, st, bits):
    st.assume([D.bot == 0, ULT(N, 128), ULE(COUNT, N), ANY == (COUNT != 0), ALL == (COUNT == N)])
    return bits.new(ctx, st, "eliminate", lambda k: ELIM(k), N, any=ANY, all=ALL, count=COUNT)
def elb_def(st, l):
    """definition of ELB at level l >= 0, and its range at l and l - 1"""
    st.assume([ELB(l) == ELB(l - 1) + If(ELIM(sx(l)), BitVecVal(1, 64), BitVecVal(0, 64)), ULE(ELB(l), COUNT), ULE(ELB(l), sx(l) + 1), ULE(ELB(l - 1), sx(l)), ELB(BitVecVal(255, 8)) == 0])
def levinv(D, st, p):
    """node invariant: a node other than the terminal is at a level >= 0 (C10: makeDDNode gets the level of its caller)"""
    return And(Or(D.isT("m", p), And(D.lev(st, "m", p) >= 0, D.lev(st, "m", p) <= 126)), p != 0)
def none_def(D, st, p):
    """no mark set: nothing is eliminated below, PT is AMP (induction step: the lemma task)"""
    l = D.effl(st, "m", p)
    st.assume(Implies(Not(ANY), And(ELB(l) == 0, *ceq(app(PT, p), app(AMP["m"], p)))))

def post(D, st, a, va, za, p, r, m, v):
    z = And(r == D.bz, m == D.bz)
    return [("trace.re", ceq(D.edge_sem("m", v, p), cmul(va, app(PT, a)))[0]), ("trace.im", ceq(D.edge_sem("m", v, p), cmul(va, app(PT, a)))[1]),
            ("zero-is-terminal", Implies(z, D.isT("m", p))), ("zero-iff-value-zero", z == And(v[0] == 0, v[1] == 0)),
            ("level", Or(z, D.effl(st, "m", p) == RL(D.effl(st, "m", a)))), ("node-level", levinv(D, st, p))]

def trace_contract(D, bits, partial=False):
    def h(ex, st, args, i):
        out, this, pa = args[:3]
        p, r, m = D.read_edge(st, pa); va = D.cval(st, r, m); za = And(D.zeroh(r), D.zeroh(m))
        rec = bits.of(st, args[3]); l = D.effl(st, "m", p)
        already = BitVecVal(0, 64) if partial else bv(args[4], 64)
        q = ex.fresh("any_index", P); st1 = st
        ex.oblige(st, "trace: marks", And(bv(rec["n"], 64) == N, Implies(ULT(q, N), rec["f"](q) == ELIM(q))))
        ex.oblige(st, "trace: number of levels eliminated so far", Or(za, already == COUNT - ELB(l), ELB(l) == sx(l) + 1))
        ex.oblige(st, "trace: level is marked or kept", Or(za, D.isT("m", p), And(l >= 0, sx(l) < N)))
        for x in (r, m):
            if not D.is_stored(st, x): ex.oblige(st, "trace: operand has a stored weight", Or(bv(x, 64) == D.bz, bv(x, 64) == D.bo))
        v = (ex.fresh("tr.re", RealSort()), ex.fresh("tr.im", RealSort()))
        D.expire(st); t = ex.fresh("tr.p", P); hr, hi = D.lookupc(st, v)
        st.assume([g for _, g in post(D, st, p, va, za, t, hr, hi, v)])
        D.put_edge(st, out, t, hr, hi); D.track(st, "nodes", ("m", t))
        return ("val", None)
    name = PKG + "partialTrace(" if partial else NAME
    return (lambda d: d.startswith(name) and "::{lambda" not in d, h)

def t_trace(case, sel=0):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex; bits = Bits(D)
        fn = ctx.fn(lambda d: d.startswith(NAME) and "::{lambda" not in d); ctx.loc = fn.dem
        pred, a2 = add2_contract(D, "m")
        def sum_(ex_, st_, args, i):
            r = a2(ex_, st_, args, i)
            e = D.read_edge(st_, args[0]); D.track(st_, "sums", D.cval(st_, e[1], e[2])); st_.assume(levinv(D, st_, e[0]))
            return r
        ex.contracts += [trace_contract(D, bits), (pred, sum_)]
        st = D.state(); msk = marks(D, ctx, st, bits)
        out, *_ = D.edge(st, "m", "out"); T = BitVecVal(D.T["m"], 64)
        if case == "zero": pa, a, ar, ai = D.edge(st, "m", "a", T, D.bz, D.bz)
        else: pa, a, ar, ai = D.edge(st, "m", "a", T if case == "terminal" else None)
        for h in (ar, ai): D.store_ok(st, h); st.assume((VALF(h) == 0) == (h == D.bz))
        za = And(ar == D.bz, ai == D.bz); va = D.cval(st, ar, ai)
        st.assume([a != 0, *ceq(app(PT, T), C1), ELB(BitVecVal(255, 8)) == 0])
        already = BitVec("already", 64); la = D.effl(st, "m", a)
        L = BitVec("L", 8)
        if case in ("marked", "kept"):
            st.assume(Not(za))
            kids = D.node(st, "m", a, L, sem=False); la = L
            st.assume([sx(L) < N, ELIM(sx(L)) == (case == "marked")]); elb_def(st, L)
            t = [cmul((VALF(r), VALF(i)), app(PT, c)) for c, r, i in kids]
            st.assume(ceq(app(PT, a), cadd(t[0], t[3]) if case == "marked" else t[sel]))
            for c, r, i in kids: st.assume(levinv(D, st, c))
        st.assume(Or(za, already == COUNT - ELB(la), ELB(la) == sx(la) + 1))
        none_def(D, st, a); st.assume(levinv(D, st, a))
        def extra(ex_, st_, k, var8, es, p, r, m, v):
            st_.assume(ceq(app(AMP["m"], p), app(TOP[("m", sel)], p)))
            st_.assume([var8 >= 0, var8 <= 126]) if ex_.quickprove(st_, And(var8 >= 0, var8 <= 126)) else ex_.oblige(st_, "makeDDNode: level", And(var8 >= 0, var8 <= 126))
            st_.assume(p != 0)
        D.makeDDNode("m", extra)
        ctx.reach(st, "operand"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, pa, msk, already]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(s, out); v = D.cval(s, r, i); D.hints(s)
            # a product of non-zero numbers is not zero (proved as a lemma task of C13)
            for w in s.ghost.get("sums", ()): s.assume(nzmul(w, va))
            for n, g in post(D, s, a, va, za, p, r, i, v): ctx.oblige(s, n, g)
            D.result_stored(ctx, s, r, i); D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
            e = D.read_edge(s, pa); ctx.oblige(s, "operand-unchanged", And(e[0] == a, e[1] == ar, e[2] == ai))
    t = Task("Package::trace (%s%s)" % (case, " %d" % sel if case == "kept" else ""), "", run, merge=False, budget=400)
    t.cost = 20 if case in ("marked", "kept") else 1; t.par = 2
    return t

def t_partial():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex; bits = Bits(D)
        fn = ctx.fn(lambda d: d.startswith(PKG + "partialTrace(")); ctx.loc = fn.dem
        ex.contracts += [trace_contract(D, bits)]
        st = D.state(); msk = marks(D, ctx, st, bits)
        out, *_ = D.edge(st, "m", "out"); pa, a, ar, ai = D.edge(st, "m", "a")
        for h in (ar, ai): D.store_ok(st, h); st.assume((VALF(h) == 0) == (h == D.bz))
        za = And(ar == D.bz, ai == D.bz); va = D.cval(st, ar, ai); la = D.effl(st, "m", a)
        # the marking names every qubit of the matrix, and marks no other (or everything is traced out)
        st.assume([levinv(D, st, a), ELB(BitVecVal(255, 8)) == 0, Or(za, D.isT("m", a), sx(la) < N), Or(za, COUNT == ELB(la), ELB(la) == sx(la) + 1)])
        ctx.reach(st, "operand"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, pa, msk]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(s, out); v = D.cval(s, r, i)
            for n, g in post(D, s, a, va, za, p, r, i, v): ctx.oblige(s, n, g)
            D.result_stored(ctx, s, r, i); D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::partialTrace", "", run, merge=False)

def t_full():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex; bits = Bits(D)
        fn = ctx.fn(lambda d: d == PKG + "trace(dd::Edge<dd::mNode> const&)"); ctx.loc = fn.dem
        ex.contracts += [trace_contract(D, bits), trace_contract(D, bits, True)]
        st = D.state()
        pa, a, ar, ai = D.edge(st, "m", "a")
        for h in (ar, ai): D.store_ok(st, h); st.assume((VALF(h) == 0) == (h == D.bz))
        za = And(ar == D.bz, ai == D.bz); va = D.cval(st, ar, ai); la = D.effl(st, "m", a)
        # every level is eliminated: ELIM is true everywhere, so ELB(l) = l + 1 (by induction from ELB(l) = ELB(l - 1) + 1, ELB(-1) = 0)
        nq = BitVec("nqubits", 64)
        ctx.setcell(st, Ptr(D.pkg.base, D.pkg.rt, D.member("nqubits"), ()), 0, ir_int(64), nq)
        st.assume([D.bot == 0, N == nq, ULT(N, 128), ELB(BitVecVal(255, 8)) == 0, ELB(la) == sx(la) + 1, levinv(D, st, a), Or(za, D.isT("m", a), sx(la) < nq)])
        q = Function("ELIM", P, BoolSort())
        ex.defs["elim_all"] = True
        x = BitVec("x", 64); st.assume(ForAll([x], ELIM(x)))
        ctx.reach(st, "operand"); st0 = st.copy()
        for o in ctx.call(st, fn, [D.pkg, pa]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            for g, n in zip(ceq(o.ret, cmul(va, app(PT, a))), ("re", "im")): ctx.oblige(s, "trace." + n, g)
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::trace (all qubits)", "", run, merge=False)

def ir_int(w):
    from .. import ir
    return ir.INT(w)

def t_lemma():
    def run(ctx):
        D = DD(ctx); st = D.state(); ctx.loc = "lemma: without marks the partial trace is the matrix"
        a = BitVec("a", 64); L = BitVec("L", 8); kids = D.node(st, "m", a, L, sem=False)
        st.assume([D.bot == 0, Not(ELIM(sx(L))), ELB(L) == ELB(L - 1), ELB(BitVecVal(255, 8)) == 0])
        sel = [Bool("SEL%d" % j) for j in range(4)]; st.assume(Or(*sel))
        for j, (c, r, i) in enumerate(kids):
            st.assume(Implies(sel[j], And(*ceq(app(PT, a), cmul((VALF(r), VALF(i)), app(PT, c))), *ceq(app(AMP["m"], a), cmul((VALF(r), VALF(i)), app(AMP["m"], c))))))
            # induction hypothesis (the terminal: PT = AMP = 1, ELB = 0)
            st.assume([*ceq(app(PT, c), app(AMP["m"], c))])
        st.assume(ELB(L - 1) == 0)
        ctx.reach(st, "step")
        for j in range(4):
            s = st.copy(); s.assume(sel[j])
            for g, n in zip(ceq(app(PT, a), app(AMP["m"], a)), ("re", "im")): ctx.oblige(s, "step.%d.%s" % (j, n), g)
        ctx.oblige(st, "step.count", ELB(L) == 0)
    return Task("lemma: partial trace without marks", "", run, merge=False)

def tasks(mod): return [t_trace("zero"), t_trace("terminal"), t_trace("marked")] + [t_trace("kept", j) for j in range(4)] + [t_partial(), t_full(), t_lemma(), t_nz()]
