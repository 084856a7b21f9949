"""C13: Package::kronecker2, kronecker, extend (default mode: the left operand is moved above the right one).

AMPS(s, p) is the entry of the node p at the fixed index assignment moved down by s levels (level l of p uses the bits of level
l + s);  TOPS_j(s, p) the same with the bits of p's own level selecting successor j.  The tensor product is
    value * AMP(result) = value_x * AMPS(s, x) * value_y * AMP(y),    s = number of levels of y.
The lowest level is 0 (see Package::kronecker: levels start at 0)."""
from ..ddm import *
from .ident import SEL, IDENT, diag, ident_def, ladder, ident_contract

I8 = BitVecSort(8)
AMPS = {k: (Function("AMPS%sr" % k, I8, P, RealSort()), Function("AMPS%si" % k, I8, P, RealSort())) for k in "vm"}
ISI = 16
def n_kron2(k): return "dd::Edge<%s> %skronecker2<%s>(" % (CPP[k], PKG, CPP[k])
def n_kron(k): return "dd::Edge<%s> %skronecker<dd::Edge<%s> >(" % (CPP[k], PKG, CPP[k])

def operands(D, st, px, py, k):
    x, y = D.read_edge(st, px), D.read_edge(st, py)
    return x, y, D.cval(st, x[1], x[2]), D.cval(st, y[1], y[2]), And(D.zeroh(x[1]), D.zeroh(x[2])), And(D.zeroh(y[1]), D.zeroh(y[2]))

def nz(v): return Or(v[0] != 0, v[1] != 0)
def nzmul(a, b):
    """a product of non-zero numbers is not zero (proved as the lemma task)"""
    return Implies(And(nz(a), nz(b)), nz(cmul(a, b)))

def product(D, st, k, x, y, vx, vy, p, v):
    s = D.effl(st, k, y) + 1
    for t in getattr(D, "shifts", ()):
        if D.ex.quickprove(st, s == t): s = t; break
    return ceq(D.edge_sem(k, v, p), cmul(cmul(vx, app(AMPS[k], s, x)), cmul(vy, app(AMP[k], y))))

def kron_contract(D, k, cached, pre=True):
    name = n_kron2(k) if cached else n_kron(k)
    def h(ex, st, args, i):
        out, this, px, py = args[:4]
        x, y, vx, vy, zx, zy = operands(D, st, px, py, k)
        ex.oblige(st, "kronecker: default mode", bv(args[4], 1) == 1 if type(args[4]) is not bool else BoolVal(args[4]))
        for hh in (y[1], y[2]):
            if not D.is_stored(st, hh): ex.oblige(st, "kronecker: right operand has a stored weight", Or(hh == D.bz, hh == D.bo))
        v = (ex.fresh("kron.re", RealSort()), ex.fresh("kron.im", RealSort()))
        if cached: p, r, m = D.zero_or_scratch(st, k, v, "kron")
        else:
            D.expire(st); p = ex.fresh("kron.p", P); r, m = D.lookupc(st, v)
            st.assume([p != 0, Implies(And(r == D.bz, m == D.bz), D.isT(k, p))])
        z = And(r == D.bz, m == D.bz)
        st.assume(product(D, st, k, x[0], y[0], vx, vy, p, v))
        st.assume([z == Or(zx, zy), Or(z, nz(v)), Or(z, D.effl(st, k, p) == D.effl(st, k, x[0]) + D.effl(st, k, y[0]) + 1)])
        st.assume(Implies(Not(z), D.isT(k, p) == And(D.isT(k, x[0]), D.isT(k, y[0]))))
        D.put_edge(st, out, p, r, m); D.track(st, "nodes", (k, p))
        return ("val", None)
    return (lambda d: d.startswith(name), h)

def rel(D, k):
    def f(st, x, y, p, v):
        out = product(D, st, k, x[0], y[0], x[1], y[1], p, v)
        z = And(v[0] == 0, v[1] == 0)
        out += [Not(z), D.effl(st, k, p) == D.effl(st, k, x[0]) + D.effl(st, k, y[0]) + 1, Not(D.isT(k, p))]
        return out
    return f

def t_kron2(k, case, sel=0):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(n_kron2(k))); ctx.loc = fn.dem
        ex.contracts.append(kron_contract(D, k, True))
        D.memo({dict(v="vectorKronecker", m="matrixKronecker")[k]: dict(left="edge", right="edge", kind=k, rel=rel(D, k))})
        for j in (sel,):
            st = D.state(); st.assume([D.bot == 0])
            T = BitVecVal(D.T[k], 64)
            out, *_ = D.edge(st, k, "out")
            if case == "zero x": px, x, xr, xi = D.edge(st, k, "x", T, D.bz, D.bz)
            else: px, x, xr, xi = D.edge(st, k, "x", T if case == "terminal x" else None)
            py, y, yr, yi = D.edge(st, k, "y")
            for h in (xr, xi, yr, yi): D.store_ok(st, h); st.assume((VALF(h) == 0) == (h == D.bz))
            zx, zy = And(xr == D.bz, xi == D.bz), And(yr == D.bz, yi == D.bz)
            ly = D.effl(st, k, y)
            st.assume([y != 0, Implies(zy, D.isT(k, y)), Or(D.isT(k, y), And(D.lev(st, k, y) >= 0, D.lev(st, k, y) <= 126)), D.isT(k, y) == (D.lev(st, k, y) == 255)])
            s = ly + 1
            st.assume(ceq(app(AMPS[k], s, T), C1))
            L = D.bot - 1
            if case == "node":
                L = BitVec("L", 8)
                st.assume(Not(zx))
                kids = D.node(st, k, x, L, sem=False)
                st.assume(Or(*[Or(VALF(r) != 0, VALF(i) != 0) for c, r, i in kids]))          # a stored node is not zero
                st.assume([L + s >= L, L + s <= 126])
                top = L + s
                # the fixed assignment selects successor j at the top level
                st.assume(SEL(top) == j)
                c, r, i = kids[j]
                st.assume(ceq(app(AMPS[k], s, x), cmul((VALF(r), VALF(i)), app(AMPS[k], s, c))))
                if k == "m":
                    ident_def(st, s, top); ident_def(st, s, s); ident_def(st, s, s - 1)
                    f = D.flags(st, "m", x)
                    st.assume(Implies(f & ISI != 0, And(*ceq(app(AMPS["m"], s, x), (IDENT(s, top), RealVal(0))))))
            def extra(ex_, st_, kk, var8, es, p, r, m, v):
                # the selected successor of the new node; normal form: its weight is that of one of its successors (C10)
                st_.assume(Or(*[And(v[0] == w[3][0], v[1] == w[3][1]) for w in es]))
                st_.assume(nzmul(v, vx))
                if case == "node" and ex_.quickprove(st_, var8 == L + s): st_.assume(ceq(app(AMP[k], p), app(TOP[(k, j)], p)))
                else:
                    for jj in range(NSUCC[k]): st_.assume(Implies(SEL(var8) == jj, And(*ceq(app(AMP[k], p), app(TOP[(k, jj)], p)))))
            D.T_extra = extra
            D.makeDDNode(k, lambda *a: D.T_extra(*a))
            vx, vy = D.cval(st, xr, xi), D.cval(st, yr, yi); st.assume(nzmul(vx, vy))
            if case == "node": ex.loopspec = ladder(D, "levels", s, L + s, lambda q, l: cmul((IDENT(s, l), RealVal(0)), app(AMP[k], y)), weight=vy, exclude=(px, py))
            ctx.reach(st, "operands"); st0 = st.copy()
            for o in ctx.call(st, fn, [out, D.pkg, px, py, True]):
                q = o.state
                if o.kind != "ret": ctx.oblige(q, "no-exception", BoolVal(False)); continue
                p, r, i = D.read_edge(q, out); v = D.cval(q, r, i); D.hints(q)
                for g, n in zip(product(D, q, k, x, y, vx, vy, p, v), ("re", "im")): ctx.oblige(q, "product." + n, g)
                z = And(D.zeroh(r), D.zeroh(i))
                ctx.oblige(q, "zero-iff-operand-zero", z == Or(zx, zy))
                ctx.oblige(q, "value-not-zero", Or(z, nz(v)))
                ctx.oblige(q, "level", Or(z, D.effl(q, k, p) == D.effl(q, k, x) + D.effl(q, k, y) + 1))
                ctx.oblige(q, "terminal-iff-terminals", Implies(Not(z), D.isT(k, p) == And(D.isT(k, x), D.isT(k, y))))
                D.scratch_or_zero(ctx, q, r, i); D.leak_check(ctx, q, [(r, i)]); D.nodes_unchanged(ctx, q, st0)
                for o1, p1, r1, i1 in ((px, x, xr, xi), (py, y, yr, yi)):
                    e = D.read_edge(q, o1); ctx.oblige(q, "operand-unchanged", And(e[0] == p1, e[1] == r1, e[2] == i1))
    t = Task("Package::kronecker2<%s> (%s%s)" % (CPP[k][4:], case, " %d" % sel if case == "node" else ""), "", run, merge=False, budget=400)
    t.cost = 40 if k == "m" and case == "node" else 1; t.par = 2
    return t

def t_kron(k):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(n_kron(k))); ctx.loc = fn.dem
        ex.contracts.append(kron_contract(D, k, True))
        st = D.state(); st.assume([D.bot == 0])
        out, *_ = D.edge(st, k, "out")
        px, x, xr, xi = D.edge(st, k, "x"); py, y, yr, yi = D.edge(st, k, "y")
        for h in (xr, xi, yr, yi): D.store_ok(st, h)
        zx, zy = And(xr == D.bz, xi == D.bz), And(yr == D.bz, yi == D.bz)
        vx, vy = D.cval(st, xr, xi), D.cval(st, yr, yi)
        ctx.reach(st, "operands"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, px, py, True]):
            q = o.state
            if o.kind != "ret": ctx.oblige(q, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(q, out); v = D.cval(q, r, i)
            for g, n in zip(product(D, q, k, x, y, vx, vy, p, v), ("re", "im")): ctx.oblige(q, "product." + n, g)
            z = And(D.zeroh(r), D.zeroh(i))
            ctx.oblige(q, "zero-iff-operand-zero", z == Or(zx, zy))
            ctx.oblige(q, "value-not-zero", Or(z, nz(v)))
            ctx.oblige(q, "level", Or(z, D.effl(q, k, p) == D.effl(q, k, x) + D.effl(q, k, y) + 1))
            ctx.oblige(q, "terminal-iff-terminals", Implies(Not(z), D.isT(k, p) == And(D.isT(k, x), D.isT(k, y))))
            D.result_stored(ctx, q, r, i); D.leak_check(ctx, q); D.nodes_unchanged(ctx, q, st0)
    return Task("Package::kronecker<%s>" % ("vEdge" if k == "v" else "mEdge"), "", run, merge=False)

def t_extend():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(PKG + "extend(")); ctx.loc = fn.dem
        ex.contracts += [kron_contract(D, "m", False)]
        def ident_n(ex_, st_, args, i):
            """makeIdent(n), C24: the identity on levels 0..n-1, at every shift"""
            o_, this, n = args[:3]; n = Extract(7, 0, bv(n, 32)) if fnw > 8 else bv(n, 8)
            p = ex_.fresh("ident", P)
            st_.assume([p != 0, If(n == 0, D.isT("m", p), And(Not(D.isT("m", p)), D.lev(st_, "m", p) == n - 1)), *ceq(app(AMP["m"], p), (IDENT(BitVecVal(0, 8), n - 1), RealVal(0)))])
            for s_ in D.shifts: st_.assume(ceq(app(AMPS["m"], s_, p), (IDENT(s_, s_ + n - 1), RealVal(0))))
            D.put_edge(st_, o_, p, D.bo, D.bz)
            return ("val", None)
        isn = lambda d: d.startswith(PKG + "makeIdent(") and "," not in d
        g0 = ctx.fn(isn); g0.parse(); fnw = 8 * ctx.mod.size(g0.params[2][0])
        ex.contracts.append((isn, ident_n))
        for case in ("zero", "terminal", "node"):
            st = D.state(); st.assume([D.bot == 0])
            out, *_ = D.edge(st, "m", "out"); T = BitVecVal(D.T["m"], 64)
            if case == "zero": pe, e, er, ei = D.edge(st, "m", "e", T, D.bz, D.bz)
            else: pe, e, er, ei = D.edge(st, "m", "e", T if case == "terminal" else None)
            D.store_ok(st, er); D.store_ok(st, ei)
            if case != "zero": st.assume([Or(er != D.bz, ei != D.bz)] + [(VALF(h) == 0) == (h == D.bz) for h in (er, ei)])
            le = BitVecVal(255, 8)
            if case == "node":
                le = BitVec("L", 8); st.assume([e != 0, Not(D.isT("m", e)), D.lev(st, "m", e) == le, le >= 0, le <= 126])
            h, l = BitVec("h", 8), BitVec("l", 8)
            st.assume([h >= 0, l >= 0]); w = lambda t: SignExt(8, t)
            st.assume(w(le) + w(h) + w(l) <= 126)
            lo = le + l + 1
            D.shifts = [BitVecVal(0, 8), l, lo]
            st.assume(ceq(app(AMPS["m"], BitVecVal(0, 8), e), app(AMP["m"], e)))                    # no shift
            st.assume([Implies(l == 0, And(IDENT(BitVecVal(0, 8), l - 1) == 1, *ceq(app(AMPS["m"], l, e), app(AMP["m"], e)))), Implies(h == 0, IDENT(lo, lo + h - 1) == 1)])
            v = D.cval(st, er, ei)
            want = cmul(cmul(v, app(AMPS["m"], l, e)), (IDENT(BitVecVal(0, 8), l - 1) * IDENT(lo, lo + h - 1), RealVal(0)))
            ctx.reach(st, "operand"); st0 = st.copy()
            for o in ctx.call(st, fn, [out, D.pkg, pe, h, l]):
                q = o.state
                if o.kind != "ret": ctx.oblige(q, "no-exception", BoolVal(False)); continue
                p, r, i = D.read_edge(q, out); vr = D.cval(q, r, i)
                for g, n in zip(ceq(D.edge_sem("m", vr, p), want), ("re", "im")): ctx.oblige(q, "extended." + n, g)
                z = And(D.zeroh(r), D.zeroh(i))
                ctx.oblige(q, "level", Or(z, D.effl(q, "m", p) == le + h + l))
                D.result_stored(ctx, q, r, i); D.leak_check(ctx, q); D.nodes_unchanged(ctx, q, st0)
    return Task("Package::extend", "", run, merge=False)

def t_lemma():
    def run(ctx):
        ctx.loc = "lemma: a product of non-zero complex numbers is not zero"; st = ctx.state()
        a, b, c, d = Reals("a b c d")
        # (ac-bd)^2 + (ad+bc)^2 = (a^2+b^2)(c^2+d^2)
        n = a * a + b * b; m = c * c + d * d; x, y = cmul((a, b), (c, d))
        st.assume([nz((a, b)), nz((c, d))])
        ctx.lemma(st, "norm-positive.left", n > 0); ctx.lemma(st, "norm-positive.right", m > 0)
        N, M, X, Y = Reals("N M X Y")
        ctx.oblige(st, "norm-of-product", x * x + y * y == n * m)
        s2 = ctx.state(); s2.assume([N > 0, M > 0, X * X + Y * Y == N * M])
        ctx.oblige(s2, "not-zero", nz((X, Y)))
    return Task("lemma: product of non-zero numbers", "", run, merge=False)

def tasks(mod):
    return [t_kron2(k, c) for k in "vm" for c in ("zero x", "terminal x")] + [t_kron2(k, "node", j) for k in "vm" for j in range(NSUCC[k])] + [t_kron("v"), t_kron("m"), t_extend(), t_lemma()]
