"""C15: Package::innerProduct, fidelity, expectationValue.

IP(p, q) = sum over all indices of conj(entry of p) * (entry of q), for nodes p, q at the same level:
    IP(T, T) = 1;   IP(p, q) = sum_j conj(w_j(p)) * w_j(q) * IP(child_j(p), child_j(q)).
The recursive innerProduct takes its left operand with the weight already conjugated: result = value_x * value_y * IP(x, y).
Lowest level 0."""
from ..ddm import *

IP = (Function("IPr", P, P, RealSort()), Function("IPi", P, P, RealSort()))
SIG = PKG + "innerProduct(dd::Edge<dd::vNode> const&, dd::Edge<dd::vNode> const&"
REC = SIG + ", signed char)"; PUB = SIG + ")"

def zero(D, e): return And(D.zeroh(e[1]), D.zeroh(e[2]))
def same_level(D, st, x, y): return Or(zero(D, x), zero(D, y), D.effl(st, "v", x[0]) == D.effl(st, "v", y[0]))
def levinv(D, st, p): return And(p != 0, Or(D.isT("v", p), And(D.lev(st, "v", p) >= 0, D.lev(st, "v", p) <= 126)), D.isT("v", p) == (D.lev(st, "v", p) == 255))
def alive(D, st, e, what):
    """nodes that nobody references are gone after a garbage collection"""
    for dead in st.ghost.get("collected", ()): D.ex.oblige(st, what + ": node still stored", Or(e[0] != dead, D.isT("v", e[0])))

def rec_contract(D):
    def h(ex, st, args, i):
        this, px, py, var = args[:4]
        x, y = D.read_edge(st, px), D.read_edge(st, py)
        alive(D, st, x, "innerProduct"); alive(D, st, y, "innerProduct")
        vx, vy = D.cval(st, x[1], x[2]), D.cval(st, y[1], y[2])
        l = bv(var, 8) - 1
        ex.oblige(st, "innerProduct: operands are zero or at the level below var", Or(And(vx[0] == 0, vx[1] == 0), And(vy[0] == 0, vy[1] == 0), And(D.effl(st, "v", x[0]) == l, D.effl(st, "v", y[0]) == l)))
        n = D.wnum(st)
        if n.temp is not None: n.dead = n.dead | {t.get_id() for t in n.temp}; n.temp = None
        n.dead = n.dead | n.freed; n.freed = frozenset()
        v = (ex.fresh("ip.re", RealSort()), ex.fresh("ip.im", RealSort()))
        st.assume(ceq(v, cmul(cmul(vx, vy), app(IP, x[0], y[0]))))
        return ("val", v)
    return (REC, h)

def pub_contract(D):
    def h(ex, st, args, i):
        this, px, py = args[:3]
        x, y = D.read_edge(st, px), D.read_edge(st, py)
        alive(D, st, x, "innerProduct"); alive(D, st, y, "innerProduct")
        ex.oblige(st, "innerProduct: operands are zero or at the same level", And(same_level(D, st, x, y), x[0] != 0, y[0] != 0))
        v = (ex.fresh("ip.re", RealSort()), ex.fresh("ip.im", RealSort()))
        st.assume(ceq(v, cmul(cmul(cconj(D.cval(st, x[1], x[2])), D.cval(st, y[1], y[2])), app(IP, x[0], y[0]))))
        return ("val", v)
    return (PUB, h)

def t_rec(case):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(REC); ctx.loc = fn.dem
        ex.contracts.append(rec_contract(D))
        def rel(st, x, y, p, v): return ceq(v, cmul(cmul(x[1], y[1]), app(IP, x[0], y[0])))
        D.memo({"vectorInnerProduct": dict(left="edge", right="edge", kind="v", rel=rel)})
        st = D.state(); st.assume(D.bot == 0); T = BitVecVal(D.T["v"], 64)
        tx = case in ("terminal", "zero x"); ty = case in ("terminal", "zero y")
        px, x, xr, xi = D.edge(st, "v", "x", T if tx else None, *((D.bz, D.bz) if case == "zero x" else ()))
        py, y, yr, yi = D.edge(st, "v", "y", T if ty else None, *((D.bz, D.bz) if case == "zero y" else ()))
        vx, vy = D.cval(st, xr, xi), D.cval(st, yr, yi)
        st.assume(ceq(app(IP, T, T), C1)); st.assume([x != 0, y != 0])
        var = BitVec("var", 8); L = BitVec("L", 8)
        if case == "terminal": st.assume(var == 0)
        elif case == "node":
            xs, ys = D.node(st, "v", x, L, sem=False), D.node(st, "v", y, L, sem=False)
            st.assume([var == L + 1])
            t = C0
            for (c, cr, ci), (d, dr, di) in zip(xs, ys): t = cadd(t, cmul(cmul(cconj((VALF(cr), VALF(ci))), (VALF(dr), VALF(di))), app(IP, c, d)))
            st.assume(ceq(app(IP, x, y), t))
        ctx.reach(st, "operands"); st0 = st.copy()
        for o in ctx.call(st, fn, [D.pkg, px, py, var]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            D.hints(s)
            for g, n in zip(ceq(o.ret, cmul(cmul(vx, vy), app(IP, x, y))), ("re", "im")): ctx.oblige(s, "inner-product." + n, g)
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
            for o1, p1, r1, i1 in ((px, x, xr, xi), (py, y, yr, yi)):
                e = D.read_edge(s, o1); ctx.oblige(s, "operand-unchanged", And(e[0] == p1, e[1] == r1, e[2] == i1))
    t = Task("Package::innerProduct recursive (%s)" % case, "", run, merge=False, budget=400); t.cost = 20 if case == "node" else 1
    return t

def operands(D, st):
    px, x, xr, xi = D.edge(st, "v", "x"); py, y, yr, yi = D.edge(st, "v", "y")
    for h in (xr, xi, yr, yi): D.store_ok(st, h); st.assume((VALF(h) == 0) == (h == D.bz))
    st.assume([D.bot == 0, levinv(D, st, x), levinv(D, st, y), same_level(D, st, (x, xr, xi), (y, yr, yi))])
    return (px, x, xr, xi), (py, y, yr, yi), D.cval(st, xr, xi), D.cval(st, yr, yi)

def t_pub(which):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(PUB if which == "innerProduct" else PKG + "fidelity(dd::Edge<dd::vNode> const&, dd::Edge<dd::vNode> const&)"); ctx.loc = fn.dem
        ex.contracts += [rec_contract(D)] + ([pub_contract(D)] if which == "fidelity" else [])
        st = D.state(); (px, x, xr, xi), (py, y, yr, yi), vx, vy = operands(D, st)
        want = cmul(cmul(cconj(vx), vy), app(IP, x, y))
        ctx.reach(st, "operands"); st0 = st.copy()
        for o in ctx.call(st, fn, [D.pkg, px, py]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            D.hints(s)
            if which == "fidelity": ctx.oblige(s, "squared-magnitude", o.ret == want[0] * want[0] + want[1] * want[1])
            else:
                for g, n in zip(ceq(o.ret, want), ("re", "im")): ctx.oblige(s, "inner-product." + n, g)
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
            for o1, p1, r1, i1 in ((px, x, xr, xi), (py, y, yr, yi)):
                e = D.read_edge(s, o1); ctx.oblige(s, "operand-unchanged", And(e[0] == p1, e[1] == r1, e[2] == i1))
    return Task("Package::" + which, "", run, merge=False)

def t_exp():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(PKG + "expectationValue(dd::Edge<dd::mNode> const&, dd::Edge<dd::vNode> const&)"); ctx.loc = fn.dem
        st = D.state(); T = BitVecVal(D.T["v"], 64)
        px, x, xr, xi = D.edge(st, "m", "x"); py, y, yr, yi = D.edge(st, "v", "y")
        for h in (xr, xi, yr, yi): D.store_ok(st, h); st.assume((VALF(h) == 0) == (h == D.bz))
        vx, vy = D.cval(st, xr, xi), D.cval(st, yr, yi)
        zx, zy = And(xr == D.bz, xi == D.bz), And(yr == D.bz, yi == D.bz)
        st.assume([D.bot == 0, levinv(D, st, y), x != 0, Or(D.isT("m", x), D.lev(st, "m", x) >= 0), D.isT("m", x) == (D.lev(st, "m", x) == 255), Implies(zy, D.isT("v", y)), Implies(zx, D.isT("m", x))])
        # the operator applied to the state (C12): node and value
        pp = BitVec("applied.p", 64); vp = Reals("applied.re applied.im"); hr, hi = BitVecs("applied.w.r applied.w.i", 64)
        calls = []
        def mul(ex_, st_, args, i):
            out, this, a, b = args[:4]
            e, f = D.read_edge(st_, a), D.read_edge(st_, b)
            ex_.oblige(st_, "expectationValue: the operator is applied to the state", And(e[0] == x, f[0] == y, *ceq(cmul(D.cval(st_, e[1], e[2]), D.cval(st_, f[1], f[2])), cmul(vx, vy))))
            if len(args) > 4 and type(args[4]) is int: ex_.oblige(st_, "expectationValue: lowest level", BoolVal(args[4] == 0))
            D.put_edge(st_, out, pp, hr, hi)
            return ("val", None)
        def collect(ex_, st_, args, i):
            st_.ghost["collected"] = (pp,)
            return ("val", ex_.fresh("collected", BoolSort()))
        ex.contracts += [pub_contract(D), (lambda d: d.startswith("dd::Edge<dd::vNode> " + PKG + "multiply<dd::Edge<dd::mNode>, dd::Edge<dd::vNode> >("), mul), (PKG + "garbageCollect(bool)", collect)]
        for h, v in ((hr, vp[0]), (hi, vp[1])): D.store_ok(st, h); st.assume([(VALF(h) == 0) == (h == D.bz), VALF(h) == v])
        zp = And(hr == D.bz, hi == D.bz)
        st.assume([levinv(D, st, pp), Implies(zp, D.isT("v", pp)), Or(zp, D.effl(st, "v", pp) == D.effl(st, "v", y))])
        differ = D.effl(st, "m", x) != D.effl(st, "v", y)
        want = cmul(cmul(cconj(vy), tuple(vp)), app(IP, y, pp))
        ctx.reach(st, "operands"); st0 = st.copy()
        for o in ctx.call(st, fn, [D.pkg, px, py]):
            s = o.state
            if o.kind == "throw":
                ctx.oblige(s, "rejected-only-on-different-sizes", differ); continue
            ctx.oblige(s, "different-sizes-are-rejected", Not(differ))
            ctx.oblige(s, "real-part-of-inner-product", o.ret == want[0])
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::expectationValue", "", run, merge=False)

def tasks(mod): return [t_rec(c) for c in ("zero x", "zero y", "terminal", "node")] + [t_pub("innerProduct"), t_pub("fidelity"), t_exp()]
