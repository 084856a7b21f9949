"""C12: Package::multiply / multiply2 (matrix times vector, matrix times matrix)."""
from ..ddm import *
from .dd_add import add2_contract

# MUL[k](p, q): sum over all inner index assignments of (entry of p) * (entry of q), outer indices fixed
MUL = {k: (Function("MUL%sr" % k, P, P, RealSort()), Function("MUL%si" % k, P, P, RealSort())) for k in "vm"}
MULTOP = {(k, j): (Function("MULTOP%s%dr" % (k, j), P, P, RealSort()), Function("MULTOP%s%di" % (k, j), P, P, RealSort())) for k in "vm" for j in range(NSUCC[k])}
def name_mul2(k): return "dd::Edge<%s> %smultiply2<dd::mNode, %s>(" % (CPP[k], PKG, CPP[k])

def mul_defs(D, st, k, xs, ys, x, y):
    """definition of the product one level down: row i, column j, inner index kk"""
    cols = NSUCC[k] // 2
    for i in range(2):
        for j in range(cols):
            t = C0
            for kk in range(2):
                (c, cr, ci), (d, dr, di) = xs[2 * i + kk], ys[j + cols * kk]
                t = cadd(t, cmul(cmul((VALF(cr), VALF(ci)), (VALF(dr), VALF(di))), app(MUL[k], c, d)))
            st.assume(ceq(app(MULTOP[(k, cols * i + j)], x, y), t))
def mul_terminal(D, st, k):
    t, u = BitVecVal(D.T["m"], 64), BitVecVal(D.T[k], 64)
    st.assume(ceq(app(MUL[k], t, u), C1))

def mul2_contract(D, k):
    def h(ex, st, args, i):
        out, this, px, py, var, start = args[:6]
        x, y = D.read_edge(st, px), D.read_edge(st, py)
        vx, vy = D.cval(st, x[1], x[2]), D.cval(st, y[1], y[2])
        zx, zy = [And(D.zeroh(e[1]), D.zeroh(e[2])) for e in (x, y)]
        var8 = bv(var, 8); st8 = bv(start, 8)
        ex.oblige(st, "multiply2: lowest level is passed on", st8 == D.bot)
        ex.oblige(st, "multiply2: level at least the one below the lowest", var8 >= D.bot - 1)
        ex.oblige(st, "multiply2: left operand is zero or at the given level", Or(zx, D.effl(st, "m", x[0]) == var8))
        ex.oblige(st, "multiply2: right operand is zero or at the given level", Or(zy, D.effl(st, k, y[0]) == var8))
        v = (ex.fresh("prod.re", RealSort()), ex.fresh("prod.im", RealSort()))
        p, r, m = D.zero_or_scratch(st, k, v, "prod")
        st.assume(ceq(D.edge_sem(k, v, p), cmul(cmul(vx, vy), app(MUL[k], x[0], y[0]))))
        z = D.zeroh(r)
        st.assume([Or(z, D.effl(st, k, p) == var8), Implies(Or(zx, zy), z)])
        D.put_edge(st, out, p, r, m)
        return ("val", None)
    return (lambda d: d.startswith(name_mul2(k)), h)

def mul_memo(D, k):
    def rel(st, x, y, p, v):
        out = []
        for j in range(NSUCC[k]):
            out += ceq(D.top_sem(k, j, v, p), cmul(cmul(x[1], y[1]), app(MULTOP[(k, j)], x[0], y[0])))
        out.append(Or(And(v[0] == 0, v[1] == 0), D.effl(st, k, p) == D.effl(st, "m", x[0])))
        return out
    return {dict(v="matrixVectorMultiplication", m="matrixMatrixMultiplication")[k]: dict(left="edge", right="edge", kind=k, rel=rel)}

def t_mul2(k, leaf):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(name_mul2(k))); ctx.loc = fn.dem
        D.memo(mul_memo(D, k)); D.makeDDNode(k)
        ex.contracts += [mul2_contract(D, k), add2_contract(D, k)]
        for xz in (False, True):
            for yz in (False, True):
                st = D.state()
                mul_terminal(D, st, k)
                out, *_ = D.edge(st, k, "out")
                ops = []; kids = []
                L = D.bot - 1 if leaf else BitVec("L", 8)
                for nm, z, kk in (("x", xz, "m"), ("y", yz, k)):
                    T = BitVecVal(D.T[kk], 64)
                    if z: o, p, r, i = D.edge(st, kk, nm, T, D.bz, D.bz)
                    else:
                        o, p, r, i = D.edge(st, kk, nm, T if leaf else None)
                        if not leaf: kids.append(D.node(st, kk, p, L))
                    ops.append((o, p, r, i, kk))
                (px, x, xr, xi, _), (py, y, yr, yi, _) = ops
                if not leaf and not xz and not yz: mul_defs(D, st, k, kids[0], kids[1], x, y)
                if not leaf: st.assume([L >= D.bot, L <= 126])
                vx, vy = D.cval(st, xr, xi), D.cval(st, yr, yi)
                ctx.reach(st, "operands"); st0 = st.copy()
                var = L; start = D.bot
                for o in ctx.call(st, fn, [out, D.pkg, px, py, var, start, False]):
                    s = o.state
                    if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
                    p, r, i = D.read_edge(s, out)
                    v = D.cval(s, r, i); D.hints(s)
                    w = cmul(vx, vy)
                    if leaf:
                        for g, n in zip(ceq(D.edge_sem(k, v, p), cmul(w, app(MUL[k], x, y))), ("re", "im")): ctx.oblige(s, "product." + n, g)
                    else:
                        for j in range(NSUCC[k]):
                            for g, n in zip(ceq(D.top_sem(k, j, v, p), cmul(w, app(MULTOP[(k, j)], x, y))), ("re", "im")): ctx.oblige(s, "product.%d.%s" % (j, n), g)
                    ctx.oblige(s, "level", D.level_ok(s, k, p, r, i, L))
                    if xz or yz: ctx.oblige(s, "zero-operand-gives-zero", And(D.zeroh(r), D.zeroh(i)))
                    D.scratch_or_zero(ctx, s, r, i)
                    D.leak_check(ctx, s, [(r, i)]); D.nodes_unchanged(ctx, s, st0)
                    for (o1, p1, r1, i1, _) in ops:
                        q = D.read_edge(s, o1)
                        ctx.oblige(s, "operand-unchanged", And(q[0] == p1, q[1] == r1, q[2] == i1))
    t = Task("Package::multiply2<mNode, %s>%s" % (CPP[k][4:], " (terminal operands)" if leaf else ""), "", run, merge=False, budget=400)
    t.cost = 100 if k == "m" and not leaf else 10; t.par = 8 if k == "m" and not leaf else 2
    return t

def t_mul(k):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith("dd::Edge<%s> %smultiply<dd::Edge<dd::mNode>, dd::Edge<%s> >(" % (CPP[k], PKG, CPP[k]))); ctx.loc = fn.dem
        ex.contracts.append(mul2_contract(D, k))
        st = D.state()
        out, *_ = D.edge(st, k, "out")
        px, x, xr, xi = D.edge(st, "m", "x"); py, y, yr, yi = D.edge(st, k, "y")
        zx, zy = And(xr == D.bz, xi == D.bz), And(yr == D.bz, yi == D.bz)
        for p, kk in ((x, "m"), (y, k)):
            st.assume([p != 0, Or(D.isT(kk, p), And(D.lev(st, kk, p) >= D.bot, D.lev(st, kk, p) <= 126))])
        st.assume([D.bot <= 126, Or(zx, zy, D.effl(st, "m", x) == D.effl(st, k, y)), Implies(zx, D.isT("m", x)), Implies(zy, D.isT(k, y)),
                   Implies(And(D.isT("m", x), D.isT(k, y)), D.bot == 0)])
        vx, vy = D.cval(st, xr, xi), D.cval(st, yr, yi)
        ctx.reach(st, "operands"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, px, py, D.bot, False]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(s, out); v = D.cval(s, r, i)
            for g, n in zip(ceq(D.edge_sem(k, v, p), cmul(cmul(vx, vy), app(MUL[k], x, y))), ("re", "im")): ctx.oblige(s, "product." + n, g)
            D.result_stored(ctx, s, r, i)
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::multiply<mEdge, %s>" % (CPP[k][4:5] + "Edge"), "", run, merge=False)

def tasks(mod):
    return [t_mul2("v", False), t_mul2("v", True), t_mul2("m", False), t_mul2("m", True), t_mul("v"), t_mul("m")]
