"""C11: Package::add / add2."""
from ..ddm import *

def name_add2(k): return "dd::Edge<%s> %sadd2<%s>(" % (CPP[k], PKG, CPP[k])

def add2_contract(D, k):
    """add2(x, y): AMP(result) = AMP(x) + AMP(y); result weight is fresh scratch or exactly zero; operands unchanged"""
    def h(ex, st, args, i):
        out, this, px, py = args[:4]
        x, y = D.read_edge(st, px), D.read_edge(st, py)
        vx, vy = D.cval(st, x[1], x[2]), D.cval(st, y[1], y[2])
        zx, zy = [And(D.zeroh(e[1]), D.zeroh(e[2])) for e in (x, y)]
        ex.oblige(st, "add2: operands are zero or at the same level", Or(zx, zy, D.effl(st, k, x[0]) == D.effl(st, k, y[0])))
        v = (ex.fresh("sum.re", RealSort()), ex.fresh("sum.im", RealSort()))
        p, r, m = D.zero_or_scratch(st, k, v, "sum")
        st.assume(ceq(D.edge_sem(k, v, p), cadd(D.edge_sem(k, vx, x[0]), D.edge_sem(k, vy, y[0]))))
        z = D.zeroh(r)
        st.assume(Or(z, D.effl(st, k, p) == If(zx, D.effl(st, k, y[0]), D.effl(st, k, x[0])))); st.assume(Implies(And(zx, zy), z))
        st.assume(Implies(And(*[Or(zz, nzv(vv)) for zz, vv in ((zx, vx), (zy, vy))]), Or(z, nzv(v))))
        D.put_edge(st, out, p, r, m)
        return ("val", None)
    return (lambda d: d.startswith(name_add2(k)), h)

def nzv(v): return Or(v[0] != 0, v[1] != 0)

def add_memo(D, k):
    """a stored sum is the sum of its key operands (both at the same level)"""
    def rel(st, x, y, p, v):
        out = []
        for j in range(NSUCC[k]):
            out += ceq(D.top_sem(k, j, v, p), cadd(D.top_sem(k, j, x[1], x[0]), D.top_sem(k, j, y[1], y[0])))
        out.append(Or(And(v[0] == 0, v[1] == 0), D.effl(st, k, p) == D.effl(st, k, x[0])))
        return out
    return {dict(v="vectorAdd", m="matrixAdd", d="densityAdd")[k]: dict(left="cached", right="cached", kind=k, rel=rel)}

def t_add2(k, leaf):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(name_add2(k))); ctx.loc = fn.dem
        D.memo(add_memo(D, k)); D.makeDDNode(k)
        ex.contracts.append(add2_contract(D, k))
        for xz in (False, True):
            for yz in (False, True):
                st = D.state()
                out, *_ = D.edge(st, k, "out")
                T = BitVecVal(D.T[k], 64)
                ops = []
                for nm, z in (("x", xz), ("y", yz)):
                    if z: o, p, r, i = D.edge(st, k, nm, T, D.bz, D.bz)
                    else: o, p, r, i = D.edge(st, k, nm, T if leaf else None)
                    ops.append((o, p, r, i))
                L = BitVec("L", 8)
                if not leaf:
                    for (o, p, r, i), z in zip(ops, (xz, yz)):
                        if not z: D.node(st, k, p, L)
                ctx.reach(st, "operands"); st0 = st.copy()
                (px, x, xr, xi), (py, y, yr, yi) = ops
                vx, vy = D.cval(st, xr, xi), D.cval(st, yr, yi)
                for o in ctx.call(st, fn, [out, D.pkg, px, py]):
                    s = o.state
                    if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
                    p, r, i = D.read_edge(s, out)
                    v = D.cval(s, r, i); D.hints(s)
                    if leaf:
                        for g, n in zip(ceq(D.edge_sem(k, v, p), cadd(D.edge_sem(k, vx, x), D.edge_sem(k, vy, y))), ("re", "im")): ctx.oblige(s, "sum." + n, g)
                    else:
                        for j in range(NSUCC[k]):
                            for g, n in zip(ceq(D.top_sem(k, j, v, p), cadd(D.top_sem(k, j, vx, x), D.top_sem(k, j, vy, y))), ("re", "im")): ctx.oblige(s, "sum.%d.%s" % (j, n), g)
                    ctx.oblige(s, "level", D.level_ok(s, k, p, r, i, D.bot - 1 if leaf else L))
                    ctx.oblige(s, "not-zero", Implies(And(*[Or(z, nzv(vv)) for z, vv in ((And(xr == D.bz, xi == D.bz), vx), (And(yr == D.bz, yi == D.bz), vy))]), Or(And(D.zeroh(r), D.zeroh(i)), nzv(v))))
                    D.scratch_or_zero(ctx, s, r, i)
                    D.leak_check(ctx, s, [(r, i)]); D.nodes_unchanged(ctx, s, st0)
                    for (o1, p1, r1, i1) in ops:
                        q = D.read_edge(s, o1)
                        ctx.oblige(s, "operand-unchanged", And(q[0] == p1, q[1] == r1, q[2] == i1))
    t = Task("Package::add2<%s>%s" % (CPP[k], " (terminal operands)" if leaf else ""), "", run, merge=False, budget=400)
    t.cost = 100 if k == "m" and not leaf else 10; t.par = 8 if k == "m" and not leaf else 2
    return t

def t_add(k):
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith("dd::Edge<%s> %sadd<dd::Edge<%s> >(" % (CPP[k], PKG, CPP[k]))); ctx.loc = fn.dem
        ex.contracts.append(add2_contract(D, k))
        st = D.state()
        out, *_ = D.edge(st, k, "out")
        px, x, xr, xi = D.edge(st, k, "x"); py, y, yr, yi = D.edge(st, k, "y")
        st.assume([x != 0, y != 0, Or(And(xr == D.bz, xi == D.bz), And(yr == D.bz, yi == D.bz), D.effl(st, k, x) == D.effl(st, k, y))])
        vx, vy = D.cval(st, xr, xi), D.cval(st, yr, yi)
        ctx.reach(st, "operands"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, px, py]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(s, out); v = D.cval(s, r, i)
            for g, n in zip(ceq(D.edge_sem(k, v, p), cadd(D.edge_sem(k, vx, x), D.edge_sem(k, vy, y))), ("re", "im")): ctx.oblige(s, "sum." + n, g)
            D.result_stored(ctx, s, r, i)
            D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::add<%s>" % CPP[k], "", run, merge=False)

def tasks(mod):
    return [t_add2("v", False), t_add2("v", True), t_add2("m", False), t_add2("m", True), t_add("v"), t_add("m")]
