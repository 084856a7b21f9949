"""C14: Package::transpose, conjugateTranspose, checkSpecialMatrices.

AMPT(p) is the entry of the matrix node p with the row and the column bits of the fixed assignment exchanged, TOPT_j the same
with the bits of p's own level selecting successor j:  TOPT_j(p) = w_j * AMPT(child_j)."""
from ..ddm import *

AMPT = fpair("AMPT")
TOPT = {j: fpair("TOPT%d" % j) for j in range(4)}
ISI, ISS = 16, 32
def tr(j): return 2 * (j & 1) + (j >> 1)
# entry of the identity over the levels bot..L at the fixed assignment (1 or 0)
IDL = Function("IDENTITY", BitVecSort(8), RealSort())

def terminal(D, st):
    T = BitVecVal(D.T["m"], 64)
    st.assume(ceq(app(AMPT, T), C1)); st.assume(IDL(D.bot - 1) == 1)

def mnode(D, st, p, level=None):
    """a stored matrix node, with its transposed entries; returns successors"""
    kids = D.node(st, "m", p, level)
    for j, (c, r, i) in enumerate(kids): st.assume(ceq(app(TOPT[j], p), cmul((VALF(r), VALF(i)), app(AMPT, c))))
    return kids

def marks(D, st, p):
    """what the marks of a stored node mean, one level up: used for successors"""
    f = D.flags(st, "m", p)
    st.assume([Implies(f & ISS != 0, And(*ceq(app(AMP["m"], p), app(AMPT, p)))),
               Implies(f & ISI != 0, And(*ceq(app(AMP["m"], p), (IDL(D.effl(st, "m", p)), RealVal(0)))))])
def marks_top(D, st, p):
    f = D.flags(st, "m", p)
    st.assume(Implies(f & ISS != 0, And(*[g for j in range(4) for g in ceq(app(TOP[("m", j)], p), app(TOPT[tr(j)], p))])))

def trans_contract(D, conj):
    name = PKG + ("conjugateTranspose" if conj else "transpose") + "("
    f = cconj if conj else (lambda v: v)
    def h(ex, st, args, i):
        out, this, pa = args[:3]
        a = D.read_edge(st, pa); va = D.cval(st, a[1], a[2])
        if not (D.is_stored(st, a[1]) and D.is_stored(st, a[2])): ex.oblige(st, "transpose: operand has a stored weight", BoolVal(False))
        za = And(D.zeroh(a[1]), D.zeroh(a[2]))
        v = (ex.fresh("trans.re", RealSort()), ex.fresh("trans.im", RealSort()))
        D.expire(st)
        p = ex.fresh("trans.p", P); r, m = D.lookupc(st, v)
        st.assume(ceq(D.edge_sem("m", v, p), f(cmul(va, app(AMPT, a[0])))))
        st.assume(ceq(cmul(v, app(AMPT, p)), f(D.edge_sem("m", va, a[0]))))
        z = And(D.zeroh(r), D.zeroh(m))
        st.assume([p != 0, Implies(za, z), Or(z, D.effl(st, "m", p) == D.effl(st, "m", a[0]))])
        D.put_edge(st, out, p, r, m); D.track(st, "nodes", ("m", p))
        return ("val", None)
    return (lambda d: d.startswith(name), h)

def trans_rel(D, conj):
    f = cconj if conj else (lambda v: v)
    def rel(st, x, p, v):
        out = []
        for j in range(4):
            out += ceq(D.top_sem("m", j, v, p), f(cmul(x[1], app(TOPT[tr(j)], x[0]))))
            out += ceq(cmul(v, app(TOPT[j], p)), f(cmul(x[1], app(TOP[("m", tr(j))], x[0]))))
        zx = And(x[1][0] == 0, x[1][1] == 0)
        z = And(v[0] == 0, v[1] == 0)
        out.append(Implies(zx, z))
        out.append(Or(z, D.effl(st, "m", p) == D.effl(st, "m", x[0])))
        return out
    return rel

def extra(D):
    def f(ex, st, k, var8, es, p, r, m, v):
        for j in range(4): st.assume(ceq(cmul(v, app(TOPT[j], p)), cmul(es[j][3], app(AMPT, es[j][0]))))
    return f

def t_trans(conj, leaf):
    nm = "conjugateTranspose" if conj else "transpose"
    f = cconj if conj else (lambda v: v)
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(PKG + nm + "(")); ctx.loc = fn.dem
        D.memo({"conjugateMatrixTranspose" if conj else "matrixTranspose": dict(left="edge", kind="m", rel=trans_rel(D, conj), result="edge")})
        D.makeDDNode("m", extra(D))
        ex.contracts.append(trans_contract(D, conj))
        st = D.state(); terminal(D, st)
        out, *_ = D.edge(st, "m", "out")
        T = BitVecVal(D.T["m"], 64)
        pa, a, ar, ai = D.edge(st, "m", "a", T if leaf else None)
        D.store_ok(st, ar); D.store_ok(st, ai)
        za = And(ar == D.bz, ai == D.bz)
        st.assume([(VALF(h) == 0) == (h == D.bz) for h in (ar, ai)])
        L = D.bot - 1 if leaf else BitVec("L", 8)
        if not leaf:
            st.assume(Not(za))
            mnode(D, st, a, L); marks_top(D, st, a)
        va = D.cval(st, ar, ai)
        ctx.reach(st, "operand"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, pa]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(s, out); v = D.cval(s, r, i); D.hints(s)
            if leaf:
                for g, n in zip(ceq(D.edge_sem("m", v, p), f(cmul(va, app(AMPT, a)))), ("re", "im")): ctx.oblige(s, "transposed." + n, g)
                for g, n in zip(ceq(cmul(v, app(AMPT, p)), f(D.edge_sem("m", va, a))), ("re", "im")): ctx.oblige(s, "transposed-back." + n, g)
            else:
                for j in range(4):
                    for g, n in zip(ceq(D.top_sem("m", j, v, p), f(cmul(va, app(TOPT[tr(j)], a)))), ("re", "im")): ctx.oblige(s, "transposed.%d.%s" % (j, n), g)
                    for g, n in zip(ceq(cmul(v, app(TOPT[j], p)), f(cmul(va, app(TOP[("m", tr(j))], a)))), ("re", "im")): ctx.oblige(s, "transposed-back.%d.%s" % (j, n), g)
            z = And(D.zeroh(r), D.zeroh(i))
            ctx.oblige(s, "zero-gives-zero", Implies(za, z))
            ctx.oblige(s, "level", Or(z, D.effl(s, "m", p) == L))
            D.result_stored(ctx, s, r, i); D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
            q = D.read_edge(s, pa)
            ctx.oblige(s, "operand-unchanged", And(q[0] == a, q[1] == ar, q[2] == ai))
    return Task("Package::%s%s" % (nm, " (terminal operand)" if leaf else ""), "", run, merge=False, budget=400)

def t_marks():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(PKG + "checkSpecialMatrices(")); ctx.loc = fn.dem
        ex.contracts.append(trans_contract(D, False))
        st = D.state(); terminal(D, st)
        p = Concat(BitVec("node", 61), BitVecVal(0, 3)); L = BitVec("L", 8)
        kids = mnode(D, st, p, L)
        for c, r, i in kids: marks(D, st, c)
        # the identity over one more level
        idtop = {j: (IDL(L - 1) if j in (0, 3) else RealVal(0)) for j in range(4)}
        f0 = D.flags(st, "m", p)
        ctx.reach(st, "node")
        for o in ctx.call(st, fn, [D.pkg, Ptr(p, ex.canon(NODE["m"]), 0, ())]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            f = D.flags(s, "m", p)
            for j in range(4):
                for g, n in zip(ceq(app(TOP[("m", j)], p), app(TOPT[tr(j)], p)), ("re", "im")): ctx.oblige(s, "symmetric-mark.%d.%s" % (j, n), Implies(f & ISS != 0, g))
                for g, n in zip(ceq(app(TOP[("m", j)], p), (idtop[j], RealVal(0))), ("re", "im")): ctx.oblige(s, "identity-mark.%d.%s" % (j, n), Implies(f & ISI != 0, g))
            ctx.oblige(s, "identity-is-symmetric", Implies(f & ISI != 0, f & ISS != 0))
            ctx.oblige(s, "other-flags-unchanged", f & 15 == f0 & 15)
            for j, (c, r, i) in enumerate(kids):
                ctx.oblige(s, "successor-unchanged", And(*[a == b for a, b in zip(D.child(s, "m", p, j), (c, r, i))]))
            q = BitVec("other", 64)
            ctx.oblige(s, "other-nodes-unmarked", Implies(q != p, D.flags(s, "m", q) == D.flags(st, "m", q)))
            D.leak_check(ctx, s)
    return Task("Package::checkSpecialMatrices", "", run, merge=False, budget=400)

def tasks(mod): return [t_trans(c, l) for c in (False, True) for l in (False, True)] + [t_marks()]
