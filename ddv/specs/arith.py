"""C01: ComplexNumbers arithmetic, Complex predicates, number handles."""
from ..lib import *

CN = "dd::ComplexNumbers::"
CREF = "dd::Complex const&"

def operands(ctx, st, names, result=True):
    """result r (two distinct scratch entries) and operands; operands may alias r part-wise"""
    ex = ctx.ex
    glob = [ctx.zero(), ctx.one(), ctx.sq()]
    out = {}
    if result:
        rr, ri = BitVec("r.r", 64), BitVec("r.i", 64)
        st.assume([rr & 1 == 0, ri & 1 == 0, rr != ri, rr != 0, ri != 0])
        for g in glob: st.assume([rr != g, ri != g])
        out["r"] = (cplx_ptr(ctx, st, "r", rr, ri), rr, ri)
    for n in names:
        a, b = BitVec(n + ".r", 64), BitVec(n + ".i", 64)
        st.assume([strip(a) != 0, strip(b) != 0])
        # the shared zero is never tagged
        if result:
            st.assume([strip(a) != ri, strip(b) != rr])
        out[n] = (cplx_ptr(ctx, st, n, a, b), a, b)
    return out

def frame(ctx, st0V, st1, rr, ri):
    q = BitVec("q", 64)
    return ForAll([q], Implies(And(q != rr, q != ri), Select(ctx.V(st1), q) == Select(st0V, q)))

def binop(op, spec, needs=None):
    def run(ctx):
        fn = ctx.fn(lambda d: d == CN + op + "(dd::Complex&, dd::Complex const&, dd::Complex const&)")
        ctx.loc = fn.dem
        st = ctx.state()
        o = operands(ctx, st, ["a", "b"])
        V0 = ctx.V(st)
        ar, ai = ctx.val(st, o["a"][1], V0), ctx.val(st, o["a"][2], V0)
        br, bi = ctx.val(st, o["b"][1], V0), ctx.val(st, o["b"][2], V0)
        if needs: st.assume(needs(ar, ai, br, bi))
        ctx.reach(st, "precondition")
        for out in ctx.call(st, fn, [o["r"][0], o["a"][0], o["b"][0]]):
            if out.kind != "ret": ctx.oblige(out.state, "no-exception", BoolVal(False)); continue
            s = out.state
            V1 = ctx.V(s)
            vr, vi = Select(V1, o["r"][1]), Select(V1, o["r"][2])
            gs = spec(ar, ai, br, bi, vr, vi)
            ctx.oblige(s, "real-part", gs[0]); ctx.oblige(s, "imaginary-part", gs[1])
            ctx.oblige(s, "frame-values", frame(ctx, V0, s, o["r"][1], o["r"][2]))
            ctx.oblige(s, "handles-unchanged", And(*[ctx.cell(s, o[n][0], k, PTR) == o[n][1 + k // 8] for n in o for k in (0, 8)]))
            others(ctx, s, V0)
    return Task("ComplexNumbers::" + op, op, run)

def others(ctx, s, V0):
    """no other memory is written"""
    for k in s.heap:
        if k == VREG: continue
        h = s.heap[k]
        if ("h", k) in s.wlog: ctx.oblige(s, "frame:" + str(k), h == Const("H_" + "_".join(str(x) for x in k), h.sort()))

def cached(op, spec, needs=None):
    def run(ctx):
        fn = ctx.fn(lambda d: d == CN + op + "Cached(dd::Complex const&, dd::Complex const&)")
        ctx.loc = fn.dem
        st = ctx.state()
        o = operands(ctx, st, ["a", "b"])
        _, rr, ri = o["r"]
        V0 = ctx.V(st)
        # the scratch number is fresh: distinct from the operands (contract of the scratch pool, C04)
        for n in "ab":
            st.assume([strip(o[n][1]) != rr, strip(o[n][2]) != ri])
        ar, ai = ctx.val(st, o["a"][1], V0), ctx.val(st, o["a"][2], V0)
        br, bi = ctx.val(st, o["b"][1], V0), ctx.val(st, o["b"][2], V0)
        if needs: st.assume(needs(ar, ai, br, bi))
        ctx.reach(st, "precondition")
        calls = []
        def getc(ex, s, args, i):
            s.tags["got"] = s.tags.get("got", 0) + 1
            return ("val", (rr, ri))
        ctx.ex.contracts.append((lambda d: d.startswith("dd::ComplexCache<") and d.endswith("::getCachedComplex()"), getc))
        this = ctx.obj(st, "cn", "struct.dd::ComplexNumbers")
        for out in ctx.call(st, fn, [this, o["a"][0], o["b"][0]]):
            if out.kind != "ret": ctx.oblige(out.state, "no-exception", BoolVal(False)); continue
            s = out.state; V1 = ctx.V(s)
            gs = spec(ar, ai, br, bi, Select(V1, rr), Select(V1, ri))
            ctx.oblige(s, "result-handle", And(bv(ctx.ex.pbv(out.ret[0]), 64) == rr, bv(ctx.ex.pbv(out.ret[1]), 64) == ri))
            ctx.oblige(s, "one-scratch-number", BoolVal(s.tags.get("got", 0) == 1))
            ctx.oblige(s, "real-part", gs[0]); ctx.oblige(s, "imaginary-part", gs[1])
            ctx.oblige(s, "frame-values", frame(ctx, V0, s, rr, ri))
            others(ctx, s, V0)
    return Task("ComplexNumbers::" + op + "Cached", op + "Cached", run)

def unary(op, spec):
    def run(ctx):
        fn = ctx.fn(lambda d: d == CN + op + "(dd::Complex const&)")
        ctx.loc = fn.dem
        st = ctx.state()
        o = operands(ctx, st, ["a"], result=False)
        V0 = ctx.V(st)
        ar, ai = ctx.val(st, o["a"][1], V0), ctx.val(st, o["a"][2], V0)
        ctx.reach(st, "precondition")
        for out in ctx.call(st, fn, [o["a"][0]]):
            if out.kind != "ret": ctx.oblige(out.state, "no-exception", BoolVal(False)); continue
            s = out.state
            ctx.oblige(s, "result", spec(ctx, s, ar, ai, out.ret, o["a"]))
            ctx.oblige(s, "values-unchanged", ctx.V(s) == V0)
            ctx.oblige(s, "handle-unchanged", And(ctx.cell(s, o["a"][0], 0, PTR) == o["a"][1], ctx.cell(s, o["a"][0], 8, PTR) == o["a"][2]))
            others(ctx, s, V0)
    return Task("ComplexNumbers::" + op, op, run)

def flip_spec(sr, si):
    def f(ctx, s, ar, ai, ret, a):
        r, i = bv(ctx.ex.pbv(ret[0]), 64), bv(ctx.ex.pbv(ret[1]), 64)
        # same magnitudes shared with the operand, value as specified, and no negative zero handle is invented
        z = ctx.zero()
        return And(ctx.val(s, r) == (ar if sr > 0 else -ar), ctx.val(s, i) == (ai if si > 0 else -ai),
                   strip(r) == strip(a[1]), strip(i) == strip(a[2]),
                   Implies(a[1] == z, r == z), Implies(a[2] == z, i == z))
    return f

def predicate(name, spec, two=False):
    """Complex::approximatelyZero etc. with a symbolic tolerance"""
    def run(ctx):
        sig = "(dd::Complex const&) const" if two else "() const"
        fn = ctx.fn(lambda d: d == "dd::Complex::" + name + sig)
        ctx.loc = fn.dem
        t = Real("tol")
        st = ctx.state()
        ctx.settol(st, t); st.assume([t >= 0, t < RealVal("1/4")])
        o = operands(ctx, st, ["a", "b"] if two else ["a"], result=False)
        V0 = ctx.V(st)
        v = [ctx.val(st, o[n][k], V0) for n in (["a", "b"] if two else ["a"]) for k in (1, 2)]
        # distinct handles of stored numbers; the shared constants are the only owners of 0 and 1
        ctx.reach(st, "precondition")
        for out in ctx.call(st, fn, [o["a"][0]] + ([o["b"][0]] if two else [])):
            if out.kind != "ret": ctx.oblige(out.state, "no-exception", BoolVal(False)); continue
            ctx.oblige(out.state, "result", bl(out.ret) == spec(ctx, t, o, *v))
            ctx.oblige(out.state, "values-unchanged", ctx.V(out.state) == V0)
    return Task("Complex::" + name, name, run)

def near(x, y, t): return And(x - y <= t, y - x <= t)

def tasks(mod):
    T = []
    add = lambda a, b, c, d, r, i: (r == a + c, i == b + d)
    sub = lambda a, b, c, d, r, i: (r == a - c, i == b - d)
    mul = lambda a, b, c, d, r, i: (r == a*c - b*d, i == a*d + b*c)
    # r * b == a, for b != 0
    div = lambda a, b, c, d, r, i: (r*(c*c + d*d) == a*c + b*d, i*(c*c + d*d) == b*c - a*d)
    nz = lambda a, b, c, d: c*c + d*d > 0
    T += [binop("add", add), binop("sub", sub), binop("mul", mul), binop("div", div, nz)]
    T += [cached("add", add), cached("sub", sub), cached("mul", mul), cached("div", div, nz)]
    T.append(unary("mag2", lambda ctx, s, ar, ai, ret, a: ret == ar*ar + ai*ai))
    T.append(unary("mag", lambda ctx, s, ar, ai, ret, a: And(ret >= 0, ret*ret == ar*ar + ai*ai)))
    T.append(unary("conj", flip_spec(1, -1)))
    T.append(unary("neg", flip_spec(-1, -1)))
    T.append(predicate("approximatelyZero", lambda ctx, t, o, ar, ai: And(near(ar, 0, t), near(ai, 0, t))))
    T.append(predicate("approximatelyOne", lambda ctx, t, o, ar, ai: And(near(ar, 1, t), near(ai, 0, t))))
    T.append(predicate("approximatelyEquals", lambda ctx, t, o, ar, ai, br, bi: And(near(ar, br, t), near(ai, bi, t)), two=True))
    T.append(predicate("exactlyZero", lambda ctx, t, o, ar, ai: And(o["a"][1] == ctx.zero(), o["a"][2] == ctx.zero())))
    T.append(predicate("exactlyOne", lambda ctx, t, o, ar, ai: And(o["a"][1] == ctx.one(), o["a"][2] == ctx.zero())))
    return T
