"""C18: predefined gate matrices."""
from ..ddm import *
from ..trig import cs
H = R2
Z0, ONE = C0, C1
I = (RealVal(0), RealVal(1)); MI = (RealVal(0), RealVal(-1))
h = (H, RealVal(0)); mh = (-H, RealVal(0)); ih = (RealVal(0), H); mih = (RealVal(0), -H)
q = lambda a, b: (RealVal(a) / 2, RealVal(b) / 2)
FIXED = {"I": [ONE, Z0, Z0, ONE], "H": [h, h, h, mh], "X": [Z0, ONE, ONE, Z0], "Y": [Z0, MI, I, Z0], "Z": [ONE, Z0, Z0, cneg(ONE)],
    "S": [ONE, Z0, Z0, I], "Sdag": [ONE, Z0, Z0, MI], "T": [ONE, Z0, Z0, (H, H)], "Tdag": [ONE, Z0, Z0, (H, -H)],
    "SX": [q(1, 1), q(1, -1), q(1, -1), q(1, 1)], "SXdag": [q(1, -1), q(1, 1), q(1, 1), q(1, -1)], "V": [h, mih, mih, h], "Vdag": [h, ih, ih, h],
    "CX": [ONE, Z0, Z0, Z0, Z0, ONE, Z0, Z0, Z0, Z0, Z0, ONE, Z0, Z0, ONE, Z0], "CZ": [ONE, Z0, Z0, Z0, Z0, ONE, Z0, Z0, Z0, Z0, ONE, Z0, Z0, Z0, Z0, cneg(ONE)],
    "SWAP": [ONE, Z0, Z0, Z0, Z0, Z0, ONE, Z0, Z0, ONE, Z0, Z0, Z0, Z0, Z0, ONE], "iSWAP": [ONE, Z0, Z0, Z0, Z0, Z0, I, Z0, Z0, I, Z0, Z0, Z0, Z0, Z0, ONE],
    "iSWAPinv": [ONE, Z0, Z0, Z0, Z0, Z0, MI, Z0, Z0, MI, Z0, Z0, Z0, Z0, Z0, ONE],
    "ECR": [Z0, Z0, h, ih, Z0, Z0, ih, h, h, mih, Z0, Z0, mih, h, Z0, Z0], "DCX": [ONE, Z0, Z0, Z0, Z0, Z0, Z0, ONE, Z0, ONE, Z0, Z0, Z0, Z0, ONE, Z0]}
INVERSE = [("I", "I"), ("H", "H"), ("X", "X"), ("Y", "Y"), ("Z", "Z"), ("S", "Sdag"), ("T", "Tdag"), ("SX", "SXdag"), ("V", "Vdag"), ("CX", "CX"), ("CZ", "CZ"), ("SWAP", "SWAP"), ("iSWAP", "iSWAPinv"), ("ECR", "ECR")]
def param(ex, st):
    def e(t): return cs(ex, st, t)
    def half(t): c, s = cs(ex, st, t / 2); return (c, RealVal(0)), (s, RealVal(0)), (RealVal(0), -s), (RealVal(0), s)
    def u3(l, p, t):
        c, s, _, _ = half(t); return [c, cneg(cmul(e(l), s)), cmul(e(p), s), cmul(e(l + p), c)]
    def u2(l, p): return [h, cneg(cmul(e(l), h)), cmul(e(p), h), cmul(e(l + p), h)]
    def rx(t): c, s, m, _ = half(t); return [c, m, m, c]
    def ry(t): c, s, _, _ = half(t); return [c, cneg(s), s, c]
    def rz(t): return [e(-t / 2), Z0, Z0, e(t / 2)]
    def rxx(t): c, s, m, _ = half(t); return [c, Z0, Z0, m, Z0, c, m, Z0, Z0, m, c, Z0, m, Z0, Z0, c]
    def ryy(t): c, s, m, g = half(t); return [c, Z0, Z0, g, Z0, c, m, Z0, Z0, m, c, Z0, g, Z0, Z0, c]
    def rzz(t): a, b = e(-t / 2), e(t / 2); return [a, Z0, Z0, Z0, Z0, b, Z0, Z0, Z0, Z0, b, Z0, Z0, Z0, Z0, a]
    def rzx(t): c, s, m, g = half(t); return [c, m, Z0, Z0, m, c, Z0, Z0, Z0, Z0, c, g, Z0, Z0, g, c]
    def xmy(t, b): c, s, m, _ = half(t); return [c, Z0, Z0, cmul(m, e(b)), Z0, ONE, Z0, Z0, Z0, Z0, ONE, Z0, cmul(m, e(-b)), Z0, Z0, c]
    def xpy(t, b): c, s, m, _ = half(t); return [ONE, Z0, Z0, Z0, Z0, c, cmul(m, e(b)), Z0, Z0, cmul(m, e(-b)), c, Z0, Z0, Z0, Z0, ONE]
    # name: (arguments, definition, arguments giving the identity)
    return {"U3": (3, u3, (0, 0, 0)), "U2": (2, u2, None), "Phase": (1, lambda l: [ONE, Z0, Z0, e(l)], (0,)), "RX": (1, rx, (0,)), "RY": (1, ry, (0,)), "RZ": (1, rz, (0,)), "RXX": (1, rxx, (0,)), "RYY": (1, ryy, (0,)),
            "RZZ": (1, rzz, (0,)), "RZX": (1, rzx, (0,)), "XXMinusYY": (2, xmy, (0, None)), "XXPlusYY": (2, xpy, (0, None))}
PARAM = ["U3", "U2", "Phase", "RX", "RY", "RZ", "RXX", "RYY", "RZZ", "RZX", "XXMinusYY", "XXPlusYY"]

def matmul(a, b):
    n = 2 if len(a) == 4 else 4; out = []
    for i in range(n):
        for j in range(n):
            t = C0
            for k in range(n): t = cadd(t, cmul(a[n * i + k], b[n * k + j]))
            out.append(t)
    return out
def dagger(a):
    n = 2 if len(a) == 4 else 4
    return [cconj(a[n * j + i]) for i in range(n) for j in range(n)]
def ident(n): return [C1 if i == j else C0 for i in range(n) for j in range(n)]
def same(ctx, st, name, got, want):
    n = 2 if len(want) == 4 else 4
    for k, (a, b) in enumerate(zip(got, want)):
        for g, w in zip(ceq(a, b), ("re", "im")): ctx.oblige(st, "%s[%d][%d].%s" % (name, k // n, k % n, w), simplify(g))

def flat(v):
    """nested tuple of doubles -> list of complex entries"""
    out = []
    def go(x):
        if type(x) is tuple:
            for y in x: go(y)
        else: out.append(x)
    go(v)
    return [(out[k], out[k + 1]) for k in range(0, len(out), 2)]
def constant(ctx, name):
    ex = ctx.ex
    for n in ex.mod.globals:
        if ex.mod.dem.get(n) == "dd::%smat" % name:
            g = ex.global_init(n)
            if g and g[0] == "constant": return flat(ex.constant(g[1], g[2]))
    raise Unsupported("no constant dd::%smat" % name)

def t_fixed():
    def run(ctx):
        ex = ctx.ex; st = ctx.state(); ctx.loc = "dd::*mat"
        ctx.reach(st, "constants")
        M = {n: constant(ctx, n) for n in FIXED}
        for n, w in FIXED.items():
            if len(M[n]) != len(w): raise Unsupported("size of %smat" % n)
            same(ctx, st, n + "mat", M[n], w)
        for a, b in INVERSE: same(ctx, st, "%smat*%smat=1" % (a, b), matmul(M[a], M[b]), ident(2 if len(M[a]) == 4 else 4))
        for n in FIXED: same(ctx, st, "%smat unitary" % n, matmul(M[n], dagger(M[n])), ident(2 if len(M[n]) == 4 else 4))
    return Task("gate constants", "", run, merge=False)

def t_param(name):
    def run(ctx):
        ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith("dd::%smat(" % name)); ctx.loc = fn.dem
        st = ctx.state()
        def go(st, vals):
            nargs, df, _ = param(ex, st)[name]
            out = ex.new_object(st, "out", None, False, 256)
            res = []
            for o in ctx.call(st, fn, [out] + vals):
                if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
                n = 4 if len(df(*vals)) == 4 else 16
                res.append((o.state, [(ctx.cell(o.state, out, 16 * k, DBL), ctx.cell(o.state, out, 16 * k + 8, DBL)) for k in range(n)], df))
            return res
        nargs, _, idargs = param(ex, st)[name]
        vals = [Real("a%d" % j) for j in range(nargs)]
        ctx.reach(st, "angles")
        for s, m, df in go(st.copy(), vals):
            same(ctx, s, "entry", m, param(ex, s)[name][1](*vals))
            same(ctx, s, "unitary", matmul(m, dagger(m)), ident(2 if len(m) == 4 else 4))
        if idargs:
            vals = [vals[j] if a is None else RealVal(a) for j, a in enumerate(idargs)]
            for s, m, df in go(st.copy(), vals): same(ctx, s, "identity at angle zero", m, ident(2 if len(m) == 4 else 4))
    return Task("dd::%smat" % name, "", run, merge=False)

def tasks(mod): return [t_fixed()] + [t_param(n) for n in PARAM]
