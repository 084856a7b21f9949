"""cos/sin of linear combinations of angles.

Every angle is written as q*PI + sum n_i * u_i with integers n_i over unit angles u_i (half of a variable, or a finer
fraction when one is used); each unit contributes a pair of reals C_i, S_i with C_i^2 + S_i^2 = 1, and the addition theorems do the rest.
Multiples of PI/4 have their exact values."""
import z3, fractions
from z3 import RealVal, RealSort
from .symex import Unsupported
F = fractions.Fraction

def linear(ex, t, k=F(1), out=None):
    out = {} if out is None else out
    t = z3.simplify(t) if out == {} else t
    if z3.is_rational_value(t):
        f = t.as_fraction()
        if f: out[None] = out.get(None, F(0)) + k * f
    elif z3.is_add(t):
        for c in t.children(): linear(ex, c, k, out)
    elif z3.is_sub(t):
        c = t.children(); linear(ex, c[0], k, out)
        for d in c[1:]: linear(ex, d, -k, out)
    elif z3.is_app_of(t, z3.Z3_OP_UMINUS): linear(ex, t.arg(0), -k, out)
    elif z3.is_mul(t):
        q = F(1); rest = []
        for c in t.children():
            if z3.is_rational_value(c): q *= c.as_fraction()
            else: rest.append(c)
        if not rest: out[None] = out.get(None, F(0)) + k * q
        elif len(rest) == 1: linear(ex, rest[0], k * q, out)
        else:
            r = rest[0]
            for x in rest[1:]: r = r * x
            atom(r, k * q, out)
    elif z3.is_div(t) and z3.is_rational_value(t.arg(1)):
        linear(ex, t.arg(0), k / t.arg(1).as_fraction(), out)
    else: atom(t, k, out)
    return out
def atom(t, k, out):
    key = t.get_id()
    old = out.get(key, (F(0), t))
    out[key] = (old[0] + k, t)

def cs(ex, st, t):
    """(cos t, sin t)"""
    from .lib import PI, R2
    lin = linear(ex, t)
    c, s = RealVal(1), RealVal(0)
    def mul(a, b): return (z3.simplify(a[0] * b[0] - a[1] * b[1], som=True), z3.simplify(a[0] * b[1] + a[1] * b[0], som=True))
    r = (c, s)
    for key, v in lin.items():
        if key is None:
            if v: raise Unsupported("cos/sin of a non-zero rational angle")
            continue
        q, term = v
        if q == 0: continue
        if term.eq(PI):
            n = q * 4
            if n.denominator != 1: raise Unsupported("cos/sin of PI*" + str(q))
            n = int(n) % 8; z, o = RealVal(0), RealVal(1)
            tab = [(o, z), (R2, R2), (z, o), (-R2, R2), (-o, z), (-R2, -R2), (z, -o), (R2, -R2)]
            r = mul(r, tab[n]); continue
        n = q * 2
        if n.denominator != 1: n = F(n.numerator); kk = ("cs", key, q / n)
        else: kk = ("cs", key, F(1, 2))
        u = ex.termcache.get(kk)
        if u is None:
            u = (ex.fresh("cos", RealSort()), ex.fresh("sin", RealSort()), term); ex.termcache[kk] = u
        st.assume(u[0] * u[0] + u[1] * u[1] == 1)
        n = int(n); b = (u[0], u[1]) if n > 0 else (u[0], -u[1])
        for _ in range(abs(n)): r = mul(r, b)
    return r
def trig(ex, st, name, t):
    c, s = cs(ex, st, t)
    return c if name == "cos" else s
