"""Trusted contracts of external (standard library / libm / C++ runtime) functions.

Every entry used in a run is reported in the evidence as part of the trusted base."""
import re
import z3
from z3 import RealVal, Implies, And, Not, If, BitVecVal, ToReal
from .symex import Unsupported, R, P64, UNDEF, Ptr, bv, isreal, Outcome, land

STRINGY = ("std::__cxx11::basic_string", "std::to_string", "std::allocator<char>", "std::char_traits",
           "std::__cxx11::to_string", "std::operator<<", "std::basic_ostream", "std::ostream", "std::runtime_error", "std::invalid_argument",
           "std::logic_error", "std::out_of_range", "std::basic_ios", "std::setprecision", "std::ios_base", "std::endl", "std::__new_allocator<char>", "std::__detail::__to_chars", "__gnu_cxx::__to_xstring")

def _is_stringy(dem):
    d = re.sub(r'^(?:[a-zA-Z_][\w:<>,&*\[\]() ]*? )?(?=std::)', '', dem) if not dem.startswith("std::") else dem
    if dem.startswith(STRINGY): return True
    if re.match(r'^std::(__cxx11::)?basic_string', d): return True
    if re.match(r'.*\bstd::operator\+<char', dem): return True
    if re.match(r'^std::(basic_)?o?stream', d): return True
    if re.match(r'^std::basic_ostream<char, std::char_traits<char> ?>& std::(operator<<|endl|flush)', dem): return True
    if "std::setprecision" in dem[:60] or "std::_Setprecision" in dem[:200] and "operator<<" in dem: return True
    return False

def opaque(ex, st, dem, args, i):
    t = i.ty
    if t.k == "void": return ("val", None)
    if t.k == "ptr":
        if args and type(args[0]) is Ptr: return ("val", args[0])
        return ("val", ex.fresh("opaque", P64))
    return ("val", ex.freshty("opaque", t))

def override(ex, st, name, dem, args, i):
    """functions with bodies in the translation unit that are nevertheless treated by contract"""
    if _is_stringy(dem): return opaque(ex, st, dem, args, i)
    if name.startswith(("_ZSt3maxI", "_ZSt3minI")) and len(args) == 2 and i.ty.k == "ptr":
        t = {"m": 64, "l": 64, "j": 32, "i": 32, "t": 16, "s": 16, "h": 8, "d": 0}.get(name[9])
        if t is not None and name[10:11] == "E":
            from .symex import INT, DBL
            ty = INT(t) if t else DBL
            a, b = ex.load(st, ex.asptr(args[0]), ty), ex.load(st, ex.asptr(args[1]), ty)
            if a is UNDEF or b is UNDEF: return None
            mx = name[7] == "x"
            if type(a) is int and type(b) is int:
                sg = name[9] in "lis"
                from .symex import sgn
                ka, kb = (sgn(a, t), sgn(b, t)) if sg else (a, b)
                v = (b if ka < kb else a) if mx else (b if kb < ka else a)
            else:
                x, y = (bv(a, t), bv(b, t)) if t else (a, b)
                lt = (x < y) if (not t or name[9] in "lis") else z3.ULT(x, y)
                gt = (y < x) if (not t or name[9] in "lis") else z3.ULT(y, x)
                v = If(lt if mx else gt, y, x)
            o = ex.new_object(st, "minmax%d" % next(ex.cnt), ty, False, ex.mod.size(ty))
            tw = ex.trackwrites; ex.trackwrites = False
            ex.store(st, o, ty, v); ex.trackwrites = tw
            return ("val", o)
    if name == "_ZSt7signbitd":
        # the sign bit of a zero may be either
        b = ex.fresh("signbit", z3.BoolSort()); x = args[0]
        st.assume(And(Implies(x < 0, b), Implies(x > 0, Not(b))))
        return ("val", b)
    return None

def builtin(ex, st, name, dem, args, i):
    if name == "__cxa_allocate_exception":
        return ("val", ex.new_object(st, "exc%d" % next(ex.cnt), None, True, 64))
    if name == "__cxa_throw":
        t = args[1]
        ti = ex.addrglob.get(t.base) if type(t) is Ptr else None
        ex.throw(st, ex.mod.dem.get(ti, ti)); return ("end",)
    if name in ("__cxa_free_exception", "__cxa_end_catch", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit"): return ("val", 0 if i.ty.k == "int" else None)
    if name == "__cxa_guard_acquire": return ("val", 0)
    if dem.startswith("std::__throw_"):
        ex.throw(st, dem); return ("end",)
    if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv"): return ("val", None)
    if name in ("fabs",): return ("val", If(args[0] >= 0, args[0], -args[0]))
    if name in ("sqrt",): return ("val", rsqrt(ex, st, args[0]))
    if name in ("nearbyint", "round", "floor", "ceil"): return ("val", fpround(ex, st, name, args[0]))
    if name in ("cos", "sin"):
        from .trig import trig
        return ("val", trig(ex, st, name, args[0]))
    if name == "__muldc3":
        a, b, c, d = args
        return ("val", (a*c - b*d, a*d + b*c))
    if _is_stringy(dem): return opaque(ex, st, dem, args, i)
    if name in ("hypot",):
        return ("val", rsqrt(ex, st, args[0]*args[0] + args[1]*args[1]))
    return None

def rsqrt(ex, st, x):
    if z3.is_rational_value(x):
        f = x.as_fraction()
        if f >= 0:
            import math
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a*a == f.numerator and b*b == f.denominator: return RealVal("%d/%d" % (a, b))
    key = ("sqrt", x.get_id())
    v = ex.termcache.get(key)
    if v is None:
        v = (ex.fresh("sqrt", R), x); ex.termcache[key] = v
    st.assume(Implies(x >= 0, And(v[0] >= 0, v[0] * v[0] == x)))
    st.assume(Implies(x > 0, v[0] > 0))
    return v[0]

def fpround(ex, st, kind, x):
    if kind == "sqrt": return rsqrt(ex, st, x)
    if z3.is_rational_value(x) and kind in ("floor", "ceil"):
        f = x.as_fraction(); n = f.numerator // f.denominator
        if kind == "ceil": n = -((-f.numerator) // f.denominator)
        return RealVal(n)
    key = (kind, x.get_id())
    v = ex.termcache.get(key)
    if v is None:
        v = (ex.fresh(kind, z3.IntSort()), x); ex.termcache[key] = v
    n = ToReal(v[0])
    if kind in ("nearbyint", "round"): st.assume(And(x - n <= RealVal("1/2"), n - x <= RealVal("1/2")))
    elif kind == "floor": st.assume(And(n <= x, x < n + 1))
    else: st.assume(And(n >= x, x > n - 1))
    return n

def fptoi(ex, st, op, ty, x):
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        n = x.children()[0]
        key = ("i2b", n.get_id(), ty.a)
        v = ex.termcache.get(key)
        if v is None:
            v = (ex.fresh("i2b", z3.BitVecSort(ty.a)), n); ex.termcache[key] = v
        st.assume(Implies(And(n >= 0, n < 2**(ty.a-1)), z3.BV2Int(v[0]) == n))
        return v[0]
    raise Unsupported("fp to int conversion")
