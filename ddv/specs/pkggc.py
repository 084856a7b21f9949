"""C08: Package::garbageCollect, clearComputeTables, reset."""
import re
from ..ddm import *
# what an entry of each memo table refers to: node kinds, and "n" for stored numbers
REFERS = {"vectorAdd": "v", "matrixAdd": "m", "matrixTranspose": "mn", "conjugateMatrixTranspose": "mn", "matrixVectorMultiplication": "vmn", "matrixMatrixMultiplication": "mn", "vectorInnerProduct": "vn",
    "vectorKronecker": "vn", "matrixKronecker": "mn", "toffoliTable": "mn", "idTable": "m", "stochasticNoiseOperationCache": "mn", "densityAdd": "d", "densityDensityMultiplication": "dn", "densityNoise": "dn"}
UT = {"vUniqueTable": "v", "mUniqueTable": "m", "dUniqueTable": "d"}

def refers(dem):
    """node kinds and numbers an entry can refer to, from the operand and result types of the table"""
    t = dem.split("::clear(")[0]; out = set()
    for k in "vmd":
        if re.search(r"\bEdge<%s>" % re.escape(CPP[k]), t): out |= {k, "n"}
        if "CachedEdge<%s>" % CPP[k] in t: out.add(k)
    return out

def setup(ctx):
    D = DD(ctx); ex = ctx.ex
    st = D.state()
    st.ghost["cleared"] = frozenset(); st.ghost["removed"] = (); st.ghost["refs"] = {}; st.ghost["emptied"] = frozenset()
    def dem(i, ex): return ex.mod.dem.get(i.callee, i.callee) if hasattr(i, "callee") else ""
    def gc(ex, st, args, i, kind):
        f = args[1]
        f = BoolVal(f) if type(f) is bool else (f if z3.is_bool(f) else bv(f, 8) != 0)
        n = ex.fresh("removed_" + kind, P)
        st.ghost["removed"] = st.ghost["removed"] + ((kind, f, n),)
        return ("val", n)
    def utgc(ex, st, args, i):
        m = D.this_member(args[0])
        if m not in UT: raise Unsupported("collection of " + m)
        return gc(ex, st, args, i, UT[m])
    def clear(ex, st, args, i):
        m = D.this_member(args[0])
        st.ghost["cleared"] = st.ghost["cleared"] | {m}; return ("val", None)
    def utclear(ex, st, args, i):
        m = D.this_member(args[0])
        st.ghost["emptied"] = st.ghost["emptied"] | {UT[m]}; return ("val", None)
    def needs(ex, st, args, i): return ("val", ex.fresh("due", BoolSort()))
    def cnclear(ex, st, args, i):
        st.ghost["emptied"] = st.ghost["emptied"] | {"n"}; return ("val", None)
    ut = lambda d: d.startswith("dd::UniqueTable<")
    memo = lambda d: re.match(r"dd::(ComputeTable|UnaryComputeTable|ToffoliTable|DensityNoiseTable|StochasticNoiseOperationTable)<", d)
    ex.contracts = [(lambda d: ut(d) and d.endswith("::garbageCollect(bool)"), utgc),
        (lambda d: d == CN + "garbageCollect(bool)", lambda ex, st, a, i: gc(ex, st, a, i, "n")),
        (lambda d: (ut(d) or d.startswith("dd::ComplexTable<")) and d.endswith("::possiblyNeedsCollection() const"), needs),
        (lambda d: bool(memo(d)) and d.endswith("::clear()"), clear), (lambda d: ut(d) and d.endswith("::clear()"), utclear),
        (lambda d: d == CN + "clear()", cnclear),
        (lambda d: d == PKG + "clearIdentityTable()", lambda ex, st, a, i: (st.ghost.__setitem__("cleared", st.ghost["cleared"] | {"idTable"}), ("val", None))[1])]
    missing = [n for n in list(REFERS) + list(UT) if n not in D.members]
    if missing: raise Unsupported("no member Package::" + missing[0])
    return D, st

def types_ok(ctx):
    """the table of referred kinds agrees with the declared types"""
    ty = ctx.mod.member_types(name="Package<dd::DDPackageConfig>")
    for n, want in REFERS.items():
        t = ty.get(n)
        if t is None: continue
        got = set(); s = t.replace(" ", "")
        for k in "vmd":
            if re.search(r"(?<!Cached)Edge<%s>" % CPP[k], s): got |= {k, "n"}
            if "CachedEdge<%s>" % CPP[k] in s: got.add(k)
        if n == "idTable": got -= {"n"}
        if got != set(want): raise Unsupported("entries of %s refer to %s (%s)" % (n, sorted(got), t))

def t_gc():
    def run(ctx):
        D, st = setup(ctx); ex = ctx.ex; types_ok(ctx)
        fn = ctx.fn(lambda d: d == PKG + "garbageCollect(bool)"); ctx.loc = fn.dem
        force = Bool("force"); ctx.reach(st, "any state")
        for o in ctx.call(st, fn, [D.pkg, force]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            rem = s.ghost["removed"]
            some = {k: Or(*[n != 0 for kk, f, n in rem if kk == k]) if any(kk == k for kk, _, _ in rem) else BoolVal(False) for k in "vmdn"}
            r = o.ret; r = BoolVal(r) if type(r) is bool else (r if z3.is_bool(r) else bv(r, 8) != 0)
            ctx.oblige(s, "reports-success-iff-removed", r == Or(*some.values()))
            for k in "vmdn": ctx.oblige(s, "forced-collection-reaches-" + k, Implies(force, Or(*[f for kk, f, n in rem if kk == k])))
            for k in "vmd": ctx.oblige(s, "removed-numbers-force-collection-of-" + k, Implies(some["n"], Or(*[f for kk, f, n in rem if kk == k])))
            for t, ks in REFERS.items():
                if t in s.ghost["cleared"]: ctx.oblige(s, "forgotten-" + t, BoolVal(True)); continue
                for k in ks: ctx.oblige(s, "forgotten-%s-when-%s-removed" % (t, k), Not(some[k]))
    return Task("Package::garbageCollect", "", run, merge=False)

def t_clear(name, emptied):
    def run(ctx):
        D, st = setup(ctx)
        fn = ctx.fn(lambda d: d == PKG + name + "()"); ctx.loc = fn.dem; ctx.reach(st, "any state")
        for o in ctx.call(st, fn, [D.pkg]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            for t in REFERS: ctx.oblige(s, "forgotten-" + t, BoolVal(t in s.ghost["cleared"]))
            for k in emptied: ctx.oblige(s, "emptied-" + k, BoolVal(k in s.ghost["emptied"]))
    return Task("Package::" + name, "", run, merge=False)

def tasks(mod): return [t_gc(), t_clear("clearComputeTables", ""), t_clear("reset", "vmdn")]
