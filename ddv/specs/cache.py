"""C04: the pool of scratch complex numbers (ComplexCache) and its users in ComplexNumbers."""
from ..lib import *
from ..chunks import *
from ..symex import LoopSpec, Inv

CC = "dd::ComplexCache<2048ul, 2ul>::"
CLS = "ComplexCache<2048UL, 2UL>"
DEF = {'available': 0, 'chunks': 8, 'chunkID': 32, 'chunkIt': 40, 'chunkEndIt': 48, 'allocationSize': 56, 'allocations': 64, 'count': 72, 'peakCount': 80}
# role of an entry address: 0 never handed out / unknown, 1 in use, 2 first and 3 second part of a free pair
ROLE = Array("role", BitVecSort(64), IntSort())
PREV = Array("prevfree", BitVecSort(64), BitVecSort(64))
e, f = BitVec("e", 64), BitVec("f", 64)

def FA(vs, body, pats):
    """patterns help when the role map is a plain constant (hypotheses)"""
    return ForAll(vs, body, patterns=[MultiPattern(*pats)] if len(pats) > 1 else pats) if all(is_const(p.arg(0)) for p in pats) else ForAll(vs, body)

class Cache:
    def __init__(self, ctx, st, symbolic=True):
        self.ctx = ctx
        self.obj = ctx.obj(st, "cache", "class.dd::ComplexCache", symbolic)
        self.ch = Chunks(ctx, self.obj, CLS, 24, "dd::ComplexTable<>::Entry", DEF)
    def next(self, st): return self.ctx.region(st, NREG)
    def inv(self, st, role, prev, goal=False):
        A = self.ch.get(st, "available"); N = self.next(st)
        it, end = self.ch.get(st, "chunkIt"), self.ch.get(st, "chunkEndIt")
        stat = [self.ctx.zero(), self.ctx.one(), self.ctx.sq()]
        out = [("free-head", Or(A == 0, And(role[A] == 2, prev[A] == 0))),
               ("free-first", FA([e], Implies(role[e] == 2, And(role[N[e]] == 3, prev[N[e]] == e)), [role[e]])),
               ("free-second", FA([e], Implies(role[e] == 3, Or(N[e] == 0, And(role[N[e]] == 2, prev[N[e]] == e))), [role[e]])),
               ("entries", FA([e], Implies(role[e] != 0, And(Extract(2, 0, e) == 0, UGT(e, B(1 << 32)), ULT(e, B(1 << 62)), role[e] >= 1, role[e] <= 3)), [role[e]])),
               ("disjoint", FA([e, f], Implies(And(role[e] != 0, role[f] != 0, e != f), Or(ULE(e + 24, f), ULE(f + 24, e))), [role[e], role[f]])),
               ("unhanded", FA([e], Implies(role[e] != 0, Or(ULE(e + 24, it), UGE(e, end))), [role[e]]))]
        return out + self.ch.wf(st, 2, goal)
    def assume_inv(self, st): st.assume([x for _, x in self.inv(st, ROLE, PREV)])
    def alloc(self, ex, st, b, en, n):
        # fresh memory: no entry known so far lies in it
        st.assume(ForAll([e], Implies(ROLE[e] != 0, Or(ULE(e + 24, b), UGE(e, en))), patterns=[ROLE[e]]))

def setup(ctx):
    st = ctx.state()
    c = Cache(ctx, st)
    c.assume_inv(st)
    c.ch.onalloc.append(c.alloc)
    ctx.ex.contracts.append((is_emplace("dd::ComplexTable<"), c.ch.emplace()))
    ctx.ex.contracts.append((lambda d: "::pop_back()" in d and "std::vector<std::vector<dd::ComplexTable<" in d, popback(c)))
    return st, c

def popback(c):
    def h(ex, st, args, i):
        p = args[0]
        fin = c.ch.finish(st)
        ctx = c.ctx
        ex.store(st, Ptr(c.obj.base, c.obj.rt, c.ch.off["chunks"] + 8), PTR, fin - 24)
        return ("val", None)
    return h

def method(ctx, name): return ctx.fn(lambda d: d.startswith("dd::ComplexCache<") and d.split("(")[0].endswith("::" + name))

def heapframe(ctx, s, V0, H0, allowed=()):
    """entries in use keep value and count"""
    V1 = ctx.V(s); R0 = Const("H_" + "_".join(str(x) for x in RREG), ArraySort(BitVecSort(64), BitVecSort(32)))
    R1 = ctx.region(s, RREG)
    g = [ROLE[e] == 1] + [e != a for a in allowed]
    return ForAll([e], Implies(And(*g), And(V1[e] == V0[e], R1[e] == R0[e])))

def t_get():
    def run(ctx):
        fn = method(ctx, "getCachedComplex"); ctx.loc = fn.dem
        st, c = setup(ctx)
        n0 = c.ch.geti(st, "count"); V0 = ctx.V(st)
        ctx.reach(st, "invariant")
        for o in ctx.call(st, fn, [c.obj]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state
            r, i = [bv(ctx.ex.pbv(x), 64) for x in o.ret]
            ctx.oblige(s, "not-in-use", And(ROLE[r] != 1, ROLE[i] != 1))
            ctx.oblige(s, "parts-distinct", And(r != i, Or(ULE(r + 24, i), ULE(i + 24, r))))
            ctx.oblige(s, "count", c.ch.geti(s, "count") == n0 + 2)
            role = Store(Store(ROLE, r, 1), i, 1)
            prev = If(c.ch.get(s, "available") == 0, PREV, Store(PREV, c.ch.get(s, "available"), B(0)))
            for nm, g in c.inv(s, role, prev, True): ctx.oblige(s, "inv-" + nm, g)
            ctx.oblige(s, "in-use-unchanged", heapframe(ctx, s, V0, None))
            stat_frame(ctx, s, V0)
    return Task("ComplexCache::getCachedComplex", "", run)

def stat_frame(ctx, s, V0):
    V1 = ctx.V(s)
    ctx.oblige(s, "shared-constants", And(*[V1[B(g)] == V0[B(g)] for g in (ctx.zero(), ctx.one(), ctx.sq())]))

def t_tmp():
    def run(ctx):
        fn = method(ctx, "getTemporaryComplex"); ctx.loc = fn.dem
        st, c = setup(ctx)
        n0 = c.ch.geti(st, "count"); V0 = ctx.V(st)
        for o in ctx.call(st, fn, [c.obj]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state
            r, i = [bv(ctx.ex.pbv(x), 64) for x in o.ret]
            ctx.oblige(s, "not-in-use", And(ROLE[r] != 1, ROLE[i] != 1))
            ctx.oblige(s, "apart-from-in-use", ForAll([e], Implies(ROLE[e] == 1, And(Or(ULE(e + 24, r), ULE(r + 24, e)), Or(ULE(e + 24, i), ULE(i + 24, e))))))
            ctx.oblige(s, "parts-distinct", Or(ULE(r + 24, i), ULE(i + 24, r)))
            ctx.oblige(s, "count", c.ch.geti(s, "count") == n0)
            for nm, g in c.inv(s, ROLE, PREV, True): ctx.oblige(s, "inv-" + nm, g)
            ctx.oblige(s, "in-use-unchanged", heapframe(ctx, s, V0, None))
            stat_frame(ctx, s, V0)
    return Task("ComplexCache::getTemporaryComplex", "", run)

def t_ret():
    def run(ctx):
        fn = method(ctx, "returnToCache"); ctx.loc = fn.dem
        st, c = setup(ctx)
        r, i = BitVec("c.r", 64), BitVec("c.i", 64)
        n0 = c.ch.geti(st, "count"); V0 = ctx.V(st); A0 = c.ch.get(st, "available")
        st.assume([ROLE[r] == 1, ROLE[i] == 1, r != i, UGE(n0, B(2))])
        p = ctx.obj(st, "c", "struct.dd::Complex"); ctx.setcell(st, p, 0, PTR, r); ctx.setcell(st, p, 8, PTR, i)
        ctx.reach(st, "precondition")
        for o in ctx.call(st, fn, [c.obj, p]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state; A = c.ch.get(s, "available")
            ctx.oblige(s, "available-again", Or(A == r, A == i))
            ctx.oblige(s, "count", c.ch.geti(s, "count") == n0 - 2)
            # the pair now heads the free list: first part A, second part the other one
            b = If(A == r, i, r)
            role = Store(Store(ROLE, A, 2), b, 3)
            prev = Store(Store(Store(PREV, A0, b), A, B(0)), b, A)
            for nm, g in c.inv(s, role, prev, True): ctx.oblige(s, "inv-" + nm, g)
            ctx.oblige(s, "in-use-unchanged", heapframe(ctx, s, V0, None, (r, i)))
            stat_frame(ctx, s, V0)
    return Task("ComplexCache::returnToCache", "", run)

def t_clear():
    def run(ctx):
        fn = method(ctx, "clear"); ctx.loc = fn.dem
        st, c = setup(ctx)
        def spec(ex, s, fn_, h, body):
            def cands(ex, s0):
                st0, f0 = c.ch.start(s0), c.ch.finish(s0)
                return [Inv("chunk-count", lambda s: And(c.ch.finish(s) - c.ch.start(s) == 24 * (c.ch.geti(s, "chunkID") + 1), ULT(c.ch.geti(s, "chunkID"), B(1 << 32)))),
                        Inv("data", lambda s: c.ch.start(s) == st0)]
            L = LoopSpec("clear", cands)
            L.variant = lambda a, b: ULT(c.ch.geti(b, "chunkID"), c.ch.geti(a, "chunkID"))
            return L
        ctx.ex.loopspec = spec
        b0, e0 = c.ch.elem(st, B(0), 0), c.ch.elem(st, B(0), 8)
        for o in ctx.call(st, fn, [c.obj]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state
            ctx.oblige(s, "count", c.ch.geti(s, "count") == 0)
            none = K(BitVecSort(64), IntVal(0))
            for nm, g in c.inv(s, none, PREV, True): ctx.oblige(s, "inv-" + nm, g)
            ctx.oblige(s, "whole-first-chunk", And(c.ch.get(s, "chunkIt") == b0, c.ch.get(s, "chunkEndIt") == e0))
    return Task("ComplexCache::clear", "", run)

def t_ctor():
    def run(ctx):
        fn = ctx.fn(lambda d: d.startswith("dd::ComplexCache<") and "::ComplexCache()" in d and "~" not in d); ctx.loc = fn.dem
        st = ctx.state()
        c = Cache(ctx, st, False)
        ctx.ex.contracts.append((is_emplace("dd::ComplexTable<"), c.ch.emplace()))
        for o in ctx.call(st, fn, [c.obj]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state
            none = K(BitVecSort(64), IntVal(0))
            for nm, g in c.inv(s, none, PREV, True): ctx.oblige(s, "inv-" + nm, g)
            ctx.oblige(s, "count", c.ch.geti(s, "count") == 0)
    return Task("ComplexCache::ComplexCache", "", run)

# ---- ComplexNumbers on top of the pool's contract
def pool_contracts(ctx, log):
    def get(kind):
        def h(ex, st, args, i):
            r, q = ex.fresh("scr.r", P64), ex.fresh("scr.i", P64)
            glob = [ctx.zero(), ctx.one(), ctx.sq()]
            st.assume([Extract(0, 0, r) == 0, Extract(0, 0, q) == 0, r != q, r != 0, q != 0, ROLE[r] != 1, ROLE[q] != 1] + [x != B(g) for x in (r, q) for g in glob])
            st.tags[kind] = st.tags.get(kind, 0) + 1
            st.tags["this"] = st.tags.get("this", ()) + (repr(args[0]),)
            return ("val", (r, q))
        return h
    ctx.ex.contracts.append((lambda d: d.startswith("dd::ComplexCache<") and d.endswith("::getCachedComplex()"), get("get")))
    ctx.ex.contracts.append((lambda d: d.startswith("dd::ComplexCache<") and d.endswith("::getTemporaryComplex()"), get("tmp")))

def t_wrap(name, sig, kind):
    """getCached/getTemporary with a value"""
    def run(ctx):
        fn = ctx.fn(lambda d: d == "dd::ComplexNumbers::%s(%s)" % (name, sig)); ctx.loc = fn.dem
        st = ctx.state()
        pool_contracts(ctx, None)
        this = ctx.obj(st, "cn", "struct.dd::ComplexNumbers")
        a, b = Real("re"), Real("im")
        V0 = ctx.V(st)
        if sig == "": args = []
        elif sig == "double const&, double const&":
            p, q = ctx.obj(st, "pr", DBL), ctx.obj(st, "pi", DBL)
            ctx.setcell(st, p, 0, DBL, a); ctx.setcell(st, q, 0, DBL, b); args = [p, q]
        else:
            p = ctx.obj(st, "val", "struct.dd::ComplexValue" if "ComplexValue" in sig else "class.std::complex")
            ctx.setcell(st, p, 0, DBL, a); ctx.setcell(st, p, 8, DBL, b); args = [p]
        for o in ctx.call(st, fn, [this] + args):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state; V1 = ctx.V(s)
            r, i = [bv(ctx.ex.pbv(x), 64) for x in o.ret]
            ctx.oblige(s, "one-from-pool", BoolVal(s.tags.get(kind, 0) == 1 and s.tags.get("tmp" if kind == "get" else "get", 0) == 0))
            ctx.oblige(s, "fresh", And(ROLE[r] != 1, ROLE[i] != 1, r != i, Extract(0, 0, r) == 0, Extract(0, 0, i) == 0))
            if sig: ctx.oblige(s, "requested-value", And(V1[r] == a, V1[i] == b))
            ctx.oblige(s, "others-unchanged", ForAll([e], Implies(And(e != r, e != i), V1[e] == V0[e])))
            for k in s.heap:
                if k != VREG and ("h", k) in s.wlog: ctx.oblige(s, "frame", BoolVal(False))
    return Task("ComplexNumbers::%s(%s)" % (name, sig), "", run)

def t_cnreturn():
    def run(ctx):
        fn = ctx.fn(lambda d: d == "dd::ComplexNumbers::returnToCache(dd::Complex&)"); ctx.loc = fn.dem
        st = ctx.state(); log = []
        def h(ex, s, args, i): s.tags["ret"] = s.tags.get("ret", ()) + (repr(args[0]), repr(args[1])); return ("val", None)
        ctx.ex.contracts.append((lambda d: d.startswith("dd::ComplexCache<") and "::returnToCache(" in d, h))
        this = ctx.obj(st, "cn", "struct.dd::ComplexNumbers"); p = ctx.obj(st, "c", "struct.dd::Complex")
        off = ctx.mod.offsets(ctx.mod.named("struct.dd::ComplexNumbers"))[1]
        for o in ctx.call(st, fn, [this, p]):
            t = o.state.tags.get("ret", ())
            ctx.oblige(o.state, "returned-once", BoolVal(o.kind == "ret" and t == (repr(Ptr(this.base, this.rt, off)), repr(p))))
    return Task("ComplexNumbers::returnToCache", "", run)

def t_cachecount():
    def run(ctx):
        fn = ctx.fn(lambda d: d.startswith("dd::ComplexNumbers::cacheCount()")); ctx.loc = fn.dem
        st = ctx.state()
        this = ctx.obj(st, "cn", "struct.dd::ComplexNumbers")
        off = ctx.mod.offsets(ctx.mod.named("struct.dd::ComplexNumbers"))[1] + ctx.mod.members(name=CLS).get("count", 72)
        n = ctx.cell(st, this, off, INT(64))
        for o in ctx.call(st, fn, [this]): ctx.oblige(o.state, "count", BoolVal(False) if o.kind != "ret" else bv(o.ret, 64) == n)
    return Task("ComplexNumbers::cacheCount", "", run)

def tasks(mod):
    T = [t_get(), t_tmp(), t_ret(), t_clear(), t_ctor(), t_cnreturn(), t_cachecount()]
    for s in ("", "double const&, double const&", "dd::ComplexValue const&"): T += [t_wrap("getTemporary", s, "tmp"), t_wrap("getCached", s, "get")]
    T.append(t_wrap("getCached", "std::complex<double> const&", "get"))
    return T
