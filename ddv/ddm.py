"""Decision-diagram semantics for the contracts of dd::Package.

Numbers.  A Complex is a pair of handles.  Every function that touches the value behind a handle is either replaced by
its contract (ComplexNumbers, CTEntry::val: proved under C01, C02, C04) or reads it through the on_load hook below; the
current value of every handle is kept in st.ghost["num"].  Scratch numbers are owned: st.ghost["lent"] lists the pairs the
function under proof holds.  Writing needs ownership, returning gives it up, reading a returned number after the next one has
been handed out is an error, and at every return exactly the result may still be owned.

Diagrams.  AMP[kind](p) is the entry of the node p selected by one arbitrary but fixed assignment of the index bits;
TOP[kind,k](p) is the entry when the bit(s) of p's own level select successor k:  TOP_k(p) = w_k * AMP(child_k).
Since the assignment is arbitrary, a statement proved for every k holds for AMP, i.e. for every entry.
"""
import z3
from z3 import *
from .lib import *

PKG = "dd::Package<dd::DDPackageConfig>::"
CN = "dd::ComplexNumbers::"
P = BitVecSort(64)
NSUCC = {"v": 2, "m": 4, "d": 4}
ESZ = 24
NODE = {"v": "struct.dd::vNode", "m": "struct.dd::mNode", "d": "struct.dd::dNode"}
CPP = {"v": "dd::vNode", "m": "dd::mNode", "d": "dd::dNode"}
VOFF = {"v": 60, "m": 108, "d": 108}
FOFF = {"m": 109, "d": 109}
VALF = Function("VAL0", P, RealSort())

def fpair(name):
    return (Function(name + "r", P, RealSort()), Function(name + "i", P, RealSort()))
AMP = {k: fpair("AMP" + k) for k in "vmd"}
TOP = {(k, j): fpair("TOP%s%d" % (k, j)) for k in "vmd" for j in range(NSUCC[k])}

# complex values as pairs of real terms
def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def csub(a, b): return (a[0] - b[0], a[1] - b[1])
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def cconj(a): return (a[0], -a[1])
def cneg(a): return (-a[0], -a[1])
def ceq(a, b): return [a[0] == b[0], a[1] == b[1]]
C0 = (RealVal(0), RealVal(0)); C1 = (RealVal(1), RealVal(0))
def app(f, *a): return (f[0](*a), f[1](*a))

class Num:
    """immutable record of the number world at one point of one path"""
    __slots__ = ("vals", "lent", "freed", "temp", "dead", "neg", "stored", "pair")
    def __init__(self):
        self.vals = {}; self.lent = (); self.freed = frozenset(); self.temp = None; self.dead = frozenset(); self.neg = {}; self.stored = frozenset(); self.pair = {}
    def copy(self):
        n = Num(); n.vals, n.lent, n.freed, n.temp, n.dead, n.neg, n.stored, n.pair = dict(self.vals), self.lent, self.freed, self.temp, self.dead, dict(self.neg), self.stored, self.pair
        return n

class DD:
    def __init__(self, ctx, pkg=True, feas=40):
        self.ctx = ctx; self.ex = ex = ctx.ex
        self.Z, self.O, self.S2 = ctx.zero(), ctx.one(), ctx.sq()
        self.bz, self.bo = BitVecVal(self.Z, 64), BitVecVal(self.O, 64)
        ex.feas_timeout = feas
        self.T = {}
        for k in "vmd":
            self.T[k] = self.terminal(k)
        self.bot = BitVec("BOT", 8)
        ex.defs["rewrite"] = True; ex.defs["feas_light"] = True
        ex.defs["on_load"] = self.on_load
        ex.defs["on_store_value"] = self.on_store_value
        self.members = ctx.mod.members(name="Package<dd::DDPackageConfig>")
        ex.contracts += self.number_contracts()

    # ------------------------------------------------------------------ setup
    def terminal(self, k):
        ex = self.ex
        for n, d in ex.mod.dem.items():
            if d == CPP[k] + "::terminalNode" and n in ex.mod.globals: return ex.gaddr(n)
        raise Unsupported("no terminal node for " + k)
    def edgetype(self, k):
        ex = self.ex
        for n, d in ex.mod.dem.items():
            if n in ex.mod.globals and d == "dd::Edge<%s>::zero" % CPP[k]:
                g = ex.global_init(n)
                return g[1], n
        raise Unsupported("no Edge<%s>::zero" % k)
    def state(self):
        ctx, ex = self.ctx, self.ex
        st = ctx.state(0)
        st.ghost["num"] = Num()
        st.assume([VALF(self.bz) == 0, VALF(self.bo) == 1, VALF(BitVecVal(self.S2, 64)) == R2, self.bot >= 0])
        for k in "vmd":
            try: ty, _ = self.edgetype(k)
            except Unsupported: continue
            rt = ex.canon(ex.rootname(ty))
            for which, w in (("zero", self.Z), ("one", self.O)):
                try: a = ex.gdem("dd::Edge<%s>::%s" % (CPP[k], which))
                except Unsupported: continue
                for off, v in ((0, self.T[k]), (8, w), (16, self.Z)):
                    key = (rt, off, (), "p")
                    st.heap[key] = Store(ctx.region(st, key), BitVecVal(a, 64), BitVecVal(v, 64))
            T = BitVecVal(self.T[k], 64)
            st.assume(self.lev(st, k, T) == BitVecVal(0xff, 8))
            st.assume([AMP[k][0](T) == 1, AMP[k][1](T) == 0])
            for j in range(NSUCC[k]): st.assume([TOP[(k, j)][0](T) == 1, TOP[(k, j)][1](T) == 0])
        self.pkg = ctx.obj(st, "pkg", "class.dd::Package")
        return st
    def member(self, name):
        if name not in self.members: raise Unsupported("no member Package::" + name)
        return self.members[name]

    # ------------------------------------------------------------------ node heap
    def key(self, k, off, nk): return (NODE[k], off, (), nk)
    def child(self, st, k, p, j):
        c = self.ctx
        g = lambda o: self.ex.select(c.region(st, self.key(k, ESZ * j + o, "p")), [p])
        return g(0), g(8), g(16)
    def lev(self, st, k, p): return self.ex.select(self.ctx.region(st, self.key(k, VOFF[k], "i8")), [p])
    def flags(self, st, k, p): return self.ex.select(self.ctx.region(st, self.key(k, FOFF[k], "i8")), [p])
    def isT(self, k, p): return p == BitVecVal(self.T[k], 64)
    def effl(self, st, k, p):
        if type(p) is int: p = BitVecVal(p, 64)
        if z3.is_bv_value(p): return self.bot - 1 if p.as_long() == self.T[k] else self.lev(st, k, p)
        return If(self.isT(k, p), self.bot - 1, self.lev(st, k, p))
    def zeroh(self, h):
        h = bv(h, 64)
        return h == self.bz
    def node(self, st, k, p, level=None, sem=True):
        """assume: p is a stored non-terminal node in normal form; returns its successors [(child, hr, hi)]"""
        p = bv(p, 64)
        st.assume([p != 0, Not(self.isT(k, p)), Extract(2, 0, p) == 0])
        L = self.lev(st, k, p)
        st.assume([L >= self.bot, L <= BitVecVal(126, 8)])
        if level is not None: st.assume(L == level)
        out = []
        for j in range(NSUCC[k]):
            c, r, i = self.child(st, k, p, j)
            st.assume([And(self.zeroh(r), self.zeroh(i)) == And(VALF(r) == 0, VALF(i) == 0), self.zeroh(r) == (VALF(r) == 0), self.zeroh(i) == (VALF(i) == 0),
                       Implies(And(self.zeroh(r), self.zeroh(i)), self.isT(k, c)),
                       Or(And(self.zeroh(r), self.zeroh(i)), And(self.effl(st, k, c) == L - 1, Implies(L != self.bot, Not(self.isT(k, c))))),
                       self.isT(k, c) == (self.lev(st, k, c) == BitVecVal(0xff, 8)), c != 0])
            st.assume([(VALF(r) == 1) == (r == self.bo), (VALF(i) == 1) == (i == self.bo)])
            self.store_ok(st, r); self.store_ok(st, i)
            if sem: st.assume(ceq(app(TOP[(k, j)], p), cmul((VALF(r), VALF(i)), app(AMP[k], c))))
            out.append((c, r, i))
        return out
    def edge(self, st, k, name, p=None, r=None, i=None):
        """an Edge object with symbolic contents; returns (pointer, p, hr, hi)"""
        ex = self.ex; ty, _ = self.edgetype(k)
        o = self.ctx.obj(st, name, ty, symbolic=False)
        p = BitVec(name + ".p", 64) if p is None else p
        r = BitVec(name + ".w.r", 64) if r is None else r
        i = BitVec(name + ".w.i", 64) if i is None else i
        for off, v in ((0, p), (8, r), (16, i)): self.ctx.setcell(st, o, off, PTR, v)
        return o, p, r, i
    def read_edge(self, st, ptr):
        c = self.ctx
        return tuple(self.norm(c.cell(st, ptr, o, PTR)) for o in (0, 8, 16))
    def norm(self, h):
        h = self.ex.pbv(h)
        return BitVecVal(h, 64) if type(h) is int else h
    def put_edge(self, st, ptr, p, r, i):
        q = self.ex.asptr(ptr)
        for off, v in ((0, p), (8, r), (16, i)):
            self.ex.store(st, Ptr(q.base, q.rt, q.off + off, q.sym), PTR, v)

    # ------------------------------------------------------------------ numbers
    def num(self, st): return st.ghost["num"]
    def wnum(self, st):
        n = st.ghost["num"].copy(); st.ghost["num"] = n; return n
    def store_ok(self, st, h):
        """h is known to be the handle of a stored number"""
        n = self.wnum(st); n.stored = n.stored | {h.get_id()}; self._keep = getattr(self, "_keep", []); self._keep.append(h)
    def is_stored(self, st, h):
        h = bv(h, 64); n = self.num(st)
        if z3.is_bv_value(h): return True
        if h.get_id() in n.stored: return True
        if h.get_id() in n.neg: return self.is_stored(st, n.neg[h.get_id()])
        if self.known_zero(st, h): return True
        return False
    def known_zero(self, st, h):
        if z3.is_bv_value(h): return h.as_long() == self.Z
        for c in (h == self.bz, self.bz == h):
            if c.get_id() in st.pcids: return True
        g = self.num(st).pair.get(h.get_id())
        if g is not None:
            for c in (g == self.bz, self.bz == g):
                if c.get_id() in st.pcids: return True
        return False
    def rd(self, st, h):
        """current signed value of a handle"""
        h = self.norm(h)
        n = self.num(st)
        if z3.is_bv_value(h):
            v = h.as_long(); s = v & 1; v &= ~1
            x = {self.Z: RealVal(0), self.O: RealVal(1), self.S2: R2}.get(v)
            if x is None: raise Unsupported("number handle %x" % v)
            return -x if s else x
        i = h.get_id()
        if self.known_zero(st, h): return RealVal(0)
        if i in n.neg: return rneg2(self.rd(st, n.neg[i]))
        if i in n.dead:
            self.ex.oblige(st, "scratch number read after it was given back and reused", BoolVal(False))
            return self.ex.fresh("stale", RealSort())
        if i in n.vals: return n.vals[i][1]
        if z3.is_app_of(h, z3.Z3_OP_ITE):
            c, a, b = h.children()
            k = self.ex.known(st, c)
            if k is True: return self.rd(st, a)
            if k is False: return self.rd(st, b)
            return If(c, self.rd(st, a), self.rd(st, b))
        if z3.is_const(h) or z3.is_select(h): return VALF(h)
        raise Unsupported("value of handle " + str(h)[:80])
    def cval(self, st, r, i): return (self.rd(st, r), self.rd(st, i))
    def rdc(self, st, ptr):
        """value of the Complex object at ptr"""
        return self.cval(st, *self.hc(st, ptr))
    def hc(self, st, ptr):
        c = self.ctx; q = self.ex.asptr(ptr)
        if not q.isobj() and q.rt is None: q = Ptr(q.base, self.ex.canon("struct.dd::Complex"), q.off, q.sym)
        return self.norm(c.cell(st, q, 0, PTR)), self.norm(c.cell(st, q, 8, PTR))
    def expire(self, st):
        """a scratch number is handed out: returned ones and temporaries may be reused from here on"""
        n = self.wnum(st)
        n.dead = n.dead | n.freed; n.freed = frozenset(); n.temp = None
    def issue(self, st, v, cond=None, name="sc"):
        """hand out a scratch number with value v (the callee or pool guarantees it is not one in use)"""
        ex = self.ex
        self.expire(st)
        r, i = ex.fresh(name + ".r", P), ex.fresh(name + ".i", P)
        n = self.wnum(st)
        n.vals[r.get_id()] = (r, v[0]); n.vals[i.get_id()] = (i, v[1])
        n.lent = n.lent + ((r, i, cond),)
        if cond is None:
            st.assume([r != self.bz, i != self.bz, r != self.bo, i != self.bo, r != i])
        return r, i
    def zero_or_scratch(self, st, k, v, name):
        """result edge of a callee: Edge::zero, or a fresh scratch weight with value v"""
        ex = self.ex
        r, i = self.issue(st, v, True, name)
        p = ex.fresh(name + ".p", P)
        g = r != self.bz
        n = self.wnum(st); n.lent = n.lent[:-1] + ((r, i, g),)
        n.pair = dict(n.pair); n.pair[r.get_id()] = i; n.pair[i.get_id()] = r
        st.assume([(r == self.bz) == (i == self.bz), Implies(r == self.bz, And(self.isT(k, p), v[0] == 0, v[1] == 0)), r != self.bo, i != self.bo, Implies(g, r != i), p != 0])
        return p, r, i
    def find_lent(self, st, r, i):
        for e in self.num(st).lent:
            if e[0].eq(r) and e[1].eq(i): return e
        return None
    def release(self, st, r, i, what="returnToCache"):
        e = self.find_lent(st, r, i)
        if e is None:
            self.ex.oblige(st, what + ": the number given back is a scratch number in use", BoolVal(False)); return
        if e[2] is not None: self.ex.oblige(st, what + ": the number given back is a scratch number in use", e[2])
        n = self.wnum(st); n.lent = tuple(x for x in n.lent if x is not e)
        n.freed = n.freed | {r.get_id(), i.get_id()}
    def write(self, st, ptr, v):
        """r := v through one of the static arithmetic functions"""
        r, i = self.hc(st, ptr)
        n = self.num(st)
        e = self.find_lent(st, r, i)
        if e is not None:
            if e[2] is not None: self.ex.oblige(st, "write to a scratch number in use", e[2])
            n = self.wnum(st)
        elif n.temp is not None and n.temp[0].eq(r) and n.temp[1].eq(i):
            n = self.wnum(st)
            # the temporary may be the storage of numbers given back before
            n.dead = n.dead | (n.freed - {r.get_id(), i.get_id()}); n.freed = frozenset({r.get_id(), i.get_id()})
        elif r.get_id() in n.freed and i.get_id() in n.freed and not r.eq(i):
            # a number just given back, not handed out again yet; it may be the storage of the temporary
            n = self.wnum(st)
            if n.temp is not None: n.dead = n.dead | {x.get_id() for x in n.temp}; n.temp = None
        else:
            self.ex.oblige(st, "the written number is a scratch number in use or the current temporary", BoolVal(False))
            n = self.wnum(st)
        n.vals[r.get_id()] = (r, v[0]); n.vals[i.get_id()] = (i, v[1])
    def temporary(self, st, v=None):
        n = self.num(st)
        if n.temp is None:
            r, i = self.ex.fresh("tmp.r", P), self.ex.fresh("tmp.i", P)
            n = self.wnum(st); n.temp = (r, i)
            st.assume([r != self.bz, i != self.bz, r != self.bo, i != self.bo, r != i])
            n.vals[r.get_id()] = (r, self.ex.fresh("garbage", RealSort())); n.vals[i.get_id()] = (i, self.ex.fresh("garbage", RealSort()))
        r, i = n.temp
        if v is not None:
            n = self.wnum(st)
            n.vals[r.get_id()] = (r, v[0]); n.vals[i.get_id()] = (i, v[1])
            n.dead = (n.dead | n.freed) - {r.get_id(), i.get_id()}; n.freed = frozenset({r.get_id(), i.get_id()})
        return r, i
    def stored_handle(self, st, v, name="lk"):
        """handle of a stored number of value v (ComplexTable is injective on values)"""
        h = self.ex.fresh(name, P)
        n = self.wnum(st); n.vals[h.get_id()] = (h, v); n.stored = n.stored | {h.get_id()}
        st.assume([(v == 0) == (h == self.bz), (v == 1) == (h == self.bo), VALF(h) == v])
        return h
    def lookupc(self, st, v):
        return self.sh(st, v[0]), self.sh(st, v[1])
    def sh(self, st, v):
        s = simplify(v)
        if z3.is_rational_value(s):
            if s.as_fraction() == 0: return self.bz
            if s.as_fraction() == 1: return self.bo
        return self.stored_handle(st, v)
    def neg_handle(self, st, h):
        if z3.is_bv_value(h):
            return h if h.as_long() == self.Z else BitVecVal(h.as_long() ^ 1, 64)
        n = self.num(st)
        if h.get_id() in n.neg: return n.neg[h.get_id()]
        g = self.ex.fresh("neg", P)
        n = self.wnum(st); n.neg[g.get_id()] = h; self._keep = getattr(self, "_keep", []); self._keep.append(g)
        st.assume((g == self.bz) == (h == self.bz))
        return g
    # consequences of a value having been tested to be zero:  0 * entry(node) = 0
    def track(self, st, what, x): st.ghost[what] = st.ghost.get(what, ()) + (x,)
    def hints(self, st):
        for v in st.ghost.get("ztest", ()):
            zs = [c for c in v if any(q.get_id() in st.pcids for q in (c == 0, RealVal(0) == c))]
            if len(zs) < 2 and not all(self.ex.known(st, c == 0) is True for c in v): continue
            for k, p in st.ghost.get("nodes", ()):
                for f in [AMP[k]] + [TOP[(k, j)] for j in range(NSUCC[k])]:
                    st.assume([c == 0 for c in cmul(v, app(f, p))])
    # direct accesses to Entry::value
    def on_load(self, ex, st, key, idx, p):
        if key != VREG: return None
        h = self.norm(p)
        n = self.num(st)
        if z3.is_bv_value(h): return self.rd(st, h)
        if h.get_id() in n.vals and (any(e[0].eq(h) or e[1].eq(h) for e in n.lent) or (n.temp and (n.temp[0].eq(h) or n.temp[1].eq(h)))): return self.rd(st, h)
        raise Unsupported("direct read of a number's magnitude outside the arithmetic functions")
    def on_store_value(self, ex, st, key, idx, p, v):
        if key != VREG: return False
        h = self.norm(p); n = self.num(st)
        for e in n.lent:
            if e[0].eq(h) or e[1].eq(h):
                if e[2] is not None: ex.oblige(st, "write to a scratch number in use", e[2])
                n = self.wnum(st); n.vals[h.get_id()] = (h, v); return True
        ex.oblige(st, "the written number is a scratch number in use", BoolVal(False)); return True
    def number_contracts(self):
        D = self; ctx = self.ctx
        cs = []
        def add(name, h): cs.append((CN + name, h))
        CR = "dd::Complex const&"
        def arith(op):
            def f(a, b):
                if op == "add": return cadd(a, b)
                if op == "sub": return csub(a, b)
                if op == "mul": return cmul(a, b)
            return f
        def divf(st, a, b):
            q = (D.ex.fresh("quot", RealSort()), D.ex.fresh("quot", RealSort()))
            D.ex.oblige(st, "division by a non-zero number", Or(b[0] != 0, b[1] != 0))
            st.assume(ceq(cmul(q, b), a))
            return q
        for op in ("add", "sub", "mul", "div"):
            def bind(op=op):
                def two(ex, st, args, i):
                    a, b = D.rdc(st, args[1]), D.rdc(st, args[2])
                    D.write(st, args[0], divf(st, a, b) if op == "div" else arith(op)(a, b))
                    return ("val", None)
                def cached(ex, st, args, i):
                    # the scratch number is taken before the operands are read
                    D.expire(st)
                    a, b = D.rdc(st, args[1]), D.rdc(st, args[2])
                    return ("val", D.issue(st, divf(st, a, b) if op == "div" else arith(op)(a, b)))
                add("%s(dd::Complex&, %s, %s)" % (op, CR, CR), two)
                add("%sCached(%s, %s)" % (op, CR, CR), cached)
            bind()
        def mag2(ex, st, args, i):
            a = D.rdc(st, args[0]); return ("val", a[0] * a[0] + a[1] * a[1])
        add("mag2(%s)" % CR, mag2)
        def mag(ex, st, args, i):
            from .builtins import rsqrt
            a = D.rdc(st, args[0]); return ("val", rsqrt(ex, st, a[0] * a[0] + a[1] * a[1]))
        add("mag(%s)" % CR, mag)
        def conj(ex, st, args, i):
            r, m = D.hc(st, args[0]); return ("val", (r, D.neg_handle(st, m)))
        add("conj(%s)" % CR, conj)
        def neg(ex, st, args, i):
            r, m = D.hc(st, args[0]); return ("val", (D.neg_handle(st, r), D.neg_handle(st, m)))
        add("neg(%s)" % CR, neg)
        DR = "double const&, double const&"
        dbl = lambda st, p: ctx.cell(st, p, 0, DBL)
        cv = lambda st, p: (ctx.cell(st, p, 0, DBL), ctx.cell(st, p, 8, DBL))
        def lk_c(ex, st, args, i):
            r, m = D.hc(st, args[1])
            return ("val", D.lookupc(st, D.cval(st, r, m)))
        add("lookup(%s)" % CR, lk_c)
        add("lookup(%s)" % DR, lambda ex, st, a, i: ("val", D.lookupc(st, (dbl(st, a[1]), dbl(st, a[2])))))
        for t in ("dd::ComplexValue const&", "std::complex<double> const&"):
            add("lookup(%s)" % t, lambda ex, st, a, i: ("val", D.lookupc(st, cv(st, a[1]))))
            add("getCached(%s)" % t, lambda ex, st, a, i: ("val", D.issue(st, cv(st, a[1]))))
            add("getTemporary(%s)" % t, lambda ex, st, a, i: ("val", D.temporary(st, cv(st, a[1]))))
        add("getCached(%s)" % DR, lambda ex, st, a, i: ("val", D.issue(st, (dbl(st, a[1]), dbl(st, a[2])))))
        add("getTemporary(%s)" % DR, lambda ex, st, a, i: ("val", D.temporary(st, (dbl(st, a[1]), dbl(st, a[2])))))
        add("getTemporary()", lambda ex, st, a, i: ("val", D.temporary(st)))
        add("getCached()", lambda ex, st, a, i: ("val", D.issue(st, (ex.fresh("garbage", RealSort()), ex.fresh("garbage", RealSort())))))
        def ret(ex, st, args, i):
            r, m = D.hc(st, args[1]); D.release(st, r, m); return ("val", None)
        add("returnToCache(dd::Complex&)", ret)
        add("cacheCount() const", lambda ex, st, a, i: ("val", ex.fresh("cachecount", P)))
        cs.append((lambda d: d.startswith("dd::ComplexCache<") and d.endswith("::getCount() const"), lambda ex, st, a, i: ("val", ex.fresh("cachecount", P))))
        cs.append((lambda d: d.startswith("dd::ComplexTable<") and "::Entry::val(" in d, lambda ex, st, a, i: ("val", D.rd(st, a[0]))))
        # predicates of Complex: one condition each (proved under C01)
        cx = "dd::Complex::"
        def pair(st, a): return D.hc(st, a)
        def eqh(st, a):
            (r, m), (r2, m2) = pair(st, a[0]), pair(st, a[1]); return And(r == r2, m == m2)
        cs.append((cx + "operator==(dd::Complex const&) const", lambda ex, st, a, i: ("val", simplify(eqh(st, a)))))
        cs.append((cx + "operator!=(dd::Complex const&) const", lambda ex, st, a, i: ("val", simplify(Not(eqh(st, a))))))
        cs.append((cx + "exactlyZero() const", lambda ex, st, a, i: ("val", simplify(And(*[h == D.bz for h in pair(st, a[0])])))))
        def xone(ex, st, a, i):
            r, m = pair(st, a[0]); return ("val", simplify(And(r == D.bo, m == D.bz)))
        cs.append((cx + "exactlyOne() const", xone))
        def azero(ex, st, a, i):
            v = D.rdc(st, a[0]); D.track(st, "ztest", v); return ("val", And(v[0] == 0, v[1] == 0))
        def aone(ex, st, a, i):
            v = D.rdc(st, a[0]); return ("val", And(v[0] == 1, v[1] == 0))
        def aeq(ex, st, a, i):
            v, w = D.rdc(st, a[0]), D.rdc(st, a[1]); return ("val", And(v[0] == w[0], v[1] == w[1]))
        cs.append((cx + "approximatelyZero() const", azero))
        cs.append((cx + "approximatelyOne() const", aone))
        cs.append((cx + "approximatelyEquals(dd::Complex const&) const", aeq))
        return cs

    # ------------------------------------------------------------------ memo tables
    def this_member(self, p):
        p = self.ex.asptr(p)
        if not p.isobj() or p.base != self.pkg.base: raise Unsupported("memo table outside the package")
        for n, o in self.members.items():
            if o == p.off and n not in ("cn",): return n
        raise Unsupported("unknown package member at offset %d" % p.off)
    def cachedkey(self, st, ptr):
        """CachedEdge argument -> (p, value)"""
        c = self.ctx
        return (self.norm(c.cell(st, ptr, 0, PTR)), (c.cell(st, ptr, 8, DBL), c.cell(st, ptr, 16, DBL)))
    def edgekey(self, st, ptr):
        p, r, i = self.read_edge(st, ptr)
        return (p, self.cval(st, r, i), r, i)
    def memo(self, tables):
        """tables: {member: dict(left=, right=, kind=result kind, rel=lambda st, left, right, p, value -> [facts])}
        left/right: 'cached' or 'edge' ; result: 'cached' (values) or 'edge' (stored handles)"""
        D = self; ctx = self.ctx; ex0 = self.ex
        def keyof(st, how, ptr): return D.cachedkey(st, ptr) if how == "cached" else D.edgekey(st, ptr)
        def spec(this):
            n = D.this_member(this)
            if n not in tables: raise Unsupported("memo table %s has no relation here" % n)
            return n, tables[n]
        def lookup(ex, st, args, i):
            out, this = args[0], args[1]
            n, t = spec(this)
            ks = [keyof(st, t["left"], args[2])]
            if t.get("right"): ks.append(keyof(st, t["right"], args[3]))
            k = t["kind"]
            miss = st.copy(); hit = st
            q = ex.asptr(out)
            at = lambda o: Ptr(q.base, q.rt, q.off + o, q.sym)
            p = ex.fresh("hit.p", P); v = (ex.fresh("hit.re", RealSort()), ex.fresh("hit.im", RealSort()))
            hit.assume([p != 0], True)
            ex.store(hit, at(0), PTR, p); 
            if t.get("result", "cached") == "cached":
                ex.store(hit, at(8), DBL, v[0]); ex.store(hit, at(16), DBL, v[1])
                ex.store(miss, at(0), PTR, 0); ex.store(miss, at(8), DBL, RealVal(0)); ex.store(miss, at(16), DBL, RealVal(0))
            else:
                r, m = D.lookupc(hit, v)
                ex.store(hit, at(8), PTR, r); ex.store(hit, at(16), PTR, m)
                ex.store(miss, at(0), PTR, 0); ex.store(miss, at(8), PTR, 0); ex.store(miss, at(16), PTR, 0)
            hit.assume(t["rel"](hit, *ks, p, v)); D.track(hit, "nodes", (k, p))
            hit.br.append(BoolVal(True))
            return ("multi", [(miss, None), (hit, None)])
        def insert(ex, st, args, i):
            n, t = spec(args[0])
            ks = [keyof(st, t["left"], args[1])]
            if t.get("right"): ks.append(keyof(st, t["right"], args[2]))
            how = "cached" if t.get("result", "cached") == "cached" else "edge"
            r = keyof(st, how, args[3 if t.get("right") else 2])
            if how == "edge" and not (D.is_stored(st, r[2]) and D.is_stored(st, r[3])): ex.oblige(st, "memo %s: the stored result is not a scratch number" % n, BoolVal(False))
            for j, g in enumerate(t["rel"](st, *ks, r[0], r[1])): ex.oblige(st, "memo %s: inserted result is correct.%d" % (n, j), g)
            return ("val", None)
        isct = lambda d: d.startswith("dd::ComputeTable<") or d.startswith("dd::UnaryComputeTable<")
        self.ex.contracts += [(lambda d: isct(d) and ">::lookup(" in d, lookup), (lambda d: isct(d) and ">::insert(" in d, insert)]

    # ------------------------------------------------------------------ makeDDNode
    def edge_sem(self, k, val, p): return cmul(val, app(AMP[k], p))
    def top_sem(self, k, j, val, p): return cmul(val, app(TOP[(k, j)], p))
    def consume(self, st, r, i, what):
        e = self.find_lent(st, r, i)
        if e is not None:
            n = self.wnum(st); n.lent = tuple(x for x in n.lent if x is not e)
            return
        if self.known_zero(st, r) and self.known_zero(st, i): return
        self.ex.oblige(st, what + ": weight is an owned scratch number or exactly zero", And(self.zeroh(r), self.zeroh(i)))
    def level_ok(self, st, k, p, r, i, level):
        return Or(And(self.zeroh(r), self.zeroh(i)), self.effl(st, k, p) == level)
    def makeDDNode(self, kinds="vm", extra=None):
        """contract of makeDDNode<Node>(var, edges, cached, flag); proved by the C10 tasks"""
        D = self
        def handler(k):
            def h(ex, st, args, i):
                out, this, var, arr = args[:4]; cached = args[4]
                if type(cached) is not bool: raise Unsupported("makeDDNode with symbolic cached flag")
                var8 = bv(var, 8)
                q = ex.asptr(arr)
                es = []
                for j in range(NSUCC[k]):
                    p, r, m = D.read_edge(st, Ptr(q.base, q.rt, q.off + ESZ * j, q.sym))
                    es.append((p, r, m, D.cval(st, r, m)))
                for j, (p, r, m, v) in enumerate(es):
                    ex.oblige(st, "makeDDNode: successor %d is zero or at the level below" % j, D.level_ok(st, k, p, r, m, var8 - 1))
                    if cached: D.consume(st, r, m, "makeDDNode: successor %d" % j)
                    else:
                        for x in (r, m):
                            if not D.is_stored(st, x): ex.oblige(st, "makeDDNode: successor %d has a stored weight" % j, Or(bv(x, 64) == D.bz, bv(x, 64) == D.bo))
                v = (ex.fresh("node.re", RealSort()), ex.fresh("node.im", RealSort()))
                if cached: p, r, m = D.zero_or_scratch(st, k, v, "node")
                else:
                    D.expire(st) 
                    p = ex.fresh("node.p", P)
                    r, m = D.lookupc(st, v)
                    st.assume([Implies(And(r == D.bz, m == D.bz), D.isT(k, p)), p != 0])
                zero = And(r == D.bz, m == D.bz)
                st.assume(zero == And(v[0] == 0, v[1] == 0))
                st.assume(zero == And(*[And(w[3][0] == 0, w[3][1] == 0) for w in es]))
                st.assume(Or(zero, And(Not(D.isT(k, p)), D.lev(st, k, p) == var8)))
                for j in range(NSUCC[k]):
                    st.assume(ceq(D.top_sem(k, j, v, p), D.edge_sem(k, es[j][3], es[j][0])))
                if extra: extra(ex, st, k, var8, es, p, r, m, v)
                D.put_edge(st, out, p, r, m); D.track(st, "nodes", (k, p))
                return ("val", None)
            return h
        for k in kinds:
            self.ex.contracts.append(((lambda d, k=k: "::makeDDNode<%s>(" % CPP[k] in d), handler(k)))

    # ------------------------------------------------------------------ end of a function
    def result(self, st, ptr): return self.read_edge(st, ptr)
    def result_stored(self, ctx, st, r, i):
        """result weight of an uncached operation: handles of stored numbers"""
        for h, n in ((r, "re"), (i, "im")):
            if not self.is_stored(st, h): ctx.oblige(st, "result-weight-stored." + n, bv(h, 64) == self.bz)
    def nodes_unchanged(self, ctx, st, st0):
        """no node that existed before was written by the function under proof (its callees' effects are in their contracts)"""
        names = {self.ex.canon(n) for n in NODE.values()} | set(NODE.values())
        q = BitVec("any_node", 64)
        for key, arr in st.heap.items():
            if key[0] not in names: continue
            old = ctx.region(st0, key)
            if old.eq(arr): continue
            ctx.oblige(st, "stored-nodes-unchanged", self.ex.select(arr, [q]) == self.ex.select(old, [q]))
    def leak_check(self, ctx, st, keep=()):
        """at return: every scratch number still owned is part of the result"""
        for e in self.num(st).lent:
            if any(e[0].eq(a) and e[1].eq(b) for a, b in keep): continue
            if e[2] is None: ctx.oblige(st, "scratch-returned", BoolVal(False))
            else: ctx.oblige(st, "scratch-returned", Not(e[2]))
    def scratch_or_zero(self, ctx, st, r, i):
        """result weight of a cached operation: owned scratch, or exactly zero"""
        e = self.find_lent(st, r, i)
        if e is not None: return
        ctx.oblige(st, "result-weight-is-scratch-or-zero", And(self.zeroh(r), self.zeroh(i)))

def rneg2(x):
    if z3.is_rational_value(x) and x.as_fraction() == 0: return x
    return -x
