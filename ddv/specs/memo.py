"""C09: memo tables (ComputeTable, UnaryComputeTable, ToffoliTable, DensityNoiseTable, StochasticNoiseOperationTable).

Entry(H(operands)) holds what insert put there, every other entry is untouched; lookup answers from Entry(H(operands)) and only if the
stored operands compare equal; H is a function of the operands (read frame) below the number of buckets; clear leaves no result."""
import re
from ..lib import *
from ..symex import LoopSpec, Inv
from .. import ir
from .ident import uses
from ..ddm import FOFF

P = BitVecSort(64)
I8 = ir.INT(8)
FLAGMASK = 7

class Part:
    """part of a key or the result: an edge with weight handles (E), an edge with a weight value (C), a byte (b), a container (s)"""
    def __init__(self, form, off, node=None): self.form, self.off, self.node = form, off, node

def nodeof(t):
    m = re.search(r"(vNode|mNode|dNode)", t); return m.group(1)[0]
def edgepart(t, off): return Part("C" if "CachedEdge" in t else "E", off, nodeof(t))

class Tab:
    def __init__(self, ctx, prefix, nb):
        self.ctx, self.ex, self.prefix, self.nb = ctx, ctx.ex, prefix, nb
        self.cls = self.typein("clear(", "class.dd::")
    def typein(self, meth, start):
        for f in self.ctx.mod.funcs.values():
            if f.dem.startswith(self.prefix + meth):
                f.parse()
                for b in f.blocks:
                    for i in b.ins:
                        if i.op == "getelementptr" and i.a["st"].k == "named" and i.a["st"].a.startswith(start): return i.a["st"].a
        raise Unsupported("type of " + self.prefix)
    def fn(self, meth): return self.ctx.fn(lambda d: d.startswith(self.prefix + meth))
    # ---- the table object
    def setup(self, st):
        ctx = self.ctx
        self.obj = ctx.obj(st, "tab", self.cls)
        mod = ctx.mod; T = mod.named(self.cls); r = mod.resolve(T)
        self.layout(st, r)
        self.tol = Real("tol"); ctx.settol(st, self.tol); st.assume([self.tol >= 0])
        self.ghosts = {}
    def layout(self, st, r):
        mod = self.ctx.mod
        offs = mod.offsets(r); self.tableoff = offs[0]; self.countoff = offs[3]
        a = mod.resolve(r.a[0]); arr = a.a[0]
        assert arr.k == "arr" and arr.a == self.nb, (arr, self.nb)
        ety = mod.resolve(arr.b); self.stride = mod.size(arr.b); self.parts(ety, mod.offsets(ety))
    def ptr(self, j, off):
        """address of a field of entry j"""
        o = self.obj
        if self.nb <= self.ex.BIG: return Ptr(o.base, o.rt, o.off + self.tableoff + off, o.sym) if self.nb == 1 else Ptr(o.base, o.rt, o.off + self.tableoff + off, o.sym + ((self.stride, j),))
        return Ptr(o.base, o.rt, o.off + self.tableoff + off, o.sym + ((self.stride, j),))
    def parts(self, ety, offs):
        m = re.match(r"dd::(?:Unary)?ComputeTable<(.*), (\d+)ul>::", self.prefix)
        ts = re.findall(r"dd::(?:Cached)?Edge<dd::[vmd]Node>", m.group(1))
        ps = [edgepart(t, o) for t, o in zip(ts, offs)]
        assert len(ts) == len(offs)
        self.key, self.res = ps[:-1], ps[-1]
    # ---- values
    def edge(self, st, p, form):
        ex = self.ex; p = ex.asptr(p)
        q = lambda o: Ptr(p.base, p.rt, p.off + o, p.sym)
        if form == "E": return tuple(bv(ex.pbv(ex.load(st, q(o), PTR)), 64) for o in (0, 8, 16))
        return (bv(ex.pbv(ex.load(st, q(0), PTR)), 64),) + tuple(ex.load(st, q(o), DBL) for o in (8, 16))
    def part(self, st, j, x):
        p = self.ptr(j, x.off)
        if x.form in "EC": return self.edge(st, p, x.form)
        if x.form == "b": return (bv(self.ex.load(st, p, I8), 8),)
        return (self.content(st, p),)
    def entry(self, st, j): return [self.part(st, j, x) for x in self.key], self.part(st, j, self.res)
    def count(self, st): return bv(self.ctx.cell(st, self.obj, self.countoff, ir.INT(64)), 64)
    # ---- containers by content
    def ckey(self, p):
        p = self.ex.asptr(p)
        if self.nb == 1 and p.isobj() and p.base == self.obj.base: p = Ptr(p.base, p.rt, p.off, ())          # the only entry
        if p.isobj(): return ("obj", p.base[1], p.off, tuple(s for s, _ in p.sym), "p"), [bv(i, 64) for _, i in p.sym]
        return ("content." + str(self.ex.canon(p.rt)), p.off, tuple(s for s, _ in p.sym), "p"), [bv(p.base, 64)] + [bv(i, 64) for _, i in p.sym]
    def content(self, st, p):
        k, idx = self.ckey(p); k = ("content",) + k if k[0] == "obj" else k
        a = self.ex.region_array(st, k, len(idx), P)
        return self.ex.select(a, idx) if idx else a
    def setcontent(self, st, p, v):
        k, idx = self.ckey(p); k = ("content",) + k if k[0] == "obj" else k
        a = self.ex.region_array(st, k, len(idx), P)
        st.heap[k] = Store(a, *idx, v) if idx else v
        if self.ex.trackwrites: st.wlog.add(("h", k))
    def containers(self):
        """std::set<Control> and std::vector<Qubit> by their content (trusted contract of the standard library)"""
        C = r"std::(set<dd::Control, dd::CompareControl, std::allocator<dd::Control> >|vector<signed char, std::allocator<signed char> >)"
        name = lambda d, *ms: any(re.match(C + r"::" + m, d) for m in ms)
        eqs = lambda d, op: re.match(r"bool std::operator" + op + r"<(dd::Control|signed char)", d) is not None
        def copy(ex, st, a, i): self.setcontent(st, a[0], self.content(st, a[1])); return ("val", a[0])
        self.ex.contracts += [(lambda d: name(d, r"operator=\(.*(const|&&)", r"(set|vector)\(std::(set|vector)<.*(const|&&)"), copy),
                              (lambda d: name(d, r"(set|vector)\(\)"), lambda ex, st, a, i: (self.setcontent(st, a[0], BitVec("empty.container", 64)), ("val", None))[1]),
                              (lambda d: name(d, r"~(set|vector)\(\)"), lambda ex, st, a, i: ("val", None)),
                              (lambda d: eqs(d, "=="), lambda ex, st, a, i: ("val", self.content(st, a[0]) == self.content(st, a[1]))),
                              (lambda d: eqs(d, "!="), lambda ex, st, a, i: ("val", Not(self.content(st, a[0]) == self.content(st, a[1]))))]
    # ---- operands
    def flags(self, st, node):
        """temporary flags of a density node"""
        mod = self.ctx.mod
        return self.ex.load(st, Ptr(node, "struct.dd::dNode", FOFF["d"], ()), I8)
    def ident(self, st, x, v):
        """what identifies a density operand: the aligned node and its temporary flags"""
        return (v[0] | ZeroExt(56, bv(self.flags(st, v[0]), 8) & FLAGMASK)) if x.node == "d" else v[0]
    def operand(self, st, nm, x, same=None):
        """symbolic operand passed by reference: (argument, value); same: value to hold"""
        ctx = self.ctx; ty = {"E": "struct.dd::Edge", "C": "struct.dd::CachedEdge"}.get(x.form)
        if x.form in "EC":
            o = ctx.obj(st, nm, ety(ctx.mod, x), False)
            if same: v = same
            else:
                v = (BitVec(nm + ".p", 64),) + (tuple(BitVec(nm + "." + c, 64) for c in "ri") if x.form == "E" else tuple(Reals("%s.re %s.im" % (nm, nm))))
                if x.node == "d": st.assume([Extract(2, 0, v[0]) == 0, v[0] != 0])
            for off, t, w in zip((0, 8, 16), (PTR,) + ((PTR, PTR) if x.form == "E" else (DBL, DBL)), v): ctx.setcell(st, o, off, t, w)
            return o, v
        if x.form == "b":
            v = same or (BitVec(nm, 8),)
            return v[0], v
        o = ctx.obj(st, nm, ir.INT(64), False); v = same or (BitVec(nm + ".content", 64),)
        self.setcontent(st, o, v[0])
        return o, v
    def weq(self, st, x, a, b):
        """weights compare equal"""
        d = (lambda u, v: And(self.ctx.val(st, u) - self.ctx.val(st, v) <= self.tol, self.ctx.val(st, v) - self.ctx.val(st, u) <= self.tol)) if x.form == "E" else (lambda u, v: And(u - v <= self.tol, v - u <= self.tol))
        return And(*[d(u, v) for u, v in zip(a[1:], b[1:])])
    def equal(self, st, x, stored, v):
        """the stored operand is the requested one (as the property counts operands)"""
        if x.form in "EC": return And(stored[0] == self.ident(st, x, v), self.weq(st, x, stored, v))
        return stored[0] == v[0]
    def stored_as(self, st, x, v):
        return (self.ident(st, x, v),) + v[1:] if x.form in "EC" else v
    def compares(self):
        """contracts of the comparisons of weights (proved below and in C01)"""
        def h(form):
            def f(ex, st, a, i):
                g = lambda p: [ex.load(st, Ptr(p.base, p.rt, p.off + o, p.sym), PTR if form == "E" else DBL) for o in (0, 8)]
                u, v = (g(ex.asptr(x)) for x in a[:2])
                if form == "E": u, v = ([self.ctx.val(st, bv(ex.pbv(x), 64)) for x in w] for w in (u, v))
                return ("val", And(*[And(x - y <= self.tol, y - x <= self.tol) for x, y in zip(u, v)]))
            return f
        self.ex.contracts += [("dd::Complex::approximatelyEquals(dd::Complex const&) const", h("E")),
                              ("dd::ComplexValue::approximatelyEquals(dd::ComplexValue const&) const", h("C"))]
    # ---- hash
    HARGS = None
    def hashterm(self, st, vals):
        fl = []
        for n, (x, v) in enumerate(zip(self.key, vals)):
            if self.HARGS is not None and n not in self.HARGS: continue
            fl += list(v)
            if x.node == "d": fl.append(bv(self.flags(st, v[0]), 8))
        h = Function("H:" + self.prefix, *([u.sort() for u in fl] + [P]))
        return h(*fl)
    def hashcontract(self):
        def h(ex, st, args, i):
            vals = []; n = 0
            for m, x in enumerate(self.key):
                if self.HARGS is not None and m not in self.HARGS: vals.append(None); continue
                a = args[n]; n += 1
                vals.append(self.edge(st, a, x.form) if x.form in "EC" else ((bv(a, 8),) if x.form == "b" else (self.content(st, a),)))
            t = self.hashterm(st, vals)
            st.assume(ULT(t, self.nb))
            return ("val", t)
        self.ex.contracts.append((lambda d: d.startswith(self.prefix + "hash("), h))

def ety(mod, x):
    pre = "struct.dd::Edge" if x.form == "E" else "struct.dd::CachedEdge"
    for t in mod.typesrc:
        if re.fullmatch(re.escape(pre) + r"(\.\d+)?", t): return t       # the layout is the same for every node type
    raise Unsupported("edge type")

class Toffoli(Tab):
    """table in a std::vector; entries {n, controls, target, edge}; hash(controls, target)"""
    HARGS = (1, 2)
    def layout(self, st, r):
        ctx, mod = self.ctx, self.ctx.mod
        offs = mod.offsets(r); self.tableoff = offs[0]; self.countoff = offs[3]
        self.ety = self.typein("clear(", "struct.dd::ToffoliTable")
        e = mod.resolve(mod.named(self.ety)); self.stride = mod.size(mod.named(self.ety)); eo = mod.offsets(e)
        self.begin = BitVec("entries", 64)
        st.assume([UGT(self.begin, B(1 << 32)), ULT(self.begin, B(1 << 60)), Extract(2, 0, self.begin) == 0])
        n = self.nb * self.stride
        for off, v in ((0, self.begin), (8, self.begin + n), (16, self.begin + n)): ctx.setcell(st, self.obj, self.tableoff + off, PTR, v)
        self.key = [Part("b", eo[0]), Part("s", eo[1]), Part("b", eo[2])]; self.res = Part("E", eo[3], "m")
    def ptr(self, j, off): return Ptr(self.begin + j * self.stride, self.ety, off, ())

class Noise(Tab):
    """entries {operand, result, usedQubits}"""
    def parts(self, ety_, offs): self.key = [Part("E", offs[0], "d"), Part("s", offs[2])]; self.res = Part("E", offs[1], "d")

Q = BitVec("any_entry", 64)
ARGS = {"Tab": lambda t, k, r: k + [r], "Toffoli": lambda t, k, r: k + [r], "Noise": lambda t, k, r: [k[0], r, k[1]]}

def prepare(ctx, mk):
    ctx.ex.defs["feas_light"] = True
    t = mk(ctx); st = ctx.state(); t.setup(st); t.containers(); t.hashcontract(); t.compares()
    st.assume(ULT(Q, t.nb))
    return t, st

def operands(t, st):
    ops = [t.operand(st, "op%d" % n, x) for n, x in enumerate(t.key)]
    return [a for a, _ in ops], [v for _, v in ops]

def t_insert(nm, mk):
    def run(ctx):
        t, st = prepare(ctx, mk)
        fn = t.fn("insert("); ctx.loc = fn.dem
        ka, kv = operands(t, st); ra, rv = t.operand(st, "result", t.res)
        k = t.hashterm(st, kv); st.assume(ULT(k, t.nb))
        before = t.entry(st, Q); n0 = t.count(st); st.assume(n0 != B((1 << 64) - 1))
        want = [t.stored_as(st, x, v) for x, v in zip(t.key, kv)]
        ctx.reach(st, "operands")
        for o in ctx.call(st, fn, [t.obj] + ARGS[type(t).__name__](t, ka, ra)):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            ks, rs = t.entry(s, k)
            ctx.oblige(s, "result-stored", And(*[a == b for a, b in zip(rs, rv)]))
            for n, (x, a, b) in enumerate(zip(t.key, ks, want)): ctx.oblige(s, "operand-%d-stored" % n, And(*[u == v for u, v in zip(a, b)]))
            ko, ro = t.entry(s, Q)
            ctx.oblige(s, "other-entries-unchanged", Implies(Q != k, And(*[u == v for a, b in zip(ko + [ro], before[0] + [before[1]]) for u, v in zip(a, b)])))
            ctx.oblige(s, "counted", And(t.count(s) != 0))
    T = Task(nm + "::insert", "", run, merge=False, budget=200); T.cost = 2
    return T

def t_lookup(nm, mk, dens=None):
    def run(ctx):
        t, st = prepare(ctx, mk); ex = ctx.ex
        fn = t.fn("lookup("); ctx.loc = fn.dem; fn.parse()
        ka, kv = operands(t, st)
        k = t.hashterm(st, kv); st.assume(ULT(k, t.nb))
        ks, rs = t.entry(st, k); before = t.entry(st, Q); n0 = t.count(st)
        want = [t.stored_as(st, x, v) for x, v in zip(t.key, kv)]
        hit = And(rs[0] != 0, *[t.equal(st, x, a, v) for x, a, v in zip(t.key, ks, kv)])
        exact = And(rs[0] != 0, *[u == v for a, b in zip(ks, want) for u, v in zip(a, b)])
        out = ctx.obj(st, "out", ety(ctx.mod, t.res), False)
        args = [out, t.obj] + ka
        if len(fn.params) == len(args) + 1:
            if dens is not None and t.key[-1].node == "d":
                args.append(dens); fl = bv(t.flags(st, rs[0]), 8)
                view = (Extract(3, 3, fl) == 1) == BoolVal(dens)          # the result is of the requested kind
                hit, exact = And(hit, view), And(exact, view)
            else: args.append(dens if dens is not None else Bool("useDensityMatrix"))
        ctx.reach(st, "operands")
        for o in ctx.call(st, fn, args):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            r = t.edge(s, out, t.res.form)
            ctx.oblige(s, "only-stored-results", Implies(r[0] != 0, And(hit, *[a == b for a, b in zip(r, rs)])))
            ctx.oblige(s, "stored-result-is-found", Implies(exact, And(*[a == b for a, b in zip(r, rs)])))
            ko, ro = t.entry(s, Q)
            ctx.oblige(s, "entries-unchanged", And(*[u == v for a, b in zip(ko + [ro], before[0] + [before[1]]) for u, v in zip(a, b)]))
            ctx.oblige(s, "count-unchanged", t.count(s) == n0)
    T = Task(nm + "::lookup" + ("" if dens is None else ".density" if dens else ".plain"), "", run, merge=False, budget=200); T.cost = 3
    return T

def moved(fn, body, reg):
    """is this local assigned within the loop?"""
    for b in fn.blocks:
        if b.name in body and any(i.op == "store" and i.a["p"] == ("reg", reg) for i in b.ins): return True
    return False

def entry_loop(t, Q, resp):
    """iteration over the entries: everything before the position has no result"""
    def spec(ex, s0, fn, h, body):
        o = t.obj; cur = []
        for oid, ob in s0.mem.items():
            if oid == o.base or not oid[1].startswith(s0.frames[-1].id + "#") or not uses(fn, body, oid[1].split("#")[-1]): continue
            for off, (sz, v) in ob.cells.items():
                if sz != 8 and sz != 4: continue
                if type(v) is Ptr and v.isobj() and v.base == o.base and v.sym and v.sym[-1][0] == t.stride and type(v.sym[-1][1]) is int and v.sym[-1][1] == 0: cur.append((oid, off, sz, "sym"))
                elif type(v) is Ptr and v.isobj() and v.base == o.base and not v.sym and v.off == o.off + t.tableoff and moved(fn, body, oid[1].split("#")[-1]):
                    s0.wobj(oid).cells[off] = (sz, Ptr(v.base, v.rt, v.off, ((t.stride, 0),))); cur.append((oid, off, sz, "sym"))       # the same address, as an element of the array
                elif hasattr(t, "begin") and isinstance(v, z3.ExprRef) and v.eq(t.begin): cur.append((oid, off, sz, "raw"))
                elif type(v) is int and v == 0 and len(ob.cells) == 1: cur.append((oid, off, sz, "int"))
        if len(cur) > 1: cur = [c for c in cur if c[3] != "int"]
        if len(cur) != 1: raise Unsupported("iteration over the entries not recognised")
        oid, off, sz, how = cur[0]; J = {}
        def raw(s): return s.mem[oid].cells[off][1]
        def C(s):
            v = raw(s)
            if how == "sym": return bv(v.sym[-1][1], 64)
            v = bv(ex.pbv(v), 8 * sz)
            return v if sz == 8 else ZeroExt(64 - 8 * sz, v)
        if how != "raw":
            cands = lambda ex_, s: [Inv("range", lambda s: ULE(C(s), t.nb), True), Inv("emptied", lambda s: Implies(ULT(Q, C(s)), resp(s) == 0), True)]
            return LoopSpec("entries", cands)
        addr = lambda j: t.begin + j * t.stride
        def where(s):
            if s is s0: return C(s) == t.begin
            if s is J.get("hs"): return BoolVal(True)
            return C(s) == addr(J["j"] + 1)
        def done(s):
            j = B(0) if s is s0 else (J["j"] if s is J.get("hs") else J["j"] + 1)
            return Implies(ULT(Q, j), resp(s) == 0)
        L = LoopSpec("entries", lambda ex_, s: [Inv("position", where, True), Inv("emptied", done, True)])
        def at_header(ex_, s): J["hs"] = None
        L.at_header = at_header
        hav = ex.havoc
        def havoc(st_, modset, sp):
            hav(st_, modset, sp)
            if sp is L:
                J["j"] = ex.fresh("j", P); J["hs"] = st_
                st_.assume([ULE(J["j"], t.nb), C(st_) == addr(J["j"])])
        ex.havoc = havoc
        return L
    return spec

def t_clear(nm, mk):
    def run(ctx):
        t, st = prepare(ctx, mk); ex = ctx.ex
        fn = t.fn("clear("); ctx.loc = fn.dem
        resp = lambda s: t.entry(s, Q)[1][0]
        ex.loopspec = entry_loop(t, Q, resp)
        st.assume(Implies(t.count(st) == 0, resp(st) == 0))           # kept by insert and clear
        ctx.reach(st, "table")
        for o in ctx.call(st, fn, [t.obj]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            ctx.oblige(s, "every-result-dropped", resp(s) == 0)
    T = Task(nm + "::clear", "", run, merge=False, budget=200); T.cost = 2
    return T

def t_hash(nm, mk):
    """the bucket is in range and depends on nothing but the operands (read frame)"""
    def run(ctx):
        t = mk(ctx); ex = ctx.ex; st = ctx.state(); t.setup(st)
        fn = t.fn("hash("); ctx.loc = fn.dem; fn.parse()
        args, vals = operands(t, st)
        if t.HARGS is not None: args, vals = [args[n] for n in t.HARGS], [vals[n] for n in t.HARGS]
        keys = [t.key[n] for n in t.HARGS] if t.HARGS is not None else t.key
        st.assume(t.tol > 0)
        ok = {}; tolb = B(ctx.tol())
        fdn = "struct.dd::dNode"
        elems = iterate(t, st, ex, args, keys)
        bad = []
        def on_load(ex_, s, key, idx, base):
            allowed = False
            if key == ("double", 0, (), "d"): allowed = is_bv_value(simplify(idx[0])) and simplify(idx[0]).as_long() == ctx.tol()
            elif key[0] == ex.canon(fdn) and any(x.node == "d" and v[0].eq(simplify(idx[0])) for x, v in zip(keys, vals)): allowed = True
            elif elems(key, idx): allowed = True
            if not allowed: bad.append((key, str(idx)[:60]))
            return None
        ex.defs["on_load"] = on_load
        ctx.reach(st, "operands")
        for o in ctx.call(st, fn, args):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            ctx.oblige(s, "bucket-in-range", ULT(bv(o.ret, 64), t.nb))
            ctx.oblige(s, "reads-only-its-operands", BoolVal(not bad))
    T = Task(nm + "::hash", "", run, merge=False, budget=200); T.cost = 2
    return T

def iterate(t, st, ex, args, keys):
    """iterators over the containers among the operands; returns the test for reads of their elements"""
    conts = [a for a, x in zip(args, keys) if x.form == "s"]
    if not conts: return lambda key, idx: False
    els = []
    def it(kind):
        def h(ex_, s, a, i):
            v = ex_.fresh(kind, P); els.append(v)
            s.assume([v != 0, Extract(2, 0, v) == 0])
            return ("val", v)
        return h
    IT = r"std::_Rb_tree_const_iterator<dd::Control>::"
    def step(ex_, s, a, i):
        v = ex_.fresh("next", P); ex_.store(s, ex_.asptr(a[0]), PTR, v); return ("val", a[0])
    def deref(ex_, s, a, i):
        v = ex_.fresh("control", P); els.append(v); s.assume(v != 0); return ("val", v)
    ex.contracts += [(lambda d: re.match(r"std::set<dd::Control.*::c?(begin|end)\(\) const", d) is not None, it("iter")),
                     (lambda d: d.startswith("std::_Rb_tree_const_iterator<dd::Control>::operator++"), step),
                     (lambda d: d.startswith("std::_Rb_tree_const_iterator<dd::Control>::operator*"), deref)]
    ex.loopspec = lambda ex_, s0, fn, h, body: LoopSpec("elements", lambda e, s: [])
    VEC = r"std::vector<signed char, std::allocator<signed char> >::"
    ex.contracts += [(lambda d: re.match(VEC + r"c?(begin|end)\(\) const", d) is not None, it("iter"))]
    return lambda key, idx: "Control" in str(key[0]) or key[-1] == "i8"

def t_equals(form):
    """the comparison of weights: both parts within the tolerance"""
    nm = "dd::Complex" if form == "E" else "dd::ComplexValue"
    def run(ctx):
        ex = ctx.ex; st = ctx.state(); tol = Real("tol"); ctx.settol(st, tol); st.assume([tol >= 0])
        fn = ctx.fn(nm + "::approximatelyEquals(%s const&) const" % nm); ctx.loc = fn.dem
        objs, vals = [], []
        for n in "ab":
            o = ctx.obj(st, n, "struct." + nm, False); objs.append(o)
            v = Reals("%s.r %s.i" % (n, n)) if form == "C" else [BitVec("%s.%s" % (n, c), 64) for c in "ri"]
            for off, x in zip((0, 8), v): ctx.setcell(st, o, off, DBL if form == "C" else PTR, x)
            vals.append(v if form == "C" else [ctx.val(st, x) for x in v])
        ctx.reach(st, "operands")
        for o in ctx.call(st, fn, objs):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            ctx.oblige(o.state, "within-tolerance", bl(o.ret) == And(*[And(x - y <= tol, y - x <= tol) for x, y in zip(*vals)]))
    return Task(nm[4:] + "::approximatelyEquals", "", run, merge=False, budget=60)

class Stoch:
    """StochasticNoiseOperationTable: rows of operations per qubit, in a std::vector"""
    def __init__(self, ctx, n):
        self.ctx, self.ex, self.n = ctx, ctx.ex, n
        self.prefix = "dd::StochasticNoiseOperationTable<dd::Edge<dd::mNode>, %dul>::" % n
        self.mt = Tab.typein(self, "clear(", "class.dd::")
    def setup(self, st):
        ctx, mod = self.ctx, self.ctx.mod
        self.obj = ctx.obj(st, "tab", self.mt)
        r = mod.resolve(mod.named(self.mt)); offs = mod.offsets(r)
        self.vecoff, self.countoff = offs[1], offs[4]
        rows = [t for t in mod.typesrc if t.startswith("struct.std::array") and self.isrow(t)]
        self.row = Tab.typein(self, "clear(", "struct.dd::Edge"); self.ex.defs["flatten"] = {t: (mod.resolve(mod.named(t)).a[0].b.a, 24) for t in rows}
        self.stride = 24 * self.n
        self.begin, self.rows = BitVec("rows", 64), BitVec("nrows", 64)
        st.assume([UGT(self.begin, B(1 << 32)), ULT(self.begin, B(1 << 60)), Extract(2, 0, self.begin) == 0, ULE(self.rows, 128)])
        ctx.setcell(st, self.obj, offs[0], ir.INT(64), self.rows)
        for off, v in ((0, self.begin), (8, self.begin + self.rows * self.stride), (16, self.begin + self.rows * self.stride)): ctx.setcell(st, self.obj, self.vecoff + off, PTR, v)
    def isrow(self, t):
        mod = self.ctx.mod
        try:
            r = mod.resolve(mod.named(t)); a = r.a[0]
            return len(r.a) == 1 and a.k == "arr" and a.a == self.n and a.b.k == "named" and a.b.a.startswith("struct.dd::Edge")
        except Exception: return False
    fn = Tab.fn
    edge = Tab.edge
    def entry(self, st, row, kind): return self.edge(st, Ptr(self.begin + row * self.stride + kind * 24, self.row, 0, ()), "E")
    def count(self, st): return bv(self.ctx.cell(st, self.obj, self.countoff, ir.INT(64)), 64)

def t_stoch(n, what):
    nm = "StochasticNoiseOperationTable<%d>" % n
    def run(ctx):
        t = Stoch(ctx, n); ex = ctx.ex; st = ctx.state(); t.setup(st)
        fn = t.fn(what + "("); ctx.loc = fn.dem
        kind, target = BitVec("kind", 8), BitVec("target", 8)
        R = BitVec("any_row", 64); K = BitVec("any_kind", 64)
        st.assume([ULT(R, t.rows), ULT(K, n), ULT(SignExt(56, target), t.rows), ULT(ZeroExt(56, kind), n)])
        row, kd = SignExt(56, target), ZeroExt(56, kind)
        before = t.entry(st, R, K); mine = t.entry(st, row, kd); n0 = t.count(st)
        if what == "insert":
            st.assume(n0 != B((1 << 64) - 1))
            ra = ctx.obj(st, "result", ety(ctx.mod, Part("E", 0, "m")), False); rv = tuple(BitVec("result." + c, 64) for c in "pri")
            for off, v in zip((0, 8, 16), rv): ctx.setcell(st, ra, off, PTR, v)
            ctx.reach(st, "operands")
            for o in ctx.call(st, fn, [t.obj, kind, target, ra]):
                s = o.state
                if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
                ctx.oblige(s, "result-stored", And(*[a == b for a, b in zip(t.entry(s, row, kd), rv)]))
                ctx.oblige(s, "other-entries-unchanged", Implies(Not(And(R == row, K == kd)), And(*[a == b for a, b in zip(t.entry(s, R, K), before)])))
                ctx.oblige(s, "counted", t.count(s) != 0)
        elif what == "lookup":
            out = ctx.obj(st, "out", ety(ctx.mod, Part("E", 0, "m")), False)
            ctx.reach(st, "operands")
            for o in ctx.call(st, fn, [out, t.obj, kind, target]):
                s = o.state
                if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
                r = t.edge(s, out, "E")
                ctx.oblige(s, "stored-result-or-none", If(mine[0] == 0, r[0] == 0, And(*[a == b for a, b in zip(r, mine)])))
                ctx.oblige(s, "entries-unchanged", And(*[a == b for a, b in zip(t.entry(s, R, K), before)]))
                ctx.oblige(s, "count-unchanged", t.count(s) == n0)
        else:
            resp = lambda s: t.entry(s, R, K)[0]
            st.assume(Implies(n0 == 0, resp(st) == 0))
            ex.loopspec = stoch_loops(t, R, K, resp)
            ctx.reach(st, "table")
            for o in ctx.call(st, fn, [t.obj]):
                s = o.state
                if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
                ctx.oblige(s, "every-result-dropped", resp(s) == 0)
    T = Task(nm + "::" + what, "", run, merge=False, budget=200); T.cost = 2
    return T

def stoch_loops(t, R, K, resp):
    """rows before the current one are empty; within the current row, the entries before the position are empty"""
    J = {}
    def spec(ex, s0, fn, h, body):
        cur = []
        outer = J.get("row")
        for oid, ob in s0.mem.items():
            if oid == t.obj.base or not oid[1].startswith(s0.frames[-1].id + "#") or not uses(fn, body, oid[1].split("#")[-1]): continue
            for off, (sz, v) in ob.cells.items():
                if sz != 8: continue
                v = ex.pbv(v) if type(v) is Ptr and not v.isobj() else v
                if not isinstance(v, z3.ExprRef): continue
                if outer is None and v.eq(t.begin): cur.append((oid, off))
                elif outer is not None and v.eq(outer) and moved(fn, body, oid[1].split("#")[-1]): cur.append((oid, off))
        if len(cur) != 1: raise Unsupported("iteration over the operations not recognised")
        oid, off = cur[0]; me = "j" if outer is None else "k"
        step = t.stride if outer is None else 24; top = t.rows if outer is None else B(t.n)
        start = t.begin if outer is None else outer
        C = lambda s: bv(ex.pbv(s.mem[oid].cells[off][1]), 64)
        addr = lambda j: start + j * step
        jr = J.get("j")
        def where(s):
            if s is s0: return C(s) == start
            if s is J.get(me + "s"): return BoolVal(True)
            return C(s) == addr(J[me] + 1)
        def done(s):
            j = B(0) if s is s0 else (J[me] if s is J.get(me + "s") else J[me] + 1)
            if outer is None: return Implies(ULT(R, j), resp(s) == 0)
            return Implies(Or(ULT(R, jr), And(R == jr, ULT(K, j))), resp(s) == 0)
        L = LoopSpec("rows" if outer is None else "operations", lambda ex_, s: [Inv("position", where, True), Inv("emptied", done, True)])
        def at_header(ex_, s): J[me + "s"] = None
        L.at_header = at_header
        hav = ex.havoc
        def havoc(st_, modset, sp):
            hav(st_, modset, sp)
            if sp is L:
                J[me] = ex.fresh(me, P); J[me + "s"] = st_
                st_.assume([ULE(J[me], top), C(st_) == addr(J[me])])
                if outer is None: J["row"] = C(st_)
        ex.havoc = havoc
        return L
    return spec

E_ = lambda k: "dd::Edge<dd::%sNode>" % k
C_ = lambda k: "dd::CachedEdge<dd::%sNode>" % k
def tables(mod):
    """every memo table of the package: (name, maker)"""
    out = []; seen = set()
    for f in mod.funcs.values():
        m = re.match(r"(dd::(Unary)?ComputeTable<(.*), (\d+)ul>::)lookup\(", f.dem)
        if m and m.group(1) not in seen:
            seen.add(m.group(1)); pre, nb = m.group(1), int(m.group(4))
            short = pre[4:-2].replace("dd::", "").replace("ul>", ">").replace("> >", ">>")
            out.append((short, lambda ctx, pre=pre, nb=nb: Tab(ctx, pre, nb), "ComputeTable<dd::Edge<dd::dNode>" in pre))
    for f in mod.funcs.values():
        m = re.match(r"(dd::ToffoliTable<.*, (\d+)ul>::)lookup\(", f.dem)
        if m: out.append(("ToffoliTable", lambda ctx, pre=m.group(1), nb=int(m.group(2)): Toffoli(ctx, pre, nb), False))
        m = re.match(r"(dd::DensityNoiseTable<.*, (\d+)ul>::)lookup\(", f.dem)
        if m: out.append(("DensityNoiseTable<%s>" % m.group(2), lambda ctx, pre=m.group(1), nb=int(m.group(2)): Noise(ctx, pre, nb), False))
    return out

def tasks(mod):
    out = [t_equals("E"), t_equals("C")]
    for nm, mk, dens in tables(mod):
        out += [t_insert(nm, mk), t_clear(nm, mk), t_hash(nm, mk)]
        out += [t_lookup(nm, mk, True), t_lookup(nm, mk, False)] if dens else [t_lookup(nm, mk)]
    for n in (1, 64):
        for w in ("insert", "lookup", "clear"): out.append(t_stoch(n, w))
    return out
