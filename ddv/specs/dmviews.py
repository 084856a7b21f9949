"""C23: density-matrix edge views."""
import itertools
from ..ddm import *
DN, DE = "dd::dNode::", "dd::Edge<dd::dNode>::"
OFFS = [24 * j for j in range(4)]

def setup(ctx):
    ex = ctx.ex; ex.defs["rewrite"] = True
    st = ctx.state(); D = DDlite(ctx)
    def flip(ex, st, args, i): return ("val", simplify(D.flip(bv(args[0], 64))))
    ex.contracts.append((lambda d: d.startswith("dd::ComplexTable<") and "::Entry::flipPointerSign(" in d, flip))
    return ex, st, D
class DDlite:
    """plain view of the density nodes in memory (no number contracts: only handles matter here)"""
    def __init__(self, ctx):
        self.ctx = ctx; self.Z = BitVecVal(ctx.zero(), 64); self.T = None
        for n, d in ctx.ex.mod.dem.items():
            if d == "dd::dNode::terminalNode" and n in ctx.ex.mod.globals: self.T = BitVecVal(ctx.ex.gaddr(n), 64)
    def keys(self):
        return [("struct.dd::dNode", o + d, (), "p") for o in OFFS for d in (0, 8, 16)] + [("struct.dd::dNode", 96, (), "p"), ("struct.dd::dNode", 104, (), "i32"), ("struct.dd::dNode", 108, (), "i8"), ("struct.dd::dNode", 109, (), "i8")]
    def get(self, st, p): return {k[1]: self.ctx.ex.select(self.ctx.region(st, k), [p]) for k in self.keys()}
    def node(self, st, name):
        al = lambda n: Concat(BitVec(n, 61), BitVecVal(0, 3))
        p = al(name); st.assume(p != 0)
        for o in OFFS:
            k = ("struct.dd::dNode", o, (), "p"); st.heap[k] = Store(self.ctx.region(st, k), p, al("%s.e%d" % (name, o)))
        f = self.get(st, p)
        for o in OFFS: st.assume([Extract(63, 1, f[o + 16]) != 0, f[o + 16] != self.Z | 1])
        st.assume([f[109] & 7 == 0, Implies(p == self.T, f[108] == 0xff), Implies(p != self.T, f[108] >= 0)])
        return p, f
    def edge(self, st, name, p):
        o = self.ctx.ex.new_object(st, name, None, False, 24)
        self.ctx.setcell(st, o, 0, PTR, p); self.ctx.setcell(st, o, 8, PTR, BitVec(name + ".w.r", 64)); self.ctx.setcell(st, o, 16, PTR, BitVec(name + ".w.i", 64))
        return o
    def flip(self, h): return If(h == self.Z, h, h ^ 1)

def view(D, f, bits, n):
    """expected successors of the switched node"""
    dm, first, conj = [BoolVal(bool(bits.as_long() >> b & 1)) for b in (2, 1, 0)]
    live = f[108] >= 0
    sw = And(dm, live, Not(And(first, Not(conj))))
    w = dict(f)
    for j, o in enumerate(OFFS):
        src = {1: OFFS[2], 2: OFFS[1]}.get(j, o)
        c = f[o] if j in (0, 3) else If(conj, f[src], f[o])
        r = f[o + 8] if j in (0, 3) else If(conj, f[src + 8], f[o + 8])
        i = f[o + 16] if j in (0, 3) else If(conj, f[src + 16], f[o + 16])
        cj = BoolVal(True) if j == 2 else conj
        i = If(cj, D.flip(i), i)
        tag = BitVecVal(4, 64) | If(cj, BitVecVal(1, 64), BitVecVal(0, 64))
        if j == 1: tag = tag | If(conj, BitVecVal(0, 64), BitVecVal(2, 64))
        w[o] = If(sw, c | tag, f[o]); w[o + 8] = If(sw, r, f[o + 8]); w[o + 16] = If(sw, i, f[o + 16])
    w[109] = If(And(dm, live), f[109] | Extract(7, 0, bits), f[109])
    return w

def t_views(two):
    def run(ctx):
        for ts in itertools.product(range(8), repeat=2 if two else 1): views(ctx, two, ts)
    t = Task("Edge<dNode>::apply/revertDmChangesTo" + ("Edges" if two else "Edge"), "", run, merge=False)
    t.par = 8 if two else 1; t.cost = 20
    return t
def views(ctx, two, ts):
    if True:
        ex, st, D = setup(ctx)
        suf = "Edges(%s, %s)" if two else "Edge(%s)"
        ER = "dd::Edge<dd::dNode>&"
        suf = suf % ((ER,) * (2 if two else 1))
        ap, rv = ctx.fn(lambda d: d == DE + "applyDmChangesTo" + suf), ctx.fn(lambda d: d == DE + "revertDmChangesTo" + suf)
        ctx.loc = ap.dem
        ns = [D.node(st, "n%d" % k) for k in range(2 if two else 1)]
        other, fo = D.node(st, "other")
        if two: st.assume(ns[0][0] != ns[1][0])
        for p, f in ns: st.assume(other != p)
        tags = [BitVecVal(t, 64) for t in ts]
        es = [D.edge(st, "e%d" % k, simplify(p | t)) for k, ((p, f), t) in enumerate(zip(ns, tags))]
        ctx.reach(st, "nodes")
        for o in ctx.call(st, ap, es):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            for k, ((p, f), t, e) in enumerate(zip(ns, tags, es)):
                q = bv(ctx.cell(s, e, 0, PTR), 64); dm = Extract(2, 2, t) == 1
                ctx.oblige(s, "view%d: edge points to the same node" % k, And(q & ~7 == p, Implies(dm, q == p), Implies(Not(dm), q == p | t)))
                ctx.oblige(s, "view%d: edge weight unchanged" % k, And(bv(ctx.cell(s, e, 8, PTR), 64) == BitVec("e%d.w.r" % k, 64), bv(ctx.cell(s, e, 16, PTR), 64) == BitVec("e%d.w.i" % k, 64)))
                g, w = D.get(s, p), view(D, f, t, p)
                for kk in w: ctx.oblige(s, "view%d: field +%d" % (k, kk), simplify(g[kk] == w[kk]))
            g = D.get(s, other)
            for kk in g: ctx.oblige(s, "view: other nodes unchanged +%d" % kk, g[kk] == fo[kk])
            if any(t in (1, 2, 3) for t in ts): continue   # tags without the density mark do not occur on edges that are switched back
            for o2 in ctx.call(s, rv, es):
                s2 = o2.state
                if o2.kind != "ret": ctx.oblige(s2, "no-exception", BoolVal(False)); continue
                for k, ((p, f), t, e) in enumerate(zip(ns, tags, es)):
                    g = D.get(s2, p)
                    for kk in f: ctx.oblige(s2, "back%d: field +%d as before" % (k, kk), g[kk] == f[kk])
                    ctx.oblige(s2, "back%d: edge points to the same node" % k, bv(ctx.cell(s2, e, 0, PTR), 64) & ~7 == p)
                    ctx.oblige(s2, "back%d: edge weight unchanged" % k, And(bv(ctx.cell(s2, e, 8, PTR), 64) == BitVec("e%d.w.r" % k, 64), bv(ctx.cell(s2, e, 16, PTR), 64) == BitVec("e%d.w.i" % k, 64)))
                g = D.get(s2, other)
                for kk in g: ctx.oblige(s2, "back: other nodes unchanged +%d" % kk, g[kk] == fo[kk])

def t_tags():
    def run(ctx):
        for name, bit in (("setDensityConjugateTrue", 1), ("setFirstEdgeDensityPathTrue", 2), ("setDensityMatrixTrue", 4), ("alignDensityEdge", None)):
            ex, st, D = setup(ctx)
            fn = ctx.fn(lambda d: d == DE + name + "(dd::Edge<dd::dNode>&)"); ctx.loc = fn.dem
            x = BitVec("x", 64); e = D.edge(st, "e", x); n, f = D.node(st, "other")
            ctx.reach(st, "edge")
            for o in ctx.call(st, fn, [e]):
                s = o.state
                if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
                q = bv(ctx.cell(s, e, 0, PTR), 64)
                q = simplify(q)
                ctx.oblige(s, name + ": only the tag bits change", q & ~7 == x & ~7)
                ctx.oblige(s, name + ": tag", q == (x | bit if bit else x & ~7))
                ctx.oblige(s, name + ": weight unchanged", And(bv(ctx.cell(s, e, 8, PTR), 64) == BitVec("e.w.r", 64), bv(ctx.cell(s, e, 16, PTR), 64) == BitVec("e.w.i", 64)))
                g = D.get(s, n)
                for kk in g: ctx.oblige(s, name + ": nodes unchanged +%d" % kk, g[kk] == f[kk])
    return Task("Edge<dNode> tag bits", "", run, merge=False)

def t_predicates():
    def run(ctx):
        U = "(unsigned long)"
        for name, bit in (("isConjugateTempFlagSet", 1), ("isNonReduceTempFlagSet", 2), ("isDensityMatrixTempFlagSet", 4), ("isDensityMatrixNode", 8)):
            ex, st, D = setup(ctx); fn = ctx.fn(lambda d: d == DN + name + U); ctx.loc = fn.dem
            x = BitVec("x", 64); ctx.reach(st, "any")
            for o in ctx.call(st, fn, [x]):
                v = o.ret
                if isinstance(v, (bool, int)): v = BoolVal(bool(v))
                elif z3.is_bv(v): v = v != 0
                ctx.oblige(o.state, name, v == (x & bit != 0))
    return Task("dNode flag predicates", "", run, merge=False)

def tasks(mod): return [t_views(False), t_views(True), t_tags(), t_predicates()]
