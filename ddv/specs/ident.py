"""C24: Package::makeIdent and the table of identities.

SEL(l) is the successor the fixed index assignment selects at level l, so AMP(p) = TOP_SEL(level)(p);
IDENT(a, b) is the entry of the identity on the levels a..b:  1 if every level selects 0 or 3, else 0."""
from ..ddm import *

SEL = Function("SEL", BitVecSort(8), BitVecSort(2))
IDENT = Function("IDENT", BitVecSort(8), BitVecSort(8), RealSort())
EDGE_M = None

def diag(l): return Or(SEL(l) == 0, SEL(l) == 3)
def ident_def(st, a, b):
    """definition, one level"""
    st.assume(IDENT(a, b) == If(b < a, RealVal(1), If(diag(b), IDENT(a, b - 1), RealVal(0))))
def select_def(D, st, k, p, level):
    """the fixed assignment picks one successor of p"""
    for j in range(NSUCC[k]): st.assume(Implies(SEL(level) == j, And(*ceq(app(AMP[k], p), app(TOP[(k, j)], p)))))

def node_extra(D):
    """normal form of a matrix node: its weight is that of a largest successor (C10)"""
    def f(ex, st, k, var8, es, p, r, m, v):
        if k != "m": return
        st.assume(Or(*[And(v[0] == w[3][0], v[1] == w[3][1]) for w in es]))
        nz = Or(v[0] != 0, v[1] != 0)
        for t in es:
            # if all successors are zero or carry the same weight, this is the weight
            pass
        select_def(D, st, k, p, var8)
        st.assume(Implies(nz, And(Not(D.isT(k, p)), p != 0)))
    return f

def edge_rt(D):
    ty, _ = D.edgetype("m"); return D.ex.canon(D.ex.rootname(ty))

class IdTable:
    """Package::idTable: n entries from address base; entry i is empty or the identity on 0..i"""
    def __init__(self, D, st):
        self.D = D; ctx = D.ctx; off = D.member("idTable")
        self.base, self.n = BitVec("idTable", 64), BitVec("idTable.size", 64)
        st.assume([UGE(self.base, BitVecVal(1 << 40, 64)), ULT(self.base, BitVecVal(1 << 46, 64)), UGT(self.n, 0), ULE(self.n, 128), Extract(2, 0, self.base) == 0])
        at = lambda o: Ptr(D.pkg.base, D.pkg.rt, off + o, ())
        ctx.setcell(st, at(0), 0, PTR, self.base); ctx.setcell(st, at(8), 0, PTR, self.base + 24 * self.n); ctx.setcell(st, at(16), 0, PTR, self.base + 24 * self.n)
        self.rt = edge_rt(D)
    def addr(self, i): return self.base + 24 * bv(i, 64)
    def entry(self, st, i):
        a = self.addr(i)
        return tuple(self.D.ex.select(self.D.ctx.region(st, (self.rt, o, (), "p")), [a]) for o in (0, 8, 16))
    def ok(self, st, i):
        """entry i (64 bit index) is empty or the identity on 0..i"""
        D = self.D; p, r, m = self.entry(st, i); l = Extract(7, 0, bv(i, 64))
        return Or(p == 0, And(r == D.bo, m == D.bz, Not(D.isT("m", p)), D.lev(st, "m", p) == l, *ceq(app(AMP["m"], p), (IDENT(BitVecVal(0, 8), l), RealVal(0)))))
    def intact(self, st):
        D = self.D; ctx = D.ctx; off = D.member("idTable")
        at = lambda o: ctx.cell(st, Ptr(D.pkg.base, D.pkg.rt, off + o, ()), 0, PTR)
        return And(bv(D.norm(at(0)), 64) == self.base, bv(D.norm(at(8)), 64) == self.base + 24 * self.n)

def frame_cells(ex, s):
    pre = s.frames[-1].id + "#"
    for oid, o in s.mem.items():
        if oid[1].startswith(pre) or True: yield oid, o

def used_regs(fn, body):
    out = set()
    for b in fn.blocks:
        if b.name in body:
            for i in b.ins: out.add(i.text)
    return out

def uses(fn, body, reg):
    import re
    pat = re.compile(re.escape(reg if reg.startswith("%") else "%" + reg) + r"(?![\w.])")
    return any(pat.search(i.text) for b in fn.blocks if b.name in body for i in b.ins)

def edges_in_loop(D, st, fn, body, k="m"):
    """edge variables with a value at loop entry that the loop mentions: [address]"""
    ex = D.ex; ty, _ = D.edgetype(k); want = ex.rootname(ty); out = []
    f = st.frames[-1]; pre = f.id + "#"
    for oid, o in st.mem.items():
        if not oid[1].startswith(pre) or o.ty is None: continue
        if ex.rootname(o.ty) == want and all(x in o.cells and o.cells[x][1] is not symex.UNDEF for x in (0, 8, 16)) and uses(fn, body, oid[1].split("#")[-1]): out.append(Ptr(oid))
    # parameters that point to an edge object (the result slot of a named return value)
    for t, n in fn.params:
        v = f.regs.get(n) if hasattr(f, "regs") else None
        if type(v) is Ptr and v.isobj() and v.off == 0 and not v.sym:
            o = st.mem[v.base]
            if o.ty is not None and ex.rootname(o.ty) == want and all(x in o.cells and o.cells[x][1] is not symex.UNDEF for x in (0, 8, 16)) and uses(fn, body, n): out.append(v)
    return out

def int_cells(D, st, fn, body):
    """integer locals mentioned by the loop: [(oid, size)]"""
    f = st.frames[-1]; pre = f.id + "#"; out = []
    for oid, o in st.mem.items():
        if not oid[1].startswith(pre): continue
        c = o.cells.get(0)
        if c is None or c[0] > 8 or type(c[1]) is Ptr or len(o.cells) != 1: continue
        if (type(c[1]) is int or (isinstance(c[1], z3.ExprRef) and z3.is_bv(c[1]))) and uses(fn, body, oid[1].split("#")[-1]):
            if o.ty is not None and D.ex.mod.resolve(o.ty).k == "ptr": continue
            out.append((oid, 8 * c[0]))
    return out

def ladder(D, name, lo, hi, val, weight=None, exclude=()):
    """loop building one identity level after the other:  e is at some level l in lo..hi, has the given weight (default one) and entry val(st, l)"""
    def spec(ex, st, fn, h, body):
        es = [q for q in edges_in_loop(D, st, fn, body) if q.base not in [z.base for z in exclude]]
        if len(es) != 1: return None
        e = es[0]; ints = int_cells(D, st, fn, body)
        lent0 = D.num(st).lent; HEAD = []
        def E(s): return D.read_edge(s, e)
        def cands(ex, s0):
            lv = lambda s: D.lev(s, "m", E(s)[0])
            def wt(s):
                if weight is None: return And(E(s)[1] == D.bo, E(s)[2] == D.bz)
                v = D.cval(s, E(s)[1], E(s)[2]); return And(*ceq(v, weight))
            def ident(s):
                # split by the selected successor (an exhaustive case distinction; at the loop head the plain form is added)
                return And(*[Implies(SEL(lv(s)) == jj, g) for jj in range(4) for g in plain(s).children()])
            def plain(s):
                if weight is None: return And(*ceq(app(AMP["m"], E(s)[0]), val(s, lv(s))))
                return And(*ceq(D.edge_sem("m", D.cval(s, E(s)[1], E(s)[2]), E(s)[0]), cmul(weight, val(s, lv(s)))))
            HEAD[:] = [plain]
            out = [Inv("weight", wt, True), Inv("weight-stored", lambda s: And(*[BoolVal(True) if D.is_stored(s, x) else Or(bv(x, 64) == D.bz, bv(x, 64) == D.bo) for x in E(s)[1:]]), True),
                   Inv("node", lambda s: And(Not(D.isT("m", E(s)[0])), E(s)[0] != 0), True),
                   Inv("level", lambda s: And(lv(s) >= lo, lv(s) <= hi), True),
                   Inv("identity", ident, True),
                   Inv("no-scratch", lambda s: BoolVal(D.num(s).lent == lent0), True)]
            for oid, w in ints:
                for d in (-2, -1, 0, 1, 2):
                    c = lambda s, oid=oid: bv(s.mem[oid].cells[0][1], s.mem[oid].cells[0][0] * 8)
                    for bn, base in (("", None), (".rel", lo)):
                        def g(s, c=c, d=d, w=w, base=base):
                            t = lv(s) if base is None else lv(s) - base
                            return c(s) == (SignExt(w - 8, t) if w > 8 else t) + BitVecVal(d % (1 << w), w)
                        out.append(Inv("%s-%d%s" % (oid[1].split("#")[-1], d, bn), g))
                    def down(s, c=c, d=d, w=w):
                        t = hi - lv(s)
                        return c(s) == (SignExt(w - 8, t) if w > 8 else t) + BitVecVal(d % (1 << w), w)
                    out.append(Inv("%s-%d.down" % (oid[1].split("#")[-1], d), down))
            return out
        L = LoopSpec(name, cands)
        def at(ex, s):
            p, r, i = E(s)
            s.assume(HEAD[0](s))
            if weight is not None:
                for x in (r, i): D.store_ok(s, bv(x, 64)); s.assume((VALF(x) == 0) == (x == D.bz))
            n = D.wnum(s)
            if n.temp is not None: n.dead = n.dead | {x.get_id() for x in n.temp}; n.temp = None
            n.dead = n.dead | n.freed; n.freed = frozenset()
            ident_def(s, lo, D.lev(s, "m", p) + 1)
        L.at_header = at
        return L
    return spec

def t_make():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(PKG + "makeIdent(signed char, ")); ctx.loc = fn.dem
        D.makeDDNode("m", node_extra(D))
        for zero in (True, False):
            st = D.state()
            out, *_ = D.edge(st, "m", "out")
            t = IdTable(D, st)
            lo = BitVecVal(0, 8) if zero else BitVec("lsq", 8)
            hi = BitVec("msq", 8)
            st.assume([lo >= 0 if zero else lo > 0, hi >= -1, Implies(zero is True, True), SignExt(56, hi) < t.n, lo <= 127, D.bot == lo])
            st.assume(hi <= 126)
            hi64 = SignExt(56, hi); q = BitVec("any_index", 64); st.assume(ULT(q, t.n))
            for i in (hi64, hi64 - 1, q): st.assume(Implies(And(i >= 0, i < t.n), t.ok(st, i)))
            for l in (hi, hi - 1, lo, lo - 1): ident_def(st, lo, l)
            # entries in use are numbers of the package
            ex.loopspec = ladder(D, "levels", lo, hi, lambda s, l: (IDENT(lo, l), RealVal(0)))
            ctx.reach(st, "range%s" % (" from zero" if zero else "")); st0 = st.copy()
            for o in ctx.call(st, fn, [out, D.pkg, 0 if zero else lo, hi]):
                s = o.state
                if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
                p, r, i = D.read_edge(s, out)
                ctx.oblige(s, "weight-one", And(r == D.bo, i == D.bz))
                for g, n in zip(ceq(app(AMP["m"], p), (IDENT(lo, hi), RealVal(0))), ("re", "im")): ctx.oblige(s, "identity." + n, g)
                ctx.oblige(s, "level", If(hi < lo, D.isT("m", p), And(Not(D.isT("m", p)), D.lev(s, "m", p) == hi)))
                ctx.oblige(s, "not-null", p != 0)
                ctx.oblige(s, "table", And(t.intact(s), t.ok(s, q)))
                D.leak_check(ctx, s); D.nodes_unchanged(ctx, s, st0)
    return Task("Package::makeIdent(Qubit, Qubit)", "", run, merge=False, budget=400)

def ident_contract(D):
    """makeIdent(a, b): identity on a..b with weight one"""
    def h(ex, st, args, i):
        out, this, lo, hi = args[:4]
        lo, hi = bv(lo, 8), bv(hi, 8)
        p = ex.fresh("ident", P)
        st.assume([p != 0, If(hi < lo, D.isT("m", p), And(Not(D.isT("m", p)), D.lev(st, "m", p) == hi)), *ceq(app(AMP["m"], p), (IDENT(lo, hi), RealVal(0)))])
        D.put_edge(st, out, p, D.bo, D.bz)
        return ("val", None)
    return (lambda d: d.startswith(PKG + "makeIdent(signed char, "), h)

def t_n():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d.startswith(PKG + "makeIdent(") and "," not in d); ctx.loc = fn.dem
        st = D.state(); out, *_ = D.edge(st, "m", "out")
        ex.contracts.append(ident_contract(D))
        fn.parse(); w = 8 * ctx.mod.size(fn.params[2][0]); n = BitVec("n", w)
        st.assume([n >= 0, n <= 127 if w > 8 else n >= 0])
        hi = Extract(7, 0, n) - 1 if w > 8 else n - 1
        ctx.reach(st, "n")
        for o in ctx.call(st, fn, [out, D.pkg, n]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(s, out)
            ctx.oblige(s, "weight-one", And(r == D.bo, i == D.bz))
            for g, m in zip(ceq(app(AMP["m"], p), (IDENT(BitVecVal(0, 8), hi), RealVal(0))), ("re", "im")): ctx.oblige(s, "identity." + m, g)
            ctx.oblige(s, "level", If(n == 0, D.isT("m", p), D.lev(s, "m", p) == hi))
    return Task("Package::makeIdent(QubitCount)", "", run, merge=False)

def t_clear():
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: d == PKG + "clearIdentityTable()"); ctx.loc = fn.dem
        st = D.state(); t = IdTable(D, st)
        Q = BitVec("any_index", 64); st.assume(ULT(Q, t.n))
        def spec(ex, s0, fn_, h, body):
            if fn_.name != fn.name: return None
            cur = []; J = {}
            for oid, o in s0.mem.items():
                if oid == D.pkg.base or not uses(fn_, body, oid[1].split("#")[-1]): continue
                for off, (sz, v) in o.cells.items():
                    v = D.ex.pbv(v) if v is not symex.UNDEF else v
                    if sz == 8 and isinstance(v, z3.ExprRef) and same_term(v, t.base): cur.append((oid, off, sz, True))
                    elif v is not symex.UNDEF and len(o.cells) == 1 and sz in (2, 4, 8) and type(v) is int and v == 0: cur.append((oid, off, sz, False))
            if len(cur) != 1: raise Unsupported("iteration over idTable not recognised")
            oid, off, sz, isptr = cur[0]
            def C(s):
                v = bv(D.ex.pbv(s.mem[oid].cells[off][1]), 8 * sz)
                return v if isptr or sz == 8 else ZeroExt(64 - 8 * sz, v)
            at = lambda j: t.addr(j) if isptr else j                    # pointer into the table, or index
            def where(s):
                if s is s0: return C(s) == at(B(0))                     # before the first iteration
                if s is J.get("hs"): return BoolVal(True)
                return C(s) == at(J["j"] + 1)
            def done(s):
                j = B(0) if s is s0 else (J["j"] if s is J.get("hs") else J["j"] + 1)
                return Implies(ULT(Q, j), t.entry(s, Q)[0] == 0)
            def cands(ex, s): return [Inv("position", where, True), Inv("emptied", done, True), Inv("range", lambda s: t.intact(s), True)]
            L = LoopSpec("idTable", cands)
            def at_header(ex_, s): J["hs"] = None
            L.at_header = at_header
            hav = ex.havoc
            def prep_header(st_):
                J["j"] = ex.fresh("j", P); J["hs"] = st_
                st_.assume([ULE(J["j"], t.n), C(st_) == at(J["j"])])
            def havoc(st_, modset, sp):
                hav(st_, modset, sp)
                if sp is L: prep_header(st_)
            ex.havoc = havoc
            return L
        ex.loopspec = spec
        ctx.reach(st, "table")
        for o in ctx.call(st, fn, [D.pkg]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            ctx.oblige(s, "every-entry-dropped", t.entry(s, Q)[0] == 0)
            ctx.oblige(s, "same-size", t.intact(s))
    return Task("Package::clearIdentityTable", "", run, merge=False)

def same_term(a, b): return a.eq(b)

def tasks(mod): return [t_make(), t_n(), t_clear()]
