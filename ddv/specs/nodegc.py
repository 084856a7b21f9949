"""C07: garbage collection of a unique table of nodes."""
from .unique import *
from .numtable import ptrcells, cellv
from .numgc import FreeView, intcells, isindex
from .memo import moved
from .ident import uses

ZC, NZ = Function("dead.before", P, P, P, P), Function("alive.before", P, P, P, P)      # number of unreferenced / referenced nodes before a sweep position
CNT = {"dead.before", "alive.before"}
i_, j_ = BitVec("i", 64), BitVec("j", 64)

ROW, UNROW = Function("row", P, P), Function("row.number", P, P)

class Sweep:
    """state of a sweep over the levels, the buckets of a level and the chain of a bucket that stands at (r, k1, p)"""
    def __init__(self, t, st):
        self.t = t
        self.N0, self.T0, self.L, self.R = t.N(st), t.T(st), t.L(st), t.R(st)
        self.lv = lambda q: SignExt(56, self.L[q])
    def row(self, r): return self.t.rowaddr(r)
    def hd(self, T, r, k1): return Select(T, self.row(r), k1)
    def at(self, q, r, k1): return And(self.lv(q) == r, BK[q] == k1)
    def vis(self, r, k1, p):
        lv = self.lv
        return lambda q: And(ROLE[q] == 1, Or(ULT(lv(q), r), And(lv(q) == r, Or(ULT(BK[q], k1), And(BK[q] == k1, Or(p == 0, POS[q] > POS[p]))))))
    def kept(self, *pos): v = self.vis(*pos); return lambda q: And(v(q), self.R[q] != 0)
    def dead(self, *pos): v = self.vis(*pos); return lambda q: And(v(q), self.R[q] == 0)
    def pool(self, s, pos, prev):
        A, N = self.t.ch.get(s, "available"), self.t.N(s); dd = self.dead(*pos)
        fr = lambda q: Or(ROLE[q] == 2, dd(q))
        return [("free-head", Or(A == 0, And(fr(A), prev[A] == 0))),
                ("free-next", FA([e], Implies(fr(e), Or(N[e] == 0, And(fr(N[e]), prev[N[e]] == e))), [ROLE[e]]))]
    def invs(self, s, r, k1, p, lastp, prev):
        t, R, N0, T0 = self.t, self.R, self.N0, self.T0
        N, T = t.N(s), t.T(s); pos = (r, k1, p); lv = self.lv
        vis, kept, at = self.vis(*pos), self.kept(*pos), self.at
        inr = And(ULT(r, t.n), ULT(k1, NB))
        h = lambda q: self.hd(T, lv(q), BK[q])
        same = lambda a, b: And(self.L[a] == self.L[b], BK[a] == BK[b])
        before = lambda a, b: Or(ULT(a, r), And(a == r, ULT(b, k1)))
        after = lambda a, b: Or(UGT(a, r), And(a == r, UGT(b, k1)))
        return [("cursor", Or(p == 0, And(ROLE[p] == 1, at(p, r, k1)))),
                ("ahead-chain", FA([e], Implies(And(ROLE[e] == 1, Not(vis(e))), N[e] == N0[e]), [ROLE[e]])),
                ("ahead-tables", ForAll([i_, j_], Implies(And(after(i_, j_), ULT(i_, t.n), ULT(j_, NB)), self.hd(T, i_, j_) == self.hd(T0, i_, j_)))),
                ("last-kept", Or(lastp == 0, And(kept(lastp), at(lastp, r, k1), N[lastp] == p))),
                ("head-cursor", Implies(And(lastp == 0, inr), self.hd(T, r, k1) == p)),
                ("last-is-last", FA([e], Implies(And(kept(e), at(e, r, k1)), And(lastp != 0, POS[e] >= POS[lastp], Or(e == lastp, N[e] != 0))), [ROLE[e]])),
                ("first", FA([e], Implies(kept(e), And(h(e) != 0, kept(h(e)), same(h(e), e), POS[h(e)] >= POS[e])), [ROLE[e]])),
                ("order", FA([e], Implies(And(kept(e), e != lastp, N[e] != 0), And(kept(N[e]), same(N[e], e), POS[N[e]] < POS[e])), [ROLE[e]])),
                ("adjacent", FA([e, f], Implies(And(kept(e), kept(f), e != lastp, same(e, f), POS[f] < POS[e]), And(N[e] != 0, POS[f] <= POS[N[e]])), [ROLE[e], ROLE[f]])),
                ("heads", ForAll([i_, j_], Implies(And(before(i_, j_), ULT(i_, t.n), ULT(j_, NB), self.hd(T, i_, j_) != 0), And(kept(self.hd(T, i_, j_)), at(self.hd(T, i_, j_), i_, j_))))),
                ("head-current", Implies(And(inr, lastp != 0), And(kept(self.hd(T, r, k1)), at(self.hd(T, r, k1), r, k1))))] + self.pool(s, pos, prev)
    def total(self, F): return If(self.t.n == 0, B(0), F(self.t.n - 1, B(NB - 1), B(0)))
    def step(self, F, q):
        one = If(self.R[q] == 0, B(1), B(0)) if F is ZC else If(self.R[q] == 0, B(0), B(1))
        return Implies(ROLE[q] == 1, F(self.lv(q), BK[q], self.N0[q]) == F(self.lv(q), BK[q], q) + one)
    def count_axioms(self, st):
        N0, T0, R, n, hd, lv = self.N0, self.T0, self.R, self.t.n, self.hd, self.lv
        for F in (ZC, NZ):
            st.assume([F(B(0), B(0), hd(T0, B(0), B(0))) == 0,
              FA([e], self.step(F, e), [ROLE[e]]),
              ForAll([i_, j_], Implies(And(ULT(i_, n), ULT(j_, NB - 1)), F(i_, j_ + 1, hd(T0, i_, j_ + 1)) == F(i_, j_, B(0))), patterns=[F(i_, j_, B(0))]),
              ForAll([i_], Implies(ULT(i_ + 1, n), F(i_ + 1, B(0), hd(T0, i_ + 1, B(0))) == F(i_, B(NB - 1), B(0))), patterns=[F(i_, B(NB - 1), B(0))])])
    # position at the head of a loop
    def rowstart(self, r): return (r, B(0), If(ULT(r, self.t.n), self.hd(self.T0, r, B(0)), B(0)))
    def bucketstart(self, r, k1): return (r, k1, If(ULT(k1, NB), self.hd(self.T0, r, k1), B(0)))
    def number(self, F, r, k1, p):
        """number of nodes before the position (past the end: of all)"""
        return If(ULT(r, self.t.n), If(ULT(k1, NB), F(r, k1, p), F(r, B(NB - 1), B(0))), self.total(F))

def gc_loops(ctx, t, sw, gcname):
    ex = ctx.ex; J = {}; sw.J = J
    prev = lambda s: s.ghost["prev"]
    def counts(out, pos, number=sw.number):
        roles = J["roles"]
        for c in J["cnt"]:
            if roles: F, nm = (ZC, "dead") if c in roles else (NZ, "alive"); out.append(Inv("counts-" + nm, lambda s, c=c, F=F: cellv(s, c) == number(F, *pos(s)), True, focus=CNT)); continue
            for F, nm in ((ZC, "dead"), (NZ, "alive")): out.append(Inv("counts-" + nm, lambda s, c=c, F=F: cellv(s, c) == number(F, *pos(s)), focus=CNT))
        return out
    def family(out, s0, pos, lastp, number=sw.number):
        names = [nm for nm, _ in sw.invs(s0, B(0), B(0), B(0), B(0), prev(s0))]
        for n, nm in enumerate(names): out.append(Inv(nm, lambda s, n=n: sw.invs(s, *pos(s), lastp(s), prev(s))[n][1], True))
        return counts(out, pos, number)
    def mine(st, oid): return oid[1].startswith(st.frames[-1].id + "#")
    def position(st, fn, body, start, stride, me, lim):
        """the local that runs over the rows (or the buckets of a row): (its cell, index of a state)"""
        cur = []
        for oid, ob in st.mem.items():
            if oid == t.obj.base or not mine(st, oid) or not uses(fn, body, oid[1].split("#")[-1]): continue
            for off, (sz, v) in ob.cells.items():
                reg = oid[1].split("#")[-1]
                if sz == 8 and type(v) is Ptr and not v.isobj() and bv(ex.pbv(Ptr(v.base, v.rt, 0, ())), 64).eq(start) and moved(fn, body, reg):
                    if not v.sym and v.off == 0: st.wobj(oid).cells[off] = (sz, Ptr(v.base, v.rt, v.off, ((stride, 0),))); cur.append((oid, off, sz, "sym"))
                    elif v.sym and v.sym[-1] == (stride, 0): cur.append((oid, off, sz, "sym"))
                elif sz == 8 and isinstance(v, ExprRef) and v.eq(start) and (me == "r" or moved(fn, body, reg)):
                    if me == "k": st.wobj(oid).cells[off] = (sz, Ptr(v, ex.canon(t.row), 0, ((stride, 0),)))       # the same address, as an element of the array
                    cur.append((oid, off, sz, "raw" if me == "r" else "sym"))
                elif (type(v) is int and v == 0 or isinstance(v, ExprRef) and is_bv_value(v) and v.as_long() == 0) and isindex(ex, fn, body, oid): cur.append((oid, off, sz, "int"))
        if len(cur) > 1: cur = [c for c in cur if c[3] != "int"]
        if len(cur) != 1: raise Unsupported("loop of garbageCollect not recognised")
        oid, off, sz, how = cur[0]
        raw = lambda s: s.mem[oid].cells[off][1]
        def index(s):
            v = raw(s)
            if how == "sym": return bv(v.sym[-1][1], 64)
            if how == "int":
                v = bv(ex.pbv(v), 8 * sz); return v if sz == 8 else ZeroExt(64 - 8 * sz, v)
            if s is J.get(me + "0"): return B(0)
            return J[me] if s is J.get(me + "s") else J[me] + 1
        def where(s):
            if how != "raw" or s is J.get(me + "s"): return ULE(index(s), lim)
            if s is J.get(me + "0"): return bv(ex.pbv(raw(s)), 64) == start
            return And(bv(ex.pbv(raw(s)), 64) == t.ROWS(J[me] + 1), ULE(J[me] + 1, lim))
        if how == "raw": J[me + "0"] = st
        return cur[0], index, where
    def walk(L, cell, start, stride, me, lim):
        """after the havoc the position is the start plus an unknown number of steps"""
        oid, off, sz, how = cell
        if how != "raw": return L
        def at_header(ex_, s): J[me + "s"] = None
        L.at_header = at_header
        hav = ex.havoc
        def havoc(st_, modset, sp):
            hav(st_, modset, sp)
            if sp is L:
                J[me] = ex.fresh("row" if me == "r" else "bucket", P); J[me + "s"] = st_
                st_.assume(ULE(J[me], lim)); st_.wobj(oid).cells[off] = (sz, t.ROWS(J[me])); st_.assume(t.ROWS(J[me] + 1) == t.ROWS(J[me]) + stride)
        ex.havoc = havoc
        return L
    def spec(ex_, st, fn, h, body):
        if not fn.dem.startswith(gcname): return None
        if "rows" not in J:
            J["rows"] = h
            cell, R_, where = position(st, fn, body, t.ROWS(B(0)), 8 * NB, "r", t.n); J["rowcell"] = (cell, R_)
            J["cnt"] = [c for c in intcells(st) if is_zero(cellv(st, c)) and c != cell[:2]]
            # counters changed where a node is returned to the pool count those (a hint: otherwise every assignment is tried)
            def changed(c, b): return any(i.op == "store" and i.a["p"] == ("reg", c[0][1].split("#")[-1]) for i in b.ins)
            back = [b for b in fn.blocks if b.name in body and any(i.op in ("call", "invoke") and i.a["f"][0] == "glob" and "returnNode" in ex.mod.dem.get(i.a["f"][1], "") for i in b.ins)]
            J["roles"] = [c for c in J["cnt"] if any(changed(c, b) for b in back)]
            if not (len(J["cnt"]) == 2 and len(J["roles"]) == 1): J["roles"] = None
            def cands(e_, s0):
                pos = lambda s: sw.rowstart(R_(s))
                return family([Inv("level", where, True)], s0, pos, lambda s: B(0))
            L = LoopSpec("levels", cands)
            if cell[3] == "int":
                def at_header(ex_, s): s.assume(t.ROWS(B(0)) + R_(s) * (8 * NB) == t.ROWS(R_(s)))          # what a row address is
                L.at_header = at_header
            return walk(L, cell, t.ROWS(B(0)), 8 * NB, "r", t.n)
        R_ = J["rowcell"][1]; oidr, offr = J["rowcell"][0][:2]
        rr = simplify(R_(st)) if J["rowcell"][0][3] != "raw" else J["r"]
        if "buckets" not in J or J["buckets"] == h:
            J["buckets"] = h
            cell, K_, where = position(st, fn, body, sw.row(rr), 8, "k", B(NB)); J["bucketcell"] = (cell, K_)
            def cands(e_, s0):
                pos = lambda s: sw.bucketstart(rr, K_(s))
                return family([Inv("bucket", where, True), Inv("level", lambda s: ULT(rr, t.n), True)], s0, pos, lambda s: B(0))
            return walk(LoopSpec("buckets", cands), cell, sw.row(rr), 8, "k", B(NB))
        K_ = J["bucketcell"][1]; kk = K_(st) if J["bucketcell"][0][3] != "raw" else J["k"]
        def cands(e_, s0):
            T_ = t.T(s0); isptr = lambda c: s0.mem[c[0]].ty is not None and ex.mod.resolve(s0.mem[c[0]].ty).k == "ptr"
            cs = [c for c in ptrcells(s0) if isptr(c) and uses(fn, body, c[0][1].split("#")[-1])]
            cur = [c for c in cs if is_select(cellv(s0, c)) and cellv(s0, c).arg(0).eq(T_)]
            nulls = [c for c in cs if is_zero(cellv(s0, c))]
            if len(cur) != 1 or len(nulls) != 1: raise Unsupported("chain loop of garbageCollect not recognised")
            Pc = lambda s: cellv(s, cur[0]); Lc = lambda s: cellv(s, nulls[0])
            out = family([Inv("bucket", lambda s: And(ULT(kk, NB), ULT(rr, t.n)), True)], s0, lambda s: (rr, kk, Pc(s)), Lc, lambda F, *p: F(*p))
            out.append(Inv("cursor-chain", lambda s: Or(Pc(s) == 0, t.N(s)[Pc(s)] == sw.N0[Pc(s)]), True))
            J["cursor"] = Pc
            return out
        L = LoopSpec("chain", cands)
        def at_header(e_, s):
            p = J["cursor"](s); nx = sw.N0[p]
            for F in (ZC, NZ): s.assume(sw.step(F, p))          # instance of the counting axiom
            # instances of "order" before the sweep and of "ahead-chain"
            same = lambda a, b: And(sw.L[a] == sw.L[b], BK[a] == BK[b])
            s.assume([Implies(And(ROLE[p] == 1, nx != 0), And(ROLE[nx] == 1, same(nx, p), POS[nx] < POS[p])),
                      Implies(And(ROLE[nx] == 1, Not(sw.vis(rr, kk, p)(nx))), t.N(s)[nx] == sw.N0[nx])])
        L.at_header = at_header
        return L
    return spec

def J_raw(sw): return sw.J.get("rowcell") and sw.J["rowcell"][0][3] == "raw"
def is_zero(v): return is_bv_value(v) and v.as_long() == 0

def t_gc(kind, force):
    def run(ctx):
        ex = ctx.ex; st = ctx.state(); t = UT(ctx, st, kind); t.ROWS = ROW; t.setup(st)
        # ROW(r) = begin + r * (size of a row): distinct for the rows of the table (lemma "rows")
        st.assume(ForAll([i_], Implies(ULE(i_, 129), UNROW(ROW(i_)) == i_), patterns=[ROW(i_)]))
        for q in (ROW(t.n) - ROW(B(0)),): st.assume([q == t.n * (8 * NB), q / B(8 * NB) == t.n, UDiv(q, B(8 * NB)) == t.n])          # number of rows (lemma "rows")
        fn = t.fn("garbageCollect("); ctx.loc = fn.dem
        sw = Sweep(t, st); sw.count_axioms(st)
        n0 = t.ch.geti(st, "nodeCount"); dead, alive = sw.total(ZC), sw.total(NZ)
        st.assume([n0 == dead + alive, ULT(dead, B(1 << 60)), ULT(alive, B(1 << 60))])          # every stored node is counted once
        st.ghost["prev"] = PREV
        def on_store(ex_, s, key, idx, v, a):
            if key == t.nreg and "prev" in s.ghost:
                q = idx[0]; pv = s.ghost["prev"]
                s.ghost["prev"] = If(Select(sw.R, q) == 0, Store(Store(pv, bv(v, 64), q), q, B(0)), pv); s.wlog.add(("g", "prev"))
        ex.defs["on_store"] = on_store
        ex.loopspec = gc_loops(ctx, t, sw, t.cpp + "garbageCollect(")
        ctx.reach(st, "invariant")
        C0, R0, N0, T0 = t.contents(st), t.R(st), t.N(st), t.T(st)
        lim0, A0 = t.ch.get(st, "gcLimit"), t.ch.get(st, "available")
        for o in ctx.call(st, fn, [t.obj, force]):
            if o.kind != "ret": ctx.oblige(o.state, "no-exception", BoolVal(False)); continue
            s = o.state; ret = bv(o.ret, 64); n1 = t.ch.geti(s, "nodeCount")
            ctx.oblige(s, "nodes-unaltered", And(t.R(s) == R0, *[a == b for a, b in zip(t.contents(s), C0)]))
            if t.N(s).eq(N0) and t.T(s).eq(T0):
                ctx.oblige(s, "nothing-done", And(ret == 0, n1 == n0, t.ch.get(s, "available") == A0))
                ctx.oblige(s, "only-if-not-needed", Or(n0 == 0, And(BoolVal(not force), ULT(n0, lim0))))
                ctx.oblige(s, "none-stored-when-empty", Implies(n0 == 0, dead == 0)); ex.obls[-1].focus = CNT
                continue
            if J_raw(sw): ctx.lemma(s, "every-level-visited", sw.J["r"] == t.n)
            for nm, g in (("number-removed", ret == dead), ("number-remaining", n1 == alive)):
                ctx.oblige(s, nm, g); ex.obls[-1].focus = CNT
            ctx.oblige(s, "only-if-needed", Or(BoolVal(force), UGE(n0, lim0)))
            end = sw.rowstart(t.n)
            role = FreeView(sw.dead(*end))
            ctx.oblige(s, "removed-iff-unreferenced", FA([e], Implies(ROLE[e] == 1, (role[e] == 1) == (R0[e] != 0)), [ROLE[e]]))
            for nm, g in t.inv(s, role, BK, POS, s.ghost["prev"], True): ctx.oblige(s, "inv-" + nm, g)
    T = Task("UniqueTable<%sNode>::garbageCollect(%s)" % (kind, "forced" if force else "if needed"), "", run, merge=False, timeout=30000, budget=700); T.cost = 60; T.par = 1
    return T

def t_rows():
    def run(ctx):
        st = ctx.state(); b, r, q = BitVecs("begin r q", 64); st.assume([ULT(b, B(1 << 60)), ULE(r, 129), ULE(q, 129)])
        row = lambda x: b + x * (8 * NB)
        ctx.lemma(st, "rows-distinct", Implies(row(r) == row(q), r == q))
        for nm, g in (("difference", row(r) - row(B(0)) == r * (8 * NB)), ("number", (row(r) - row(B(0))) / B(8 * NB) == r), ("number-unsigned", UDiv(row(r) - row(B(0)), B(8 * NB)) == r)): ctx.lemma(st, "rows-" + nm, g)
        ctx.lemma(st, "rows-adjacent", row(r + 1) == row(r) + 8 * NB)
    T = Task("rows", "", run, merge=False, budget=60); T.cost = 1
    return T

def tasks(mod): return [t_rows()] + [t_gc(kk, b) for kk in "vmd" for b in (True, False)]
