"""C10: Package::makeDDNode with normalize, for state and matrix nodes, cached and uncached.

The unique table by contract (C05-C07): getNode hands out a node that is not in use; lookup(e) returns e itself if no stored node
has the same level and successors, and that stored node otherwise; returnNode gives a node back.
Proved: exactly the contract of makeDDNode that every operation uses (ddm.makeDDNode), and the normal form."""
from ..ddm import *
from .. import ir

def UT(d, k, m): return d.startswith("dd::UniqueTable<%s," % CPP[k]) and ("::%s(" % m) in d

def store_contracts(D, k):
    ctx = D.ctx
    def getnode(ex, st, args, i):
        p = Concat(ex.fresh("new_node", BitVecSort(61)), BitVecVal(0, 3))
        st.assume([p != 0] + [p != BitVecVal(t, 64) for t in D.T.values()] + [p != c for c in st.ghost.get("inuse", ())])
        st.ghost["fresh"] = st.ghost.get("fresh", ()) + (p,); st.ghost["handed"] = st.ghost.get("handed", ()) + (p,)
        return ("val", Ptr(p, ex.canon(NODE[k]), 0, ()))
    def give(ex, st, args, i):
        p = bv(D.norm(args[1]), 64)
        ex.oblige(st, "returnNode: the node was handed out and is not in use", Or(*[p == q for q in st.ghost.get("fresh", ())]))
        st.ghost["fresh"] = (); st.ghost["given"] = True
        return ("val", None)
    def lookup(ex, st, args, i):
        out, this, pe = args[:3]
        p, r, m = D.read_edge(st, pe); p = bv(p, 64)
        term = D.isT(k, p)
        t = False if ex.quickprove(st, Not(term)) else True if ex.quickprove(st, term) else None
        res = []
        if t is not False:
            s = st.copy(); s.assume(term); s.br.append(term)
            D.put_edge(s, out, p, r, m); res.append((s, None))
        if t is True: return ("multi", res)
        s = st.copy(); s.assume(Not(term)); s.br.append(Not(term))
        ex.oblige(s, "unique table lookup: a node that is not stored yet", Or(*[p == q for q in s.ghost.get("fresh", ())]) if s.ghost.get("fresh") else BoolVal(False))
        s.ghost["content"] = [tuple(D.norm(x) for x in D.child(s, k, p, j)) for j in range(NSUCC[k])]
        new, old = s, s.copy()
        new.ghost["stored"] = p; new.ghost["fresh"] = ()
        D.put_edge(new, out, p, r, m); res.append((new, None))
        q = Concat(ex.fresh("stored_node", BitVecSort(61)), BitVecVal(0, 3))
        old.assume([q != 0, q != p] + [q != BitVecVal(x, 64) for x in D.T.values()] + [D.lev(old, k, q) == D.lev(old, k, p)])
        for j in range(NSUCC[k]):
            for a, b in zip(D.child(old, k, q, j), D.child(old, k, p, j)): old.assume(a == b)
        old.ghost["stored"] = q; old.ghost["fresh"] = (); old.br.append(BoolVal(True))
        D.put_edge(old, out, q, r, m); res.append((old, None))
        return ("multi", res)
    return [(lambda d: UT(d, k, "getNode"), getnode), (lambda d: UT(d, k, "returnNode"), give), (lambda d: UT(d, k, "lookup"), lookup)]

def marks_contract(D):
    """checkSpecialMatrices (C14): writes nothing but the marks of the node"""
    def h(ex, st, args, i):
        p = bv(D.norm(args[1]), 64); key = D.key("m", FOFF["m"], "i8"); old = D.ctx.region(st, key)
        f = ex.fresh("marks", BitVecSort(8)); f0 = ex.select(old, [p])
        nonterm = Not(D.isT("m", p))
        ex.oblige(st, "checkSpecialMatrices: a stored node or the terminal", Or(D.isT("m", p), p == st.ghost["stored"] if "stored" in st.ghost else BoolVal(False)))
        st.heap[key] = Store(old, p, If(nonterm, (f & 48) | (f0 & 15), f0))
        st.ghost["marked"] = True
        return ("val", None)
    return (lambda d: d.startswith(PKG + "checkSpecialMatrices("), h)

def nz(v): return Or(v[0] != 0, v[1] != 0)
def sq(v): return v[0] * v[0] + v[1] * v[1]

def t_make(k, cached, zeros, form=None, what=""):
    form = form or normal_form
    N = NSUCC[k]
    def run(ctx):
        D = DD(ctx); ex = ctx.ex
        fn = ctx.fn(lambda d: "::makeDDNode<%s>(" % CPP[k] in d); ctx.loc = fn.dem
        ex.defs["fork_select"] = True
        ex.contracts += store_contracts(D, k)
        if k == "m": ex.contracts.append(marks_contract(D))
        st = D.state()
        out, *_ = D.edge(st, k, "out")
        ety, _ = D.edgetype(k)
        arr = ex.new_object(st, "edges", ir.Ty("arr", N, ety), False, ESZ * N)
        T = BitVecVal(D.T[k], 64); var = BitVec("var", 8); st.assume([var >= D.bot, var <= 126])
        ins = []
        for j in range(N):
            q = Ptr(arr.base, None, ESZ * j, ())
            if zeros[j] and not cached:
                p, r, m, v = BitVec("zero%d.p" % j, 64), D.bz, D.bz, C0
                st.assume([p != 0, Or(p == T, D.effl(st, k, p) == var - 1)])
            elif zeros[j]:
                # exactly zero, or a scratch number that happens to be zero
                v = C0; p, r, m = D.zero_or_scratch(st, k, v, "z%d" % j)
                st.assume([Implies(r != D.bz, D.effl(st, k, p) == var - 1), (r == D.bz) == (m == D.bz)])
            else:
                p = BitVec("succ%d.p" % j, 64); st.assume(p != 0)
                v = (Real("w%d.re" % j), Real("w%d.im" % j))
                if cached:
                    r, m = D.issue(st, v, None, "w%d" % j)
                    st.assume([D.effl(st, k, p) == var - 1])
                    st.assume(nz(v))
                else:
                    r, m = BitVec("w%d.r" % j, 64), BitVec("w%d.i" % j, 64)
                    D.store_ok(st, r); D.store_ok(st, m)
                    v = (VALF(r), VALF(m))
                    for h in (r, m): st.assume([(h == D.bz) == (VALF(h) == 0), (h == D.bo) == (VALF(h) == 1)])
                    st.assume([nz(v), D.effl(st, k, p) == var - 1])
            for o, x in ((0, p), (8, r), (16, m)): ctx.setcell(st, q, o, PTR, x)
            ins.append((p, r, m, v))
        st.ghost["inuse"] = tuple(e[0] for e in ins if not z3.is_bv_value(e[0]))
        ctx.reach(st, "successors"); st0 = st.copy()
        for o in ctx.call(st, fn, [out, D.pkg, var, arr, cached, False]):
            s = o.state
            if o.kind != "ret": ctx.oblige(s, "no-exception", BoolVal(False)); continue
            p, r, i = D.read_edge(s, out); v = D.cval(s, r, i); p = bv(p, 64)
            zh = And(D.zeroh(r), D.zeroh(i))
            allz = all(zeros)
            ctx.oblige(s, "zero-iff-all-successors-zero", zh if allz else Not(zh))
            if allz: ctx.oblige(s, "zero-edge-is-terminal", D.isT(k, p))
            else:
                ctx.oblige(s, "weight-not-zero", nz(v))
                ctx.oblige(s, "node-stored", BoolVal("stored" in s.ghost)); 
                if "stored" not in s.ghost: continue
                ctx.oblige(s, "node-is-the-stored-one", p == s.ghost["stored"])
                ctx.oblige(s, "level", And(Not(D.isT(k, p)), p != 0, D.lev(s, k, p) == var))
                ws = []
                for j in range(N):
                    # the result has the successors of the node that was looked up
                    c, cr, ci = s.ghost["content"][j]
                    ctx.oblige(s, "same-successors.%d" % j, And(*[a == b for a, b in zip(D.child(s, k, p, j), (c, cr, ci))]))
                    if zeros[j]:
                        ctx.oblige(s, "zero-successor.%d" % j, And(D.zeroh(cr), D.zeroh(ci), D.isT(k, c))); ws.append(None); continue
                    ctx.oblige(s, "successor-kept.%d" % j, c == ins[j][0])
                    hs = [stored_child(D, s, h) for h in (cr, ci)]
                    w = tuple(D.rd(s, h) for h in hs)
                    for h, n in zip(hs, ("re", "im")):
                        if not D.is_stored(s, h): ctx.oblige(s, "stored-weight.%d.%s" % (j, n), Or(h == D.bz, h == D.bo))
                    for g, n in zip(ceq(cmul(v, w), ins[j][3]), ("re", "im")): ctx.oblige(s, "represents.%d.%s" % (j, n), g)
                    ws.append(w)
                form(D, ctx, s, k, v, ws, ins, hs)
                if k == "m" and "stored" in s.ghost and s.ghost["stored"].eq(p) and p.decl().name() == "concat" and "new_node" in str(p): ctx.oblige(s, "new-node-marked", BoolVal(s.ghost.get("marked", False)))
            if allz and not cached: ctx.oblige(s, "node-given-back", BoolVal(s.ghost.get("given", False)))
            if cached:
                e = D.find_lent(s, r, i)
                if e is None: ctx.oblige(s, "result-weight-is-scratch-or-zero", zh)
                D.leak_check(ctx, s, [(r, i)])
            else:
                D.result_stored(ctx, s, r, i); D.leak_check(ctx, s)
            frame(D, ctx, s, st0, k)
    t = Task("Package::makeDDNode<%s> (%s%s)" % (CPP[k][4:], "cached" if cached else "uncached", ", successors " + "".join("*z"[z] for z in zeros)) + what, "", run, merge=False, budget=300)
    if sum(zeros) < 2 and k == "m" or not any(zeros): t.par = 6; t.cost = 60 if not any(zeros) else 30
    return t

def stored_child(D, s, h): return D.norm(h)

def normal_form(D, ctx, s, k, v, ws, ins, _):
    live = [j for j in range(len(ws)) if ws[j] is not None]
    if k == "v":
        S = sum((sq(ins[j][3]) for j in live), RealVal(0))
        rep = {j: ceq(cmul(v, ws[j]), ins[j][3]) for j in live}
        ctx.lemma(s, "top-weight-is-the-norm", sq(v) == S)
        # sum of |w'_j|^2 |v|^2 = |w_j|^2 (represents, and the magnitude of a product), |v|^2 = S > 0
        magnitudes(ctx, s)
        ctx.oblige(s, "norm-positive", S > 0)
        X, Y, Z, A, B_ = Reals("X Y Z A B"); s2 = D.ctx.state(); s2.assume([X * Z == A, Y * Z == B_, A + B_ == Z, Z > 0])
        ctx.oblige(s2, "normal-form.norm", X + Y == 1)
        for j in live:
            o = [x for x in live if x != j]
            pos = And(ws[j][1] == 0, ws[j][0] > 0)
            # the larger one is real and positive
            if not o: ctx.oblige(s, "normal-form.positive", pos)
            else: ctx.oblige(s, "normal-form.positive.%d" % j, Implies(sq(ins[j][3]) > sq(ins[o[0]][3]), pos))
        if len(live) == 2: ctx.oblige(s, "normal-form.some-positive", Or(*[And(ws[j][1] == 0, ws[j][0] > 0) for j in live]))
        return
    N = sq(v)
    ctx.oblige(s, "normal-form.largest-is-one", Or(*[And(ws[j][0] == 1, ws[j][1] == 0) for j in live]))
    ctx.oblige(s, "top-weight-is-a-successor-weight", Or(*[And(*ceq(v, ins[j][3])) for j in live]))
    ctx.lemma(s, "top-weight-positive", N > 0)
    for j in live:
        # |w'_j|^2 N = |w_j|^2 (represents, and the magnitude of a product), |w_j|^2 <= N, N > 0
        ctx.oblige(s, "largest.%d" % j, sq(ins[j][3]) <= N)
    magnitudes(ctx, s)
    X, Y, Z = Reals("X Y Z"); s2 = D.ctx.state(); s2.assume([X * Y == Z, Z <= Y, Y > 0])
    ctx.oblige(s2, "magnitude-at-most-one", X <= 1)

def magnitudes(ctx, s):
    a, b, c, d = Reals("a b c d"); s2 = ctx.state()
    ctx.oblige(s2, "magnitude-of-a-product", sq(cmul((a, b), (c, d))) == sq((a, b)) * sq((c, d)))

def frame(D, ctx, s, st0, k):
    """only the node handed out is written (its contents are not in use), and marks of the result"""
    names = {D.ex.canon(n) for n in NODE.values()} | set(NODE.values())
    q = BitVec("any_node", 64)
    fresh = s.ghost.get("allnew", None)
    for key, arr in s.heap.items():
        if key[0] not in names: continue
        old = ctx.region(st0, key)
        if old.eq(arr): continue
        a = arr
        while z3.is_store(a) and any(a.arg(1).eq(n) for n in s.ghost.get("handed", ())): a = a.arg(0)
        if a.eq(old): ctx.oblige(s, "stored-nodes-unchanged", BoolVal(True)); continue
        excl = [q != n for n in s.ghost.get("handed", ())]
        ctx.oblige(s, "stored-nodes-unchanged", Implies(And(*excl), D.ex.select(arr, [q]) == D.ex.select(old, [q])))

def patterns(k):
    import itertools
    return itertools.product((0, 1), repeat=NSUCC[k])

def first_kept(D, ctx, s, k, v, ws, ins, _):
    """unless the second successor is larger, the weight kept at the first is real and positive (used by the construction of product states)"""
    ctx.oblige(s, "first-is-positive", Implies(sq(ins[0][3]) >= sq(ins[1][3]), And(ws[0][1] == 0, ws[0][0] > 0)))

def tasks(mod):
    out = []
    for k in "vm":
        for c in (False, True):
            for z in patterns(k): out.append(t_make(k, c, z))
    return out
