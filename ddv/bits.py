"""std::vector<bool> as a fixed sequence of bits (trusted contracts of the standard library).

The object is opaque: its iterators are two positions (begin, finish), B(i) is the bit at index i < n.  Algorithms over the whole
range (none_of, any_of, all_of, count, find-free) are contracts; the predicate of *_of is read off the code by evaluating the
lambda on both values."""
from .ddm import *
from . import ir

P64 = BitVecSort(64)
BITVEC = "std::vector<bool, std::allocator<bool> >::"

class Bits:
    """st.ghost["bits"][object id] = (f: index -> Bool, n, facts) ; facts: dict any, all, count"""
    def __init__(self, D):
        self.D = D; ex = D.ex
        ex.contracts += [(lambda d: d.startswith(BITVEC + "operator[](unsigned long) const"), self.at),
                         (lambda d: d.startswith(BITVEC + "size() const"), lambda ex, st, a, i: ("val", self.of(st, a[0])["n"])),
                         (lambda d: d.startswith(BITVEC + "vector(unsigned long, bool const&"), self.ctor),
                         (lambda d: d.startswith(BITVEC + "~vector()"), lambda ex, st, a, i: ("val", None)),
                         (lambda d: d.startswith(("bool std::none_of<std::_Bit", "bool std::any_of<std::_Bit", "bool std::all_of<std::_Bit")), self.quant),
                         (lambda d: "difference_type std::count<std::_Bit" in d, self.count)]
    def new(self, ctx, st, name, f, n, **facts):
        o = ctx.obj(st, name, "struct.std::_Bvector_base", symbolic=False)
        self.put(st, o, name, f, n, facts)
        return o
    def put(self, st, o, name, f, n, facts):
        ex = self.D.ex; ctx = self.D.ctx
        rec = dict(f=f, n=n, facts=facts, b=BitVec(name + ".begin", 64), e=BitVec(name + ".finish", 64), eb=BitVec(name + ".finishbit", 32))
        for off, ty, v in ((0, PTR, rec["b"]), (8, ir.INT(32), BitVecVal(0, 32)), (16, PTR, rec["e"]), (24, ir.INT(32), rec["eb"])): ex.store(st, Ptr(o.base, o.rt, o.off + off, o.sym), ty, v)
        g = dict(st.ghost.get("bits", {})); g[o.base] = rec; st.ghost["bits"] = g
    def of(self, st, p):
        q = self.D.ex.asptr(p); g = st.ghost.get("bits", {})
        if not q.isobj() or q.base not in g: raise Unsupported("unknown vector<bool>")
        return g[q.base]
    def at(self, ex, st, args, i):
        r = self.of(st, args[0]); k = bv(args[1], 64)
        ex.oblige(st, "vector<bool>: index in range", ULT(k, bv(r["n"], 64)))
        return ("val", simplify(r["f"](k)))
    def ctor(self, ex, st, args, i):
        v = self.D.ctx.cell(st, args[2], 0, ir.INT(8))
        if isinstance(v, z3.ExprRef): v = simplify(v)
        if isinstance(v, z3.ExprRef) and not z3.is_bv_value(v): raise Unsupported("vector<bool>(n, symbolic)")
        one = (v if type(v) is int else v.as_long()) & 1 == 1
        n = args[1]
        o = ex.asptr(args[0]); n64 = bv(n, 64)
        self.put(st, o, "vb%d" % len(st.ghost.get("bits", {})), lambda k: BoolVal(one), n64, dict(any=(n64 != 0) if one else BoolVal(False), all=BoolVal(True) if one else n64 == 0, count=n64 if one else BitVecVal(0, 64)))
        return ("val", None)
    def whole(self, ex, st, args):
        b, bb, e, eb = args[:4]
        g = [r for r in st.ghost.get("bits", {}).values() if z3.is_expr(ex.pbv(b)) and ex.pbv(b).eq(r["b"])]
        if not g: raise Unsupported("iterators of an unknown vector<bool>")
        r = g[0]
        ex.oblige(st, "vector<bool>: the algorithm covers the whole vector", And(bv(ex.pbv(e), 64) == r["e"], bv(bb, 32) == 0, bv(eb, 32) == r["eb"]))
        return r
    def quant(self, ex, st, args, i):
        r = self.whole(ex, st, args)
        name = ex.mod.dem[i.a["f"][1]]
        lam = self.lam(name)
        fn = [f for f in ex.mod.funcs.values() if f.dem.startswith(lam + "::operator()(bool) const")]
        if len(fn) != 1: raise Unsupported("predicate " + lam[:80])
        val = {}
        for x in (False, True):
            outs = self.evaluate(ex, st, fn[0], [BitVecVal(8, 64), x])
            vs = set()
            for o in outs:
                if o.kind != "ret": raise Unsupported("predicate throws")
                y = o.ret
                if isinstance(y, z3.ExprRef): y = simplify(y); y = True if z3.is_true(y) else False if z3.is_false(y) else (y.as_long() & 1 == 1 if z3.is_bv_value(y) else None)
                vs.add(bool(y) if y is not None else None)
            if len(vs) != 1 or None in vs: raise Unsupported("predicate not a function of the bit")
            val[x] = vs.pop()
        f = r["facts"]; k = "none" if "none_of" in name else "any" if "any_of" in name else "all"
        one, zero = f["any"], Not(f["all"])           # some bit is 1 / some bit is 0
        some = Or(*([one] if val[True] else []) + ([zero] if val[False] else [])) if (val[True] or val[False]) else BoolVal(False)
        someno = Or(*([one] if not val[True] else []) + ([zero] if not val[False] else [])) if not (val[True] and val[False]) else BoolVal(False)
        return ("val", simplify(Not(some) if k == "none" else some if k == "any" else Not(someno)))
    def evaluate(self, ex, st, fn, args):
        s = st.copy(); s.frames = []; keep = ex.outcomes; ex.outcomes = []
        fn.parse(); ex.push(s, fn, args); ex.explore([s])
        outs, ex.outcomes = ex.outcomes, keep
        return outs
    def lam(self, name):
        # bool std::none_of<std::_Bit_const_iterator, LAMBDA>(std::...
        s = name.index(", ") + 2; d = 0
        for j in range(s, len(name)):
            c = name[j]
            if c in "<({": d += 1
            elif c in ")}": d -= 1
            elif c == ">" and name[j - 1] != "-":
                if d == 0: return name[s:j]
                d -= 1
        raise Unsupported("template argument of " + name[:60])
    def count(self, ex, st, args, i):
        r = self.whole(ex, st, args)
        v = self.D.ctx.cell(st, args[4], 0, ir.INT(8))
        if isinstance(v, z3.ExprRef):
            v = simplify(v)
            if not z3.is_bv_value(v): raise Unsupported("count of a symbolic value")
            v = v.as_long()
        c = r["facts"]["count"]
        return ("val", c if v & 1 else bv(r["n"], 64) - c)
