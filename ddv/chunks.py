"""Entries handed out from chunks plus a free list: shared vocabulary of the tables' specifications.

Trusted contract of std::vector<std::vector<T>>::emplace_back(n): appends a vector of n value-initialised
elements at fresh, properly aligned memory that overlaps no other object."""
from .lib import *
from .symex import Unsupported, bv, Ptr

VVD = "struct.std::_Vector_base<{T}, std::allocator<{T}>>::_Vector_impl_data"

class Chunks:
    def __init__(self, ctx, obj, cls, esize, etype, defaults):
        m = ctx.mod.members(name=cls)
        self.off = {}
        for k, v in defaults.items(): self.off[k] = m.get(k, v)
        self.extra = m
        self.ctx, self.obj, self.esize, self.etype = ctx, obj, esize, etype
        self.vreg = lambda k: (VVD.format(T=etype), k, (), "p")
        self.onalloc = []
    def get(self, st, name, ty=None): return bv(self.ctx.ex.pbv(self.ctx.cell(st, self.obj, self.off[name], ty or PTR)), 64)
    def put(self, st, name, v, ty=None): self.ctx.setcell(st, self.obj, self.off[name], ty or PTR, v)
    def geti(self, st, name): return bv(self.ctx.cell(st, self.obj, self.off[name], INT(64)), 64)
    def start(self, st): return bv(self.ctx.ex.pbv(self.ctx.cell(st, self.obj, self.off["chunks"], PTR)), 64)
    def finish(self, st): return bv(self.ctx.ex.pbv(self.ctx.cell(st, self.obj, self.off["chunks"] + 8, PTR)), 64)
    def elem(self, st, k, f):
        """field f (0 begin, 8 end) of chunk number k"""
        a = self.ctx.region(st, self.vreg(f))
        return Select(a, self.start(st) + 24 * k)
    def ghosts(self):
        return [BitVec("chunk.%s.%s" % (self.etype, x), 64) for x in ("q", "m", "c")]
    def wf(self, st, unit=1, goal=False):
        """list of (name, formula): the chunk iterators are consistent and point to unhanded memory.
        Divisibility is expressed through ghost quotients; as a goal the quotient is one of a few witnesses."""
        es = self.esize
        it, end, sz = self.get(st, "chunkIt"), self.get(st, "chunkEndIt"), self.geti(st, "allocationSize")
        cid = self.geti(st, "chunkID")
        b0, e0 = self.elem(st, B(0), 0), self.elem(st, B(0), 8)
        q, m, c = self.ghosts()
        def mult(x, k, w, lim):
            ws = [w] if not goal else [q, q - 1, q - 2, m, 2 * m, 3 * m, 4 * m, c, m - 1] + [B(k) for k in (0, 1, 2, 512, 1023, 1024, 2047, 2048, 4096, 8192)]
            return Or(*[And(x == k * y, ULT(y, B(lim))) for y in ws])
        step = es * unit
        return [("iterators", And(ULE(it, end), mult(end - it, step, q, 1 << 48), UGT(it, B(1 << 32)), ULT(end, B(1 << 62)), Extract(2, 0, it) == 0)),
                ("allocation-size", And(UGT(sz, B(0)), mult(sz, unit, m, 1 << 48))),
                ("chunk-count", And(self.finish(st) - self.start(st) == 24 * (cid + 1), ULT(cid, B(1 << 32)))),
                ("first-chunk", And(ULT(b0, e0), mult(e0 - b0, step, c, 1 << 48), UGT(b0, B(1 << 32)), ULT(e0, B(1 << 62)), Extract(2, 0, b0) == 0))]
    def emplace(self, unit=1):
        """contract handler for chunks.emplace_back(allocationSize)"""
        def h(ex, st, args, i):
            this, szp = args[0], args[1]
            if not (type(this) is Ptr and this.isobj() and this.base == self.obj.base and this.off == self.off["chunks"]): raise Unsupported("emplace_back on another vector")
            n = bv(ex.load(st, ex.asptr(szp), INT(64)), 64)
            st.assume(ULT(n, B(1 << 46)))           # allocation succeeds only for sizes that fit the address space
            s0, f0 = self.start(st), self.finish(st)
            k = f0 - s0
            st.assume(ULT(k, B(1 << 36)))               # neither does an endless number of chunks
            D = ex.fresh("vec.data", P64); b = ex.fresh("chunk.begin", P64)
            e = b + n * self.esize
            st.assume([D != 0, ULT(D, B(1 << 60)), b != 0, Extract(3, 0, b) == 0, ULT(b, B(1 << 61)), ULT(e, B(1 << 62)), ULE(b, e)])
            st.assume(UGT(b, B(1 << 32)))           # dynamic memory lies away from static objects
            a0, a8, a16 = [self.ctx.region(st, self.vreg(o)) for o in (0, 8, 16)]
            n0, n8, n16 = ex.fresh("vec0", a0.sort()), ex.fresh("vec8", a8.sort()), ex.fresh("vec16", a16.sort())
            st.assume(Implies(k != 0, And(Select(n0, D) == Select(a0, s0), Select(n8, D) == Select(a8, s0))))
            n0, n8, n16 = Store(n0, D + k, b), Store(n8, D + k, e), Store(n16, D + k, e)
            for o, a in ((0, n0), (8, n8), (16, n16)):
                st.heap[self.vreg(o)] = a; st.wlog.add(("h", self.vreg(o)))
            for o, v in ((0, D), (8, D + k + 24), (16, D + k + 24)): ex.store(st, Ptr(self.obj.base, self.obj.rt, self.off["chunks"] + o), PTR, v)
            for g in self.onalloc: g(ex, st, b, e, n)
            return ("val", D + k)
        return h
def is_emplace(t): return lambda d: "::emplace_back<" in d and ("std::vector<std::vector<" + t) in d
