"""Symbolic executor over the LLVM IR of the real code (see DESIGN.md).

Integers and pointers are bit-precise (bit-vectors), doubles are mathematical reals.
Functions without a contract are inlined from the IR; loops are unrolled when their test is
concrete and cut by an invariant otherwise; calls with a contract are replaced by it."""
import heapq, itertools, os, time
from fractions import Fraction
import z3
from z3 import (BitVecVal, BitVec, BitVecSort, RealSort, RealVal, BoolVal, And, Or, Not, Implies, If,
                is_true, is_false, ForAll, Function, Const, ArraySort, Select, Store, simplify, is_bv, is_bool,
                IntSort, ToReal, ToInt)
from .ir import IRError, INT, PTR, DBL

class Unsupported(Exception):
    pass
class NeedCut(Exception):
    def __init__(self, depth, header): self.depth, self.header = depth, header

P64 = BitVecSort(64)
R = RealSort()

class Ptr:
    """structured address: base (('o',id) concrete object, or int / BV64 term = heap object) + const offset + sum idx*stride"""
    __slots__ = ("base", "rt", "off", "sym")
    def __init__(self, base, rt=None, off=0, sym=()):
        self.base, self.rt, self.off, self.sym = base, rt, off, sym
    def isobj(self): return type(self.base) is tuple
    def __repr__(self): return "Ptr(%s,%s,%d,%s)" % (self.base, self.rt, self.off, self.sym)

class FnPtr:
    def __init__(self, name): self.name = name
    def __repr__(self): return "@" + self.name

class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

def same(a, b):
    if a is b: return True
    ta, tb = type(a), type(b)
    if ta is int or ta is bool or tb is int or tb is bool or a is None or b is None:
        return ta is tb and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if ta is Ptr and tb is Ptr:
        if a.off != b.off or len(a.sym) != len(b.sym): return False
        if a.isobj() != b.isobj(): return False
        if a.isobj():
            if a.base != b.base: return False
        elif not same(a.base, b.base): return False
        return all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.sym, b.sym))
    if ta is FnPtr and tb is FnPtr: return a.name == b.name
    if ta is tuple and tb is tuple: return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False

def bv(x, w):
    if type(x) is bool: return BitVecVal(1 if x else 0, w)
    if type(x) is int: return BitVecVal(x, w)
    if is_bool(x): return If(x, BitVecVal(1, w), BitVecVal(0, w))
    return x
def sgn(x, w): return x - (1 << w) if x >> (w - 1) else x
def bl(x):
    if type(x) is bool: return BoolVal(x)
    if type(x) is int: return BoolVal(x != 0)
    return x
def isreal(x): return isinstance(x, z3.ArithRef)
def land(*xs):
    ys = [x for x in xs if not (x is True or (isinstance(x, z3.ExprRef) and is_true(x)))]
    if any(x is False for x in ys): return BoolVal(False)
    if not ys: return BoolVal(True)
    return ys[0] if len(ys) == 1 else And(*ys)

class Frame:
    __slots__ = ("fn", "blk", "ip", "regs", "prev", "iters", "retreg", "retcont", "id", "cuts", "tested", "onret", "dbg")
    def copy(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev, f.retreg, f.retcont, f.id, f.tested, f.onret, f.dbg = self.fn, self.blk, self.ip, self.prev, self.retreg, self.retcont, self.id, self.tested, self.onret, self.dbg
        f.regs = dict(self.regs); f.iters = dict(self.iters); f.cuts = self.cuts
        return f

class State:
    __slots__ = ("frames", "mem", "heap", "pc", "br", "ghost", "wlog", "tags", "pcids", "owned", "noexc")
    def __init__(self):
        self.frames = []; self.mem = {}; self.heap = {}; self.pc = []; self.br = []; self.ghost = {}
        self.wlog = set(); self.tags = {}; self.pcids = {}; self.owned = set()
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.owned = set(); self.owned = set()
        s.heap = dict(self.heap); s.pc = list(self.pc); s.br = list(self.br)
        s.ghost = dict(self.ghost); s.wlog = set(self.wlog); s.tags = dict(self.tags); s.pcids = dict(self.pcids)
        return s
    def obj(self, oid):
        o = self.mem.get(oid)
        if o is None: raise Unsupported("dead object %r" % (oid,))
        return o
    def wobj(self, oid):
        if oid not in self.owned:
            self.mem[oid] = self.mem[oid].clone(); self.owned.add(oid)
        return self.mem[oid]
    def assume(self, c, branch=False):
        if c is True: return
        if c is False: c = BoolVal(False)
        if isinstance(c, (list, tuple)):
            for x in c: self.assume(x)
            return
        if is_true(c): return
        i = c.get_id()
        if i in self.pcids: return
        self.pcids[i] = c
        self.pc.append(c)
        if branch: self.br.append(c)
        if z3.is_and(c):
            for x in c.children():
                self.pcids.setdefault(x.get_id(), x)
    @property
    def fr(self): return self.frames[-1]

class Obj:
    __slots__ = ("name", "ty", "cells", "symbolic", "size", "alloca")
    def __init__(self, name, ty, symbolic=False, size=None, alloca=None):
        self.name, self.ty, self.symbolic, self.size, self.alloca = name, ty, symbolic, size, alloca
        self.cells = {}
    def clone(self):
        o = Obj(self.name, self.ty, self.symbolic, self.size, self.alloca); o.cells = dict(self.cells); return o

class Obligation:
    def __init__(self, name, pc, goal, loc, kind="post", where=None):
        self.name, self.pc, self.goal, self.loc, self.kind, self.where = name, pc, goal, loc, kind, where
        self.result = None; self.time = 0.0; self.backend = None; self.model = None; self.case = None

class Outcome:
    def __init__(self, kind, state, ret=None, info=None):
        self.kind, self.state, self.ret, self.info = kind, state, ret, info

SPECIAL = {}   # python float -> z3 real term (idealised constants)

class Exec:
    MAXUNROLL = 260
    def __init__(self, mod, contracts=None, merge=False, fpmode="real"):
        self.mod = mod
        self.contracts = contracts or []      # list of (matcher(dem)->bool, handler)
        self.builtins = []
        self.cnt = itertools.count()
        self.obls = []; self.outcomes = []
        self.loopspec = None                  # callable(ex, st, fn, header) -> LoopSpec or None
        self.merge = merge
        self.globaddr = {}; self.addrglob = {}
        self.termcache = {}
        self.axioms = []                      # global facts (assumed everywhere)
        self.stats = dict(instr=0, forks=0, feas=0, feas_t=0.0, paths=0, inlined=set(), contracted=set(), external=set(), loops_cut=set(), loops_unrolled=set())
        self.feas_timeout = 150
        self.deadline = None
        self.inline_filter = None
        self.cmap = {}
        self.record = True
        self.houdini_check = None
        self.consts = {}
        self.trackwrites = True
        self.defs = {}; self.canonc = {}

    # ------------------------------------------------------------ fresh symbols
    def fresh(self, name, sort):
        return Const("%s!%d" % (name, next(self.cnt)), sort)
    def freshty(self, name, t):
        t = self.mod.resolve(t) if t.k == "named" else t
        if t.k == "int": return self.fresh(name, z3.BoolSort()) if t.a == 1 else self.fresh(name, BitVecSort(t.a))
        if t.k == "ptr": return self.fresh(name, P64)
        if t.k == "double": return self.fresh(name, R)
        if t.k == "struct": return tuple(self.freshty(name, e) for e in t.a)
        if t.k == "arr": return tuple(self.freshty(name, t.b) for _ in range(t.a))
        if t.k in ("float", "x86_fp80"): return self.fresh(name, R)
        raise Unsupported("fresh of %r" % t)
    def sortof(self, t):
        if t.k == "int": return BitVecSort(8 * self.mod.size(t))
        if t.k == "ptr": return P64
        if t.k in ("double", "float", "x86_fp80"): return R
        raise Unsupported("sort of %r" % t)

    # ------------------------------------------------------------ globals
    def gaddr(self, name):
        a = self.globaddr.get(name)
        if a is None:
            a = 0x100000 + 0x10000 * len(self.globaddr)
            self.globaddr[name] = a; self.addrglob[a] = name
        return a
    def gdem(self, dem):
        """address of the global whose demangled name is dem"""
        for n in self.mod.globals:
            if self.mod.dem.get(n) == dem: return self.gaddr(n)
        raise Unsupported("no global " + dem)
    def global_init(self, name):
        src = self.mod.globals.get(name, "")
        from .ir import TS, tokenize
        toks = tokenize(src.split(", align")[0].split(", comdat")[0].split(", !dbg")[0])
        ts = TS(toks, self.mod)
        while not ts.end() and ts.peek() not in ("global", "constant"):
            if ts.peek() == "external": return None
            ts.next()
        if ts.end(): return None
        kind = ts.next()
        ty = ts.type()
        if ts.end(): return None
        return kind, ty, ts.value(ty)
    def const_load(self, name, off, ty):
        gi = self.mod._gi.get(name)
        if gi is None:
            gi = self.mod._gi[name] = self.global_init(name) or False
        if not gi or gi[0] != "constant": return None
        t, v = gi[1], gi[2]
        while True:
            r = self.mod.resolve(t)
            if r.k == "struct":
                offs = self.mod.offsets(r)
                j = max(i for i in range(len(offs)) if offs[i] <= off)
                if v[0] == "zero": t = r.a[j]; off -= offs[j]; continue
                if v[0] != "agg": return None
                t, v = v[1][j]; off -= offs[j]
            elif r.k == "arr":
                s = self.mod.size(r.b); j = off // s
                if v[0] == "zero": t = r.b; off -= j*s; continue
                if v[0] != "agg": return None
                t, v = v[1][j]; off -= j * s
            else:
                if off != 0: return None
                if v[0] == "zero": return RealVal(0) if r.k == "double" else 0
                return self.constant(r, v)

    # ------------------------------------------------------------ constants / operands
    def real_const(self, text):
        if text in self.consts: return self.consts[text]
        if text.startswith("0x") or text.startswith("-0x"):
            import struct
            neg = text[0] == "-"
            h = text.lstrip("-")[2:]
            if h[0] in "KLMHR":
                if h[0] == "K":  # x86_fp80
                    b = int(h[1:], 16); m = b & ((1 << 64) - 1); e = (b >> 64) & 0x7fff; s = b >> 79
                    f = float(Fraction(m, 1 << 63) * (Fraction(2) ** (e - 16383))) * (-1 if s else 1)
                else: raise Unsupported("fp const " + text)
            else:
                f = struct.unpack(">d", bytes.fromhex(h.zfill(16)))[0]
            if neg: f = -f
        else: f = float(text)
        r = self.real_py(f)
        self.consts[text] = r
        return r
    def real_py(self, f):
        if f in SPECIAL: return SPECIAL[f]
        if -f in SPECIAL: return -SPECIAL[-f]
        if f != f or f in (float("inf"), float("-inf")): return Const("fpspecial_%s" % f, R)
        fr = Fraction(f)
        return RealVal(str(fr))
    def constant(self, ty, v):
        k = v[0]
        if k == "const":
            if ty.k == "int" and ty.a == 1: return bool(v[1])
            return v[1]
        if k == "fconst":
            return self.real_const(v[1])
        if k == "glob":
            if v[1] in self.mod.funcs or v[1] in self.mod.decls: return FnPtr(v[1])
            return Ptr(self.gaddr(v[1]))
        if k == "undef": return UNDEF
        if k == "zero":
            r = self.mod.resolve(ty)
            if r.k == "struct": return tuple(self.constant(e, ("zero",)) for e in r.a)
            if r.k == "arr": return tuple(self.constant(r.b, ("zero",)) for _ in range(r.a))
            if r.k in ("double", "float"): return RealVal(0)
            if r.k == "int" and r.a == 1: return False
            return 0
        if k == "agg": return tuple(self.constant(t, x) for t, x in v[1])
        if k == "gep":
            b = self.constant(PTR, v[2])
            return self.gep(None, v[1], b, [(t, self.constant(t, x)) for t, x in v[3]])
        if k == "cast":
            x = self.constant(v[2], v[3])
            return x
        raise Unsupported("constant %r" % (v,))
    def val(self, st, ty, v):
        if v[0] == "reg":
            try: return st.frames[-1].regs[v[1]]
            except KeyError: raise Unsupported("undefined register %s in %s" % (v[1], st.fr.fn.dem))
        return self.constant(ty, v)

    # ------------------------------------------------------------ pointers
    def asptr(self, p):
        """any pointer value -> Ptr"""
        if type(p) is Ptr: return p
        if p is UNDEF: raise Unsupported("undef pointer dereferenced")
        return Ptr(p)
    def pbv(self, p):
        """pointer value as BV64 term / int (address)"""
        if type(p) is Ptr:
            if p.isobj():
                if p.off == 0 and not p.sym: return self.objaddr(p.base)
                return bv(self.objaddr(p.base), 64) + p.off if not p.sym else self._symaddr(p)
            if p.sym: return self._symaddr(p)
            if p.off == 0: return p.base
            if type(p.base) is int: return (p.base + p.off) % (1 << 64)
            return p.base + p.off
        if type(p) is FnPtr: raise Unsupported("function pointer as data")
        return p
    def _symaddr(self, p):
        b = bv(self.objaddr(p.base) if p.isobj() else p.base, 64) + p.off
        for stride, idx in p.sym: b = b + bv(idx, 64) * stride
        return b
    def objaddr(self, base):
        # concrete objects live in their own address range, far from heap numerals
        d = self.termcache.setdefault("objaddr", {})
        if base not in d: d[base] = 0x7f0000000000 + 0x1000000 * (len(d) + 1)
        return d[base]
    BIG = 16
    def gep(self, st, sty, p, idx):
        p = self.asptr(p)
        base, rt, off, sym = p.base, p.rt, p.off, p.sym
        if not p.isobj() and rt is None and not sym and off == 0:
            rt = self.rootname(sty)
        ty = sty
        first = True
        for t, i in idx:
            if first:
                first = False
                s = self.mod.size(ty)
                if type(i) is int:
                    i = sgn(i, t.a)
                    if i == 0: continue
                    if sym and sym[-1][0] == s:
                        sym = sym[:-1] + ((s, self.addidx(sym[-1][1], i)),)
                    elif p.isobj(): off += i * s
                    elif off == 0 and not sym and self.wholestep(rt, s):
                        base = (base + i * s) % (1 << 64) if type(base) is int else base + BitVecVal((i * s) % (1 << 64), 64)
                    else: off += i * s
                else:
                    i64 = self.sx(i, t.a)
                    if sym and sym[-1][0] == s:
                        sym = sym[:-1] + ((s, self.addidx(sym[-1][1], i64)),)
                    elif p.isobj() or off != 0 or sym or not self.wholestep(rt, s):
                        sym = sym + ((s, i64),)
                    else:
                        base = bv(base, 64) + i64 * BitVecVal(s, 64)
                continue
            r = self.mod.resolve(ty)
            if r.k == "struct":
                j = i if type(i) is int else None
                off += self.mod.offsets(r)[j]; ty = r.a[j]
            elif r.k == "arr":
                s = self.mod.size(r.b)
                if r.a > self.BIG:
                    sym = sym + ((s, i if type(i) is int else self.sx(i, t.a)),)
                elif type(i) is int:
                    off += sgn(i, t.a) * s
                else:
                    sym = sym + ((s, self.sx(i, t.a)),)
                ty = r.b
            else: raise Unsupported("gep into %r" % r)
        return Ptr(base, rt, off, sym)
    def wholestep(self, rt, s):
        """pointer arithmetic in steps of s on a pointer to a whole rt (not to its first member)"""
        k = (rt, s); r = self.canonc.get(k)
        if r is None:
            r = True
            if rt is not None and rt in self.mod.typesrc:
                try: r = self.mod.size(self.mod.named(rt)) == s
                except IRError: pass
            self.canonc[k] = r
        return r
    def rootname(self, t):
        if t.k == "named": return t.a
        return repr(t)
    def addidx(self, a, b):
        if type(a) is int and type(b) is int: return (a + b) % (1 << 64)
        return simplify(bv(a, 64) + bv(b % (1 << 64) if type(b) is int else b, 64))
    def sx(self, i, w):
        if w == 64: return i
        if type(i) is int: return sgn(i, w) % (1 << 64)
        return z3.SignExt(64 - w, i)

    # ------------------------------------------------------------ memory
    def region_array(self, st, key, nk, sort):
        a = st.heap.get(key)
        if a is None:
            nm = "H_" + "_".join(str(x) for x in key)
            dom = [P64] * nk
            a = Const(nm, ArraySort(*dom, sort)) if nk else Const(nm, sort)
            st.heap[key] = a
            h = self.defs.get("region_init")
            if h: h(st, key, a)
        return a
    def rkey(self, p, ty):
        """region key and index list for a non-cell address"""
        strides = tuple(s for s, _ in p.sym)
        idx = [bv(i, 64) for _, i in p.sym]
        nk = "d" if ty.k in ("double", "float", "x86_fp80") else ("p" if ty.k == "ptr" else "i%d" % (8 * self.mod.size(ty)))
        if p.isobj():
            return ("obj", p.base[1], p.off, strides, nk), idx
        rt = p.rt
        if rt is None: rt = repr(ty)
        flat = self.defs.get("flatten", {}).get(rt)
        if flat is not None:            # an array of elements seen as its elements
            el, es = flat
            if any(x % es for x in strides): raise Unsupported("access across elements of " + rt)
            b = bv(p.base, 64) + (p.off // es) * es
            for x, i in zip(strides, idx): b = b + i * x
            return (self.canon(el), p.off % es, (), nk), [simplify(b)]
        return (self.canon(rt), p.off, strides, nk), [bv(p.base, 64)] + idx
    def canon(self, rt):
        """one name for a class and the base classes / first members it starts with (same address)"""
        c = self.canonc.get(rt)
        if c is not None: return c
        c = rt
        if rt in self.mod.typesrc:
            try:
                t = self.mod.named(rt)
                while True:
                    r = self.mod.resolve(t)
                    if r.k != "struct" or len(r.a) != 1 or r.a[0].k != "named": break
                    if self.mod.resolve(r.a[0]).k != "struct": break
                    t = r.a[0]
                c = self.rootname(t)
            except IRError: pass
        self.canonc[rt] = c
        return c
    def small_sym(self, p):
        """resolve symbolic index into a small array by case enumeration: list of (cond, Ptr)"""
        return None
    def load(self, st, p, ty):
        r = ty
        if ty.k == "named": ty = self.mod.resolve(ty)
        if ty.k == "struct":
            offs = self.mod.offsets(ty); p = self.asptr(p)
            return tuple(self.load(st, Ptr(p.base, p.rt, p.off + o, p.sym), e) for o, e in zip(offs, ty.a))
        if ty.k == "arr":
            p = self.asptr(p); s = self.mod.size(ty.b)
            return tuple(self.load(st, Ptr(p.base, p.rt, p.off + j*s, p.sym), ty.b) for j in range(ty.a))
        p = self.asptr(p)
        if type(p.base) is int and p.base == 0: raise Unsupported("load from null")
        sz = self.mod.size(ty)
        if p.sym:
            sm = self.small_split(st, p)
            if sm is not None:
                out = None
                for c, q in reversed(sm):
                    v = self.load(st, q, ty)
                    out = v if out is None else self.ite(c, v, out, 8 * sz)
                return out
        if p.isobj() and not p.sym:
            o = st.obj(p.base)
            c = o.cells.get(p.off)
            if c is not None and c[0] == sz: 
                return self.coerce_load(c[1], ty)
            if c is None and not o.symbolic:
                # maybe a wider/narrower overlapping cell
                for oo, (ss, vv) in o.cells.items():
                    if oo <= p.off < oo + ss:
                        return self.subload(vv, ss, p.off - oo, sz, ty)
                return UNDEF
            if c is None:
                for oo in range(max(0, p.off - 15), p.off + sz):
                    cc = o.cells.get(oo)
                    if cc and oo + cc[0] > p.off: return self.subload(cc[1], cc[0], p.off - oo, sz, ty)
                if o.symbolic is True:
                    v = self.coerce_load(Const("%s@%d:%s" % (o.name, p.off, repr(ty)), self.sortof(ty)), ty)
                else:
                    v = o.symbolic(self, st, o, p.off, ty)
                w = st.wobj(p.base); w.cells[p.off] = (sz, v)
                return self.coerce_load(v, ty)
            return self.subload(c[1], c[0], 0, sz, ty)
        if type(p.base) is int and not p.sym:
            g = self.addrglob.get(p.base)
            if g is not None:
                v = self.const_load(g, p.off, ty)
                if v is not None: return v
        key, idx = self.rkey(p, ty)
        hk = self.defs.get("on_load")
        if hk:
            v = hk(self, st, key, idx, p.base)
            if v is not None: return v
        a = self.region_array(st, key, len(idx), self.sortof(ty))
        v = self.select(a, idx)
        return self.coerce_load(v, ty)
    def small_split(self, st, p):
        """a symbolic index into a small array (<=BIG elements) -> cases"""
        for n, (stride, idx) in enumerate(p.sym):
            ext = None
            if type(idx) is int and not p.isobj(): continue
            if p.isobj():
                o = st.obj(p.base)
                t = o.ty
                ext = self.small_extent(t, p.off, stride)
            elif p.rt is not None:
                try: t = self.mod.named(p.rt) if p.rt in self.mod.typesrc else None
                except Exception: t = None
                ext = self.small_extent(t, p.off, stride) if t is not None else None
            if ext is None or ext > self.BIG: continue
            rest = p.sym[:n] + p.sym[n+1:]
            out = []
            for j in range(ext):
                out.append(((bv(idx, 64) == j), Ptr(p.base, p.rt, p.off + j * stride, rest)))
            return out
        return None
    def small_extent(self, t, off, stride):
        """number of elements of the array with this stride around offset off in type t"""
        if t is None: return None
        try:
            while True:
                r = self.mod.resolve(t)
                if r.k == "struct":
                    offs = self.mod.offsets(r)
                    c = [i for i in range(len(offs)) if offs[i] <= off and (self.mod.size(r.a[i]) > off - offs[i] )]
                    if not c: return None
                    off -= offs[c[-1]]; t = r.a[c[-1]]
                elif r.k == "arr":
                    s = self.mod.size(r.b)
                    if s == stride: return r.a
                    if r.a > self.BIG: off = off % s
                    else: off = off % s
                    t = r.b
                else: return None
        except IRError: return None
    def select(self, a, idx):
        if not idx: return a
        # peephole: select over store with syntactically equal / distinct numerals
        while True:
            if z3.is_store(a):
                ch = a.children()
                ks = ch[1:-1]
                if all(x.eq(y) for x, y in zip(ks, idx)): return ch[-1]
                if any(z3.is_bv_value(x) and z3.is_bv_value(y) and x.as_long() != y.as_long() for x, y in zip(ks, idx)):
                    a = ch[0]; continue
            elif z3.is_const_array(a): return a.children()[0]
            break
        return Select(a, *idx)
    def coerce_load(self, v, ty):
        if ty.k == "int":
            if v is UNDEF: return v
            if ty.a == 1:
                if type(v) is bool or (isinstance(v, z3.ExprRef) and is_bool(v)): return v
                if type(v) is int: return bool(v & 1)
                return z3.Extract(0, 0, v) == 1
            if type(v) is bool: return int(v)
            if isinstance(v, z3.ExprRef):
                if is_bool(v): return bv(v, ty.a)
                if is_bv(v):
                    if z3.is_bv_value(v): return v.as_long()
                    if v.size() != ty.a: 
                        if v.size() > ty.a: return z3.Extract(ty.a - 1, 0, v)
                        raise Unsupported("int load width")
                elif isreal(v): raise Unsupported("int load of real")
            if type(v) is Ptr: return v   # pointer moved through an integer cell (iterators, coerced structs)
            return v
        if ty.k == "ptr":
            if isinstance(v, z3.ExprRef) and z3.is_bv_value(v):
                n = v.as_long()
                return n
            return v
        if ty.k == "double":
            if type(v) is int and v == 0: return RealVal(0)
            if v is UNDEF or isreal(v): return v
            raise Unsupported("double load of %r" % (v,))
        return v
    def subload(self, v, ss, rel, sz, ty):
        if v is UNDEF: return UNDEF
        if type(v) is int and rel + sz <= ss:
            return self.coerce_load((v >> (8 * rel)) & ((1 << (8 * sz)) - 1), ty)
        if type(v) is bool: return self.subload(int(v), ss, rel, sz, ty)
        if isinstance(v, z3.ExprRef) and is_bv(v) and rel + sz <= ss:
            return self.coerce_load(z3.Extract(8 * (rel + sz) - 1, 8 * rel, v), ty)
        raise Unsupported("partial load %r %d %d %d" % (v, ss, rel, sz))
    def store(self, st, p, ty, v):
        if ty.k == "named": ty = self.mod.resolve(ty)
        p = self.asptr(p)
        if ty.k == "struct":
            offs = self.mod.offsets(ty)
            for j, (o, e) in enumerate(zip(offs, ty.a)):
                self.store(st, Ptr(p.base, p.rt, p.off + o, p.sym), e, UNDEF if v is UNDEF else v[j])
            return
        if ty.k == "arr":
            s = self.mod.size(ty.b)
            for j in range(ty.a): self.store(st, Ptr(p.base, p.rt, p.off + j*s, p.sym), ty.b, UNDEF if v is UNDEF else v[j])
            return
        if type(p.base) is int and p.base == 0: raise Unsupported("store to null")
        sz = self.mod.size(ty)
        if p.sym:
            sm = self.small_split(st, p)
            if sm is not None:
                for c, q in sm:
                    old = self.load(st, q, ty)
                    if is_false(simplify(bl(c))): continue
                    self.store(st, q, ty, v if (old is UNDEF) else self.ite(c, v, old, 8 * sz))
                return
        if p.isobj() and not p.sym:
            o = st.wobj(p.base)
            if p.off not in o.cells or o.cells[p.off][0] != sz:
                # drop overlapping cells
                for oo in [k for k, c in o.cells.items() if k < p.off + sz and k + c[0] > p.off]:
                    c = o.cells[oo]
                    if oo >= p.off and oo + c[0] <= p.off + sz: del o.cells[oo]
                    elif type(c[1]) is int: # split concrete
                        del o.cells[oo]
                        for b in range(c[0]):
                            if not (p.off <= oo + b < p.off + sz): o.cells[oo + b] = (1, (c[1] >> (8*b)) & 255)
                    else: raise Unsupported("overlapping store")
            o.cells[p.off] = (sz, v)
            if self.trackwrites: st.wlog.add(("c", p.base, p.off, sz))
            return
        if v is UNDEF: v = self.freshty("undef", ty)
        key, idx = self.rkey(p, ty)
        hk = self.defs.get("on_store_value")
        if hk and hk(self, st, key, idx, p.base, v): return
        srt = self.sortof(ty)
        a = self.region_array(st, key, len(idx), srt)
        if ty.k == "ptr":
            if type(v) is Ptr and (v.isobj()):
                v = self.pbv(v)
            elif type(v) is Ptr and (v.off or v.sym): 
                raise Unsupported("interior pointer stored to heap")
            v = bv(self.pbv(v), 64)
        elif ty.k == "int":
            if type(v) is Ptr: v = bv(self.pbv(v), 64)
            v = bv(v, 8 * sz)
        if type(p.base) is int and p.base in self.addrglob and not self.defs.get("globals_writable"):
            st.tags.setdefault("globwrites", []) 
        st.heap[key] = Store(a, *idx, v) if idx else v
        if self.trackwrites: st.wlog.add(("h", key))
        hk = self.defs.get("on_store")
        if hk: hk(self, st, key, idx, v, a)
    def memcpy(self, st, d, s, n):
        d = self.asptr(d); s = self.asptr(s)
        if n == 0: return
        leaves = None
        if s.isobj() and not s.sym and not st.obj(s.base).symbolic:
            o = st.obj(s.base)
            lv = [(off - s.off, c) for off, c in sorted(o.cells.items()) if s.off <= off < s.off + n]
            if d.isobj() and not d.sym:
                w = st.wobj(d.base)
                if d.base == s.base: lv = list(lv)
                for oo in [k for k, c in w.cells.items() if k < d.off + n and k + c[0] > d.off]:
                    c = w.cells[oo]
                    if oo >= d.off and oo + c[0] <= d.off + n: del w.cells[oo]
                    else: raise Unsupported("memcpy overlap")
                for rel, (sz, v) in lv:
                    if rel + sz > n: raise Unsupported("memcpy partial")
                    w.cells[d.off + rel] = (sz, v)
                    if self.trackwrites: st.wlog.add(("c", d.base, d.off + rel, sz))
                return
            # object to heap: use types
            lt = self.typed_leaves(st, s, n) or self.typed_leaves(st, d, n)
            if lt is None: raise Unsupported("memcpy untyped")
            for off, t in lt:
                v = self.load(st, Ptr(s.base, s.rt, s.off + off, s.sym), t)
                self.store(st, Ptr(d.base, d.rt, d.off + off, d.sym), t, v)
            return
        lt = self.typed_leaves(st, d, n) or self.typed_leaves(st, s, n)
        if lt is None: raise Unsupported("memcpy untyped %r %r %d" % (d, s, n))
        vs = [(off, t, self.load(st, Ptr(s.base, self.croot(s, d), s.off + off, s.sym), t)) for off, t in lt]
        for off, t, v in vs:
            self.store(st, Ptr(d.base, self.croot(d, s), d.off + off, d.sym), t, v)
    def croot(self, p, q):
        if p.isobj() or p.rt is not None: return p.rt
        if type(p.base) is int and p.base in self.addrglob:
            g = self.global_init(self.addrglob[p.base])
            if g: return self.rootname(g[1])
        raise Unsupported("memcpy on untyped heap pointer")
    def typed_leaves(self, st, p, n):
        if p.isobj(): t = st.obj(p.base).ty
        elif p.rt is not None and p.rt in self.mod.typesrc: t = self.mod.named(p.rt)
        elif type(p.base) is int and p.base in self.addrglob:
            g = self.global_init(self.addrglob[p.base])
            t = g[1] if g else None
        else: return None
        if t is None: return None
        return self.leaves_in(t, p.off, n)
    def leaves_in(self, t, off, n):
        """scalar leaves of t within [off, off+n), relative to off"""
        r = self.mod.resolve(t)
        try:
            if off == 0 and self.mod.size(r) == n: return self.mod.leaves(r)
            if r.k == "struct":
                offs = self.mod.offsets(r)
                for i, o in enumerate(offs):
                    if o <= off and off + n <= o + self.mod.size(r.a[i]): return self.leaves_in(r.a[i], off - o, n)
                out = []
                for i, o in enumerate(offs):
                    if off <= o < off + n: out += [(o - off + a, b) for a, b in self.mod.leaves(r.a[i])]
                return out
            if r.k == "arr":
                s = self.mod.size(r.b)
                if off % s + n <= s: return self.leaves_in(r.b, off % s, n)
                out = []
                if off % s == 0 and n % s == 0:
                    for j in range(n // s): out += [(j*s + a, b) for a, b in self.mod.leaves(r.b)]
                    return out
        except IRError: return None
        return None
    def memset(self, st, d, val, n):
        d = self.asptr(d)
        if type(val) is not int or type(n) is not int: raise Unsupported("symbolic memset")
        lt = self.typed_leaves(st, d, n)
        if lt is None: 
            if d.isobj() and not d.sym:
                for j in range(0, n, 8): self.store(st, Ptr(d.base, d.rt, d.off + j, ()), INT(8 * min(8, n - j)), int.from_bytes(bytes([val & 255]) * min(8, n - j), "little"))
                return
            raise Unsupported("memset untyped %r %d" % (d, n))
        if val not in (0,): raise Unsupported("memset nonzero")
        for off, t in lt:
            self.store(st, Ptr(d.base, d.rt, d.off + off, d.sym), t, RealVal(0) if t.k == "double" else (False if t.k == "int" and t.a == 1 else 0))

    # ------------------------------------------------------------ ite
    def ite(self, c, a, b, w=64):
        if c is True: return a
        if c is False: return b
        if same(a, b): return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        if is_true(c): return a
        if is_false(c): return b
        if type(a) is tuple: return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if type(a) is Ptr or type(b) is Ptr:
            pa, pb = self.asptr(a), self.asptr(b)
            if not pa.isobj() and not pb.isobj() and not pa.sym and not pb.sym and pa.off == 0 and pb.off == 0:
                r = If(c, bv(pa.base, 64), bv(pb.base, 64))
                return r
            if pa.isobj() and pb.isobj() and pa.base == pb.base and pa.off == pb.off and len(pa.sym) == len(pb.sym) and all(x[0] == y[0] for x, y in zip(pa.sym, pb.sym)):
                return Ptr(pa.base, pa.rt, pa.off, tuple((x[0], self.ite(c, x[1], y[1])) for x, y in zip(pa.sym, pb.sym)))
            if (not pa.isobj()) and (not pb.isobj()) and pa.off == pb.off and pa.rt == pb.rt and len(pa.sym) == len(pb.sym) and all(x[0] == y[0] for x, y in zip(pa.sym, pb.sym)):
                return Ptr(If(c, bv(pa.base, 64), bv(pb.base, 64)), pa.rt, pa.off, tuple((x[0], self.ite(c, x[1], y[1])) for x, y in zip(pa.sym, pb.sym)))
            raise MergeFail()
        if type(a) is bool or type(b) is bool or (isinstance(a, z3.ExprRef) and is_bool(a)) or (isinstance(b, z3.ExprRef) and is_bool(b)):
            return If(c, bl(a), bl(b))
        if type(a) is int and type(b) is int: 
            return If(c, BitVecVal(a, w), BitVecVal(b, w))
        if isinstance(a, z3.BitVecRef): return If(c, a, bv(b, a.size()))
        if isinstance(b, z3.BitVecRef): return If(c, bv(a, b.size()), b)
        if isreal(a) and isreal(b): return If(c, a, b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return If(c, a, b)
        raise MergeFail()

    # ------------------------------------------------------------ feasibility
    def known(self, st, c):
        """True/False if the condition is syntactically known, else None"""
        if type(c) is bool: return c
        if is_true(c): return True
        if is_false(c): return False
        if c.get_id() in st.pcids: return True
        n = Not(c) if not z3.is_not(c) else c.children()[0]
        if n.get_id() in st.pcids: return False
        s = simplify(c)
        if is_true(s): return True
        if is_false(s): return False
        return None
    def feas_solver(self, st, timeout=None):
        s = z3.Solver(); s.set("timeout", timeout or self.feas_timeout)
        go = self.defs.get("feas_ground"); light = self.defs.get("feas_light")
        ref, sol, put = s.ctx.ref(), s.solver, z3.Z3_solver_assert
        for l in (self.axioms, st.pc):
            for a in l:
                if go and hasquant(a): continue
                if light and hasreal(a): continue
                put(ref, sol, bl(a).as_ast())
        return s
    def feasible(self, st, c, timeout=None):
        """False only if pc /\\ c is unsatisfiable"""
        t0 = time.time()
        s = self.feas_solver(st, timeout)
        s.add(bl(c))
        r = s.check()
        self.stats["feas"] += 1; self.stats["feas_t"] += time.time() - t0
        return r != z3.unsat
    def feasible2(self, st, c):
        """feasibility of c and of its negation"""
        t0 = time.time()
        s = self.feas_solver(st)
        s.push(); s.add(bl(c)); fa = s.check() != z3.unsat; s.pop()
        fb = True
        if fa: s.add(Not(bl(c))); fb = s.check() != z3.unsat
        self.stats["feas"] += 2; self.stats["feas_t"] += time.time() - t0
        return fa, fb
    def must(self, st, c, timeout=1500):
        return not self.feasible(st, Not(bl(c)), timeout)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, loc=None, kind="post"):
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                if isinstance(g, tuple): self.oblige(st, name + "." + g[0], g[1], loc, kind)
                else: self.oblige(st, "%s.%d" % (name, i), g, loc, kind)
            return
        goal = bl(goal)
        if loc is None: loc = self.curloc(st)
        o = Obligation(name, list(st.pc), goal, loc, kind)
        o.br = list(st.br); o.rewrite = self.defs.get("rewrite", False)
        self.obls.append(o)
    def curloc(self, st):
        for f in reversed(st.frames):
            if f.dbg:
                l = self.mod.loc(f.dbg)
                if "/include/dd/" in l or l.startswith("/repo") or "verif" in l: return l
        return "?"

    # ------------------------------------------------------------ running
    def find(self, pred):
        if isinstance(pred, str):
            r = [f for f in self.mod.funcs.values() if f.dem == pred]
        else: r = [f for f in self.mod.funcs.values() if pred(f.dem)]
        if len(r) != 1: raise Unsupported("function lookup: %s -> %d candidates" % (pred, len(r)))
        return r[0]
    def push(self, st, fn, args, retreg=None, onret=None):
        fn.parse()
        f = Frame()
        f.fn = fn; f.blk = fn.blocks[0]; f.ip = 0; f.regs = {}; f.prev = None; f.iters = {}; f.retreg = retreg; f.retcont = None
        par = st.frames[-1] if st.frames else None
        f.id = (par.id + "/" if par else "") + "%s:%s.%d" % (fn.name[-40:], par.blk.name if par else "", par.ip if par else 0)
        f.cuts = frozenset(); f.tested = set(); f.onret = onret; f.dbg = None
        for (t, n), a in zip(fn.params, args): f.regs[n] = a
        st.frames.append(f)
        self.enter_block(st, f.blk.name, None)
    def enter_block(self, st, name, prev):
        f = st.frames[-1]
        b = f.fn.bmap[name]
        name = b.name
        f.prev = prev; f.blk = b; f.ip = 0
        pos, loops, nest = f.fn.wto()
        if name in loops:
            if prev is not None and f.fn.bmap[prev].name in loops[name]: f.iters[name] = f.iters.get(name, 0) + 1
            else: f.iters[name] = 0
            f.tested.discard(name)
    def key(self, st):
        k = []
        for f in st.frames:
            pos, loops, nest = f.fn.wto()
            p = pos[f.blk.name]; n = nest[f.blk.name]
            q = []
            for i, x in enumerate(p):
                q.append(x)
                if i < len(n): q.append(f.iters.get(n[i], 0))
            k.append(tuple(q)); k.append(f.ip)
        return tuple(k)

    def new_object(self, st, name, ty, symbolic=False, size=None):
        oid = ("o", name)
        st.mem[oid] = Obj(name, ty, symbolic, size); st.owned.add(oid)
        return Ptr(oid)

    def explore(self, states, stop=None):
        """run until every state hits an outcome or the stop predicate; returns stopped states"""
        stopped = []
        if not self.merge:
            work = list(states)
            while work:
                st = work.pop()
                self.runone(st, work, stop, stopped)
            return stopped
        heap = []; tick = itertools.count()
        groups = {}
        def add(s):
            k = self.key(s)
            g = groups.get(k)
            if g is None: groups[k] = [s]; heapq.heappush(heap, k)
            else: g.append(s)
        for s in states: add(s)
        while heap:
            k = heapq.heappop(heap)
            g = groups.pop(k)
            g = self.mergegroup(g)
            for st in g:
                work = []
                self.runone(st, work, stop, stopped, one=True)
                for w in work: add(w)
        return stopped
    def mergegroup(self, g):
        out = []
        for s in g:
            for i, t in enumerate(out):
                m = self.trymerge(t, s)
                if m is not None: out[i] = m; break
            else: out.append(s)
        return out
    def trymerge(self, a, b):
        if len(a.frames) != len(b.frames): return None
        if a.tags != b.tags: return None
        for f, g in zip(a.frames, b.frames):
            if f.fn is not g.fn or f.blk is not g.blk or f.ip != g.ip or f.cuts != g.cuts or f.id != g.id: return None
        # split common pc prefix
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]): n += 1
        nb = 0
        while nb < len(a.br) and nb < len(b.br) and a.br[nb].eq(b.br[nb]): nb += 1
        ca = land(*a.br[nb:]); cb = land(*b.br[nb:])
        if is_true(ca) or is_true(cb): return None
        if self.merge != "full":
            for k in set(a.heap) | set(b.heap):
                x, y = a.heap.get(k), b.heap.get(k)
                if x is None or y is None:
                    h = x if x is not None else y
                    if not (z3.is_const(h) and h.decl().kind() == z3.Z3_OP_UNINTERPRETED and h.decl().name().startswith("H_")): return None
                elif not x.eq(y): return None
            for k in set(a.ghost) | set(b.ghost):
                if k not in a.ghost or k not in b.ghost or not same(a.ghost[k], b.ghost[k]): return None
            if self.merge == "pure":
                # only merge the returns of functions without effects on outer memory
                for o in set(a.mem) & set(b.mem):
                    if a.mem[o] is b.mem[o]: continue
                    ca_, cb_ = a.mem[o].cells, b.mem[o].cells
                    if set(ca_) != set(cb_) or any(not same(ca_[k][1], cb_[k][1]) for k in ca_): return None
        try:
            s = a.copy()
            for f, x, y in zip(s.frames, a.frames, b.frames):
                f.regs = {}
                for r in x.regs:
                    if r in y.regs:
                        try: f.regs[r] = self.ite(ca, x.regs[r], y.regs[r], self.regwidth(f.fn, r))
                        except MergeFail:
                            if self.reg_dead(f, r): continue
                            raise
                f.iters = {k: max(x.iters.get(k, 0), y.iters.get(k, 0)) for k in set(x.iters) | set(y.iters)}
                f.tested = x.tested & y.tested
            s.mem = {}
            for o in a.mem:
                if o not in b.mem: continue
                x, y = a.mem[o], b.mem[o]
                if x is y: s.mem[o] = x; continue
                z = x.clone(); z.cells = {}
                for off in set(x.cells) | set(y.cells):
                    c, d = x.cells.get(off), y.cells.get(off)
                    if c is None or d is None:
                        if x.symbolic:
                            have = c or d
                            if x.symbolic is not True: raise MergeFail()
                            # untouched side still holds its initial value
                            v = have[1]
                            ini = Const("%s@%d:%s" % (x.name, off, self._tyname(v, have[0])), v.sort() if isinstance(v, z3.ExprRef) else P64)
                            z.cells[off] = (have[0], self.ite(ca, c[1] if c else ini, d[1] if d else ini))
                        # alloca: uninitialised on one side: value unusable unless same later; keep defined side (undef may be anything)
                        else: z.cells[off] = c or d
                        continue
                    if c[0] != d[0]: raise MergeFail()
                    try: z.cells[off] = (c[0], self.ite(ca, c[1], d[1], 8 * c[0]))
                    except MergeFail:
                        raise
                s.mem[o] = z
            s.heap = {}
            for k in set(a.heap) | set(b.heap):
                x, y = a.heap.get(k), b.heap.get(k)
                if x is None or y is None:
                    h = x if x is not None else y
                    nm = "H_" + "_".join(str(q) for q in k)
                    ini = Const(nm, h.sort())
                    x = ini if x is None else x; y = ini if y is None else y
                s.heap[k] = self.ite(ca, x, y)
            s.ghost = {}
            for k in set(a.ghost) | set(b.ghost):
                if k not in a.ghost or k not in b.ghost: raise MergeFail()
                s.ghost[k] = self.ite(ca, a.ghost[k], b.ghost[k])
            bra = {c.get_id() for c in a.br[nb:]}; brb = {c.get_id() for c in b.br[nb:]}
            s.pc = list(a.pc[:n]); s.pcids = {}
            for c in s.pc:
                s.pcids[c.get_id()] = c
                if z3.is_and(c):
                    for x in c.children(): s.pcids.setdefault(x.get_id(), x)
            s.br = list(a.br[:nb])
            bids = {c.get_id() for c in b.pc[n:]}
            common = set()
            for c in a.pc[n:]:
                if c.get_id() in bids and c.get_id() not in bra: s.assume(c); common.add(c.get_id())
            for c in a.pc[n:]:
                if c.get_id() in bra or c.get_id() in common: continue
                s.assume(Implies(ca, c))
            for c in b.pc[n:]:
                if c.get_id() in brb or c.get_id() in common: continue
                s.assume(Implies(cb, c))
            d = simplify(Or(ca, cb))
            if not is_true(d): s.assume(d, branch=True)
            s.wlog = a.wlog | b.wlog
            return s
        except MergeFail:
            return None
    def _tyname(self, v, sz):
        if isreal(v): return "double"
        return "i%d" % (8 * sz) if sz < 8 else "ptr"
    def regwidth(self, fn, r):
        m = getattr(fn, "_regw", None)
        if m is None:
            m = fn._regw = {}
            for t, n in fn.params: m[n] = t
            for b in fn.blocks:
                for i in b.ins:
                    if i.res is not None: m[i.res] = i.ty
        t = m.get(r)
        return t.a if t is not None and t.k == "int" else 64
    def reg_dead(self, f, r):
        return False

    def runone(self, st, work, stop, stopped, one=False):
        """run st until it forks / finishes"""
        first = True
        while True:
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget of the symbolic execution exhausted")
            if not st.frames: return
            f = st.frames[-1]
            if f.ip == 0:
                # block entry
                if stop is not None and stop(st): stopped.append(st); return
                r = self.maybe_loop(st, work, stop, stopped)
                if r: return
            ins = f.blk.ins
            nxt = None
            try:
                while True:
                    i = ins[f.ip]
                    if i.dbg: f.dbg = i.dbg
                    self.stats["instr"] += 1
                    nxt = self.step(st, f, i)
                    if nxt is not None: break
                    f.ip += 1
            except NeedCut:
                raise
            if nxt == "go": 
                # control transfer in same state
                if self.merge and st.frames and st.frames[-1].ip == 0 and not (len(st.frames[-1].fn.blocks) == 1):
                    work.append(st); return
                continue
            if nxt == "end": return
            # list of states
            for s in nxt: work.append(s)
            return

    # ------------------------------------------------------------ loops
    def maybe_loop(self, st, work, stop, stopped):
        f = st.frames[-1]
        pos, loops, nest = f.fn.wto()
        h = f.blk.name
        if h not in loops or h in f.cuts: return False
        it = f.iters.get(h, 0)
        lk = (f.fn.name, h)
        spec = None
        if it == 0:
            if self.loopspec: spec = self.loopspec(self, st, f.fn, h, loops[h])
            if spec is not None and not spec.tentative:
                self.cut_loop(st, spec, work, stop, stopped)
                return True
            if spec is not None: st.tags = dict(st.tags)
        if it > self.MAXUNROLL: raise Unsupported("unrolling limit in %s" % f.fn.dem)
        return False

    def cut_loop(self, st, spec, work, stop, stopped):
        f = st.frames[-1]; depth = len(st.frames)
        pos, loops, nest = f.fn.wto()
        h = f.blk.name; body = loops[h]
        fid = f.id
        self.stats["loops_cut"].add((f.fn.dem, h))
        spec.prepare(self, st, f, h)
        # entry obligations
        entry = st
        cands = spec.candidates(self, entry)      # list of Inv(name, fn, required)
        saved_obls = self.obls
        live = []
        for c in cands:
            if c.required: live.append(c)
            else:
                try: g = c.fn(entry)
                except (MergeFail, KeyError, Unsupported): continue
                if self.quickprove(entry, g, focus=c.focus): live.append(c)
                elif os.environ.get("DDV_HOU"): print("houdini: not at entry", c.name, spec.name)
        modset = set(spec.modset0)
        def stopper(s):
            if len(s.frames) < depth: return True
            if len(s.frames) == depth:
                fr = s.frames[-1]
                if fr.id != fid: return True
                if fr.blk.name not in body: return True
                if fr.blk.name == h and fr.prev is not None: return True
            return False
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60: raise Unsupported("loop invariant search does not stabilise")
            self.obls = []
            save_out = self.outcomes; self.outcomes = []
            hs = entry.copy()
            hs.wlog = set()
            self.havoc(hs, modset, spec)
            for c in live:
                try: hs.assume(c.fn(hs))
                except Exception as e:
                    if c.required: raise
            spec.at_header(self, hs)
            snap = hs.copy()
            hs.frames[-1].cuts = hs.frames[-1].cuts | {h}
            hs.frames[-1].prev = None
            stops = self.explore([hs], stopper)
            outs = self.outcomes; self.outcomes = save_out
            w = set()
            for s in stops: w |= s.wlog
            for o in outs: w |= o.state.wlog
            w = {x for x in w if self.live_before(entry, x, f)}
            new = {x for x in w if x not in modset}
            if new:
                modset |= new; self.obls = saved_obls; continue
            back = [s for s in stops if len(s.frames) == depth and s.frames[-1].id == fid and s.frames[-1].blk.name == h]
            exits = [s for s in stops if s not in back]
            bad = []
            for c in live:
                if c.required: continue
                for s in back:
                    try: g = c.fn(s)
                    except (MergeFail, Unsupported): bad.append(c); break
                    if not self.quickprove(s, g, focus=c.focus):
                        if os.environ.get("DDV_HOU"): print("houdini: dropped", c.name, "rounds", rounds, spec.name)
                        bad.append(c); break
            if bad:
                live = [c for c in live if c not in bad]
                self.obls = saved_obls; continue
            break
        inner = self.obls
        self.obls = saved_obls
        for c in live:
            if c.required: self.oblige(entry, "loop-entry:%s:%s" % (spec.name, c.name), c.fn(entry), kind="inv-entry")
        self.obls += inner
        for c in live:
            for s in back:
                if c.required:
                    self.oblige(s, "loop-preserve:%s:%s" % (spec.name, c.name), c.fn(s), kind="inv")
                    if c.focus: self.obls[-1].focus = c.focus
        dec = spec.variant
        if dec is not None:
            for s in back:
                self.oblige(s, "loop-terminates:%s" % spec.name, dec(snap, s), kind="variant")
        spec.kept = [c.name for c in live]
        self.stats.setdefault("invariants", {})["%s@%s" % (spec.name, h)] = spec.kept
        for s in exits:
            s.wlog |= entry.wlog | modset
            if len(s.frames) >= depth:
                fr = s.frames[depth - 1]; fr.cuts = fr.cuts - {h}
            if stop is not None and stop(s): stopped.append(s)
            else: work.append(s)
        for o in outs:
            o.state.wlog |= entry.wlog | modset
            self.outcomes.append(o)
    def live_before(self, entry, w, f):
        """is this written location visible at the loop header (not a fresh alloca of the body)?"""
        if w[0] != "c": return True
        oid = w[1]
        if oid not in entry.mem: return False
        return True
    def havoc(self, st, modset, spec):
        for w in sorted(modset, key=str):
            if w[0] == "c":
                _, oid, off, sz = w
                o = st.mem.get(oid)
                if o is None: continue
                c = o.cells.get(off)
                if c is None:
                    if o.symbolic:
                        continue_ = False
                        # materialise initial value lazily is impossible without a type: mark as fresh by size
                        v = self.fresh("hv_%s_%d" % (o.name[-20:], off), BitVecSort(8 * sz))
                        st.wobj(oid).cells[off] = (sz, v)
                    continue
                nv = self.havoc_value(c[1], sz, "%s_%d" % (o.name.split("/")[-1][-24:], off))
                st.wobj(oid).cells[off] = (sz, nv)
            elif w[0] == "h":
                a = st.heap.get(w[1])
                if a is None: continue
                st.heap[w[1]] = self.fresh("hv_" + "_".join(str(x) for x in w[1]), a.sort())
            elif w[0] == "g":
                a = st.ghost.get(w[1])
                if a is not None: st.ghost[w[1]] = self.fresh("hv_" + w[1], a.sort())
    def havoc_value(self, v, sz, name):
        if v is UNDEF: return UNDEF
        if type(v) is bool or (isinstance(v, z3.ExprRef) and is_bool(v)): return self.fresh("hv_" + name, z3.BoolSort())
        if type(v) is int or (isinstance(v, z3.ExprRef) and is_bv(v)): return self.fresh("hv_" + name, BitVecSort(8 * sz))
        if isinstance(v, z3.ExprRef): return self.fresh("hv_" + name, v.sort())
        if type(v) is Ptr:
            if v.sym:
                return Ptr(v.base, v.rt, v.off, v.sym[:-1] + ((v.sym[-1][0], self.fresh("hv_" + name, P64)),))
            if not v.isobj() and v.off == 0: return self.fresh("hv_" + name, P64)
            raise Unsupported("havoc of structured pointer %r" % v)
        raise Unsupported("havoc of %r" % (v,))
    def quickprove(self, st, g, timeout=3000, focus=None):
        if isinstance(g, (list, tuple)): return all(self.quickprove(st, x) for x in g)
        g = bl(g)
        k = self.known(st, g)
        if k is not None: return k
        s = z3.Solver(); s.set("timeout", timeout)
        if focus is not None:
            from . import inst
            from .solver import focused
            t0 = time.time()
            r = inst.prove(focused(self.axioms + st.pc, focus), g, timeout)
            self.stats["hou"] = self.stats.get("hou", 0) + 1; self.stats["hou_t"] = self.stats.get("hou_t", 0) + time.time() - t0
            return r
        for a in self.axioms: s.add(a)
        for a in st.pc: s.add(a)
        s.add(Not(g))
        t0 = time.time()
        if self.defs.get("feas_ground"):
            s.set("timeout", 300)
            r = s.check()
            if r == z3.unknown:
                from . import inst
                r = z3.unsat if inst.prove(self.axioms + st.pc, g, timeout) else r
        else: r = s.check()
        self.stats["hou"] = self.stats.get("hou", 0) + 1; self.stats["hou_t"] = self.stats.get("hou_t", 0) + time.time() - t0
        return r == z3.unsat

    # ------------------------------------------------------------ branch
    def branch(self, st, c, ta, tb):
        """returns next-states for br c ? ta : tb"""
        f = st.frames[-1]; src = f.blk.name
        k = self.known(st, c) if not isinstance(c, bool) else c
        pos, loops, nest = f.fn.wto()
        if k is None:
            for h in nest[src]:
                body = loops[h]
                ea = f.fn.bmap[ta].name not in body; eb = f.fn.bmap[tb].name not in body
                if ea != eb and h not in f.tested and h not in f.cuts:
                    pass
            fa, fb = self.feasible2(st, c) if self.defs.get("feas_light") else (self.feasible(st, c), True)
            if fa and not self.defs.get("feas_light"): fb = self.feasible(st, Not(c))
            if fa and not fb: k = True
            elif fb and not fa: k = False
        if k is not None:
            if not isinstance(c, bool): st.assume(c if k else Not(c))
            self.goto(st, ta if k else tb)
            return "go"
        self.stats["forks"] += 1
        s2 = st.copy()
        st.assume(c, branch=True); self.goto(st, ta)
        s2.assume(Not(c), branch=True); self.goto(s2, tb)
        return [s2, st]
    def goto(self, st, target):
        f = st.frames[-1]
        src = f.blk.name
        b = f.fn.bmap[target]
        # phis
        vals = []
        for i in b.ins:
            if i.op != "phi": break
            for v, pb in i.a["inc"]:
                if f.fn.bmap[pb].name == src:
                    vals.append((i.res, self.val(st, i.ty, v))); break
            else: raise Unsupported("phi")
        for r, v in vals: f.regs[r] = v
        self.enter_block(st, target, src)

    # ------------------------------------------------------------ instructions
    def step(self, st, f, i):
        op = i.op
        if op == "load":
            v = self.load(st, self.val(st, PTR, i.a["p"]), i.ty)
            if type(v) is not tuple and v is not UNDEF and i.ty.k == "double" and not isreal(v): v = RealVal(v)
            f.regs[i.res] = v
            return None
        if op == "store":
            v = self.val(st, i.ty, i.a["v"])
            self.store(st, self.val(st, PTR, i.a["p"]), i.ty, v)
            return None
        if op == "alloca":
            name = f.id + "#" + i.res
            # distinct object per dynamic instance in unrolled loops is not needed (allocas are in entry)
            oid = ("o", name)
            if i.a["n"] is not None: raise Unsupported("dynamic alloca")
            st.mem[oid] = Obj(name, i.ty, False, self.mod.size(i.ty) if i.ty.k != "named" or self.mod.typesrc.get(i.ty.a) != "opaque" else 0, (f.fn.name, i.res))
            st.owned.add(oid)
            f.regs[i.res] = Ptr(oid)
            return None
        if op == "getelementptr":
            f.regs[i.res] = self.gep(st, i.a["st"], self.val(st, PTR, i.a["p"]), [(t, self.val(st, t, v)) for t, v in i.a["idx"]])
            return None
        if op == "br":
            if i.a["c"] is None:
                self.goto(st, i.a["targets"][0]); return "go"
            c = self.val(st, INT(1), i.a["c"])
            if c is UNDEF: raise Unsupported("branch on undef")
            return self.branch(st, c, *i.a["targets"])
        if op == "call" or op == "invoke":
            return self.call(st, f, i)
        if op == "ret":
            v = None if i.a["v"] is None else self.val(st, i.ty, i.a["v"])
            return self.do_ret(st, v)
        if op in ("icmp", "fcmp"):
            f.regs[i.res] = self.cmp(st, op, i.a["pred"], i.a["t"], self.val(st, i.a["t"], i.a["x"]), self.val(st, i.a["t"], i.a["y"]))
            return None
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            f.regs[i.res] = self.iop(st, op, i.ty, self.val(st, i.ty, i.a["x"]), self.val(st, i.ty, i.a["y"]), i.a["fl"])
            return None
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            x, y = self.val(st, i.ty, i.a["x"]), self.val(st, i.ty, i.a["y"])
            f.regs[i.res] = self.fop(st, op, x, y)
            return None
        if op == "fneg":
            x = self.val(st, i.ty, i.a["x"]); f.regs[i.res] = UNDEF if x is UNDEF else rneg(x); return None
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "bitcast", "fpext", "fptrunc", "freeze"):
            f.regs[i.res] = self.cast(st, op, i.a.get("t"), i.ty, self.val(st, i.a.get("t") or i.ty, i.a["x"]))
            return None
        if op == "phi": return None
        if op == "select":
            c = self.val(st, INT(1), i.a["c"])
            if self.defs.get("fork_select") and not isinstance(c, bool) and c is not UNDEF:
                k = self.known(st, c)
                x, y = self.val(st, i.ty, i.a["x"]), self.val(st, i.ty, i.a["y"])
                if k is not None: f.regs[i.res] = x if k else y; return None
                self.stats["forks"] += 1
                s2 = st.copy(); f2 = s2.frames[-1]
                st.assume(c, branch=True); f.regs[i.res] = x; f.ip += 1
                s2.assume(Not(c), branch=True); f2.regs[i.res] = y; f2.ip += 1
                return [s2, st]
            f.regs[i.res] = self.ite(c, self.val(st, i.ty, i.a["x"]), self.val(st, i.ty, i.a["y"]), i.ty.a if i.ty.k == "int" else 64); return None
        if op == "extractvalue":
            v = self.val(st, i.ty, i.a["v"])
            for j in i.a["i"]: v = UNDEF if v is UNDEF else v[j]
            f.regs[i.res] = v; return None
        if op == "insertvalue":
            v = self.val(st, i.ty, i.a["v"]); e = self.val(st, i.ty, i.a["e"])
            def ins(v, path, ty):
                r = self.mod.resolve(ty)
                n = len(r.a) if r.k == "struct" else r.a
                l = [UNDEF] * n if v is UNDEF else list(v)
                if len(path) == 1: l[path[0]] = e
                else: l[path[0]] = ins(l[path[0]], path[1:], r.a[path[0]] if r.k == "struct" else r.b)
                return tuple(l)
            f.regs[i.res] = ins(v, i.a["i"], i.ty); return None
        if op == "switch":
            v = self.val(st, i.a["t"], i.a["v"])
            w = i.a["t"].a
            if type(v) is int:
                for c, t in i.a["cases"]:
                    if c == v: self.goto(st, t); return "go"
                self.goto(st, i.a["default"]); return "go"
            out = []; rest = st
            for c, t in i.a["cases"]:
                cond = v == BitVecVal(c, w)
                if self.feasible(rest, cond):
                    s2 = rest.copy(); s2.assume(cond, branch=True); self.goto(s2, t); out.append(s2)
                rest.assume(Not(cond), branch=True)
            if self.feasible(rest, BoolVal(True)):
                self.goto(rest, i.a["default"]); out.append(rest)
            return out
        if op == "unreachable":
            # reached only after noreturn calls handled elsewhere, or undefined behaviour
            self.outcomes.append(Outcome("unreachable", st)); return "end"
        if op == "asm": 
            return None
        raise Unsupported("instruction " + i.text.strip())

    def do_ret(self, st, v):
        f = st.frames.pop()
        pre = f.id + "#"
        # allocas of the frame die
        for i in f.fn.blocks[0].ins:
            if i.op != "alloca": continue
            st.mem.pop(("o", pre + i.res), None)
        if f.onret:
            v = f.onret(self, st, v)
        if not st.frames or f.retcont == "stop":
            self.outcomes.append(Outcome("ret", st, v)); return "end"
        g = st.frames[-1]
        i = g.blk.ins[g.ip]
        return self.finish_call(st, g, i, v)
    def finish_call(self, st, g, i, v):
        if i.res is not None: g.regs[i.res] = v
        if i.op == "invoke":
            self.goto(st, i.a["normal"]); return "go"
        g.ip += 1
        return "go" if True else None

    def throw(self, st, what):
        self.outcomes.append(Outcome("throw", st, None, what))
        return "end"

    # ------------------------------------------------------------ calls
    def call(self, st, f, i):
        fv = i.a["f"]
        if fv[0] == "reg":
            t = f.regs.get(fv[1])
            if type(t) is FnPtr: name = t.name
            else:
                h = self.defs.get("indirect_call")
                if h:
                    r = h(self, st, i, t)
                    if r is not None: return self.after_contract(st, f, i, r)
                raise Unsupported("indirect call in " + f.fn.dem)
        elif fv[0] == "glob": name = fv[1]
        else: raise Unsupported("call " + i.text)
        args = [self.val(st, t, v) for t, v in i.a["args"]]
        if name.startswith("llvm."):
            r = self.intrinsic(st, name, args, i)
            if type(r) is str: return "end"
            if i.res is not None: f.regs[i.res] = r
            if i.op == "invoke": self.goto(st, i.a["normal"]); return "go"
            return None
        dem = self.mod.dem.get(name, name)
        h = self.lookup_contract(name, dem)
        if h is not None:
            self.stats["contracted"].add(dem)
            r = h(self, st, args, i)
            return self.after_contract(st, f, i, r)
        fn = self.mod.funcs.get(name)
        if fn is None:
            from .builtins import builtin
            b = builtin(self, st, name, dem, args, i)
            if b is not None:
                self.stats["external"].add(dem)
                return self.after_contract(st, f, i, b)
            raise Unsupported("external function without contract: " + dem)
        from .builtins import override
        b = override(self, st, name, dem, args, i)
        if b is not None:
            self.stats["external"].add(dem)
            return self.after_contract(st, f, i, b)
        for g in st.frames:
            if g.fn is fn: raise Unsupported("recursive call without contract: " + dem)
        if len(st.frames) > 60: raise Unsupported("inlining too deep")
        self.stats["inlined"].add(dem)
        self.push(st, fn, args)
        return "go"
    def after_contract(self, st, f, i, r):
        """r: ('val', v) same state | ('end',) | ('multi', [(state, value)]) | ('states', ...)"""
        k = r[0]
        if k == "val":
            x = self.finish_call(st, f, i, r[1])
            return x
        if k == "end": return "end"
        if k == "multi":
            out = []
            for s, v in r[1]:
                g = s.frames[-1]
                x = self.finish_call(s, g, g.blk.ins[g.ip], v)
                out.append(s)
            return out
        if k == "inline":
            self.stats["inlined"].add(r[1].dem)
            self.push(st, r[1], r[2], onret=r[3] if len(r) > 3 else None)
            return "go"
        raise Unsupported("contract result")
    def lookup_contract(self, name, dem):
        if name in self.cmap: return self.cmap[name]
        h = None
        for m, handler in self.contracts:
            if (m == dem) if isinstance(m, str) else m(dem): h = handler; break
        self.cmap[name] = h
        return h

    def intrinsic(self, st, name, a, i):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            if type(a[2]) is not int: raise Unsupported("symbolic memcpy")
            self.memcpy(st, a[0], a[1], a[2]); return None
        if name.startswith("llvm.memset"):
            self.memset(st, a[0], a[1], a[2]); return None
        if name.startswith("llvm.fmuladd"): return self.fop(st, "fadd", self.fop(st, "fmul", a[0], a[1]), a[2])
        if name.startswith("llvm.fabs"): return rabs(a[0])
        if name.startswith("llvm.is.constant"): return False
        if name.startswith("llvm.trap"):
            self.outcomes.append(Outcome("trap", st)); return "end"
        if name.startswith("llvm.va"): return None
        if name.startswith("llvm.umax") or name.startswith("llvm.umin"):
            raise Unsupported(name)
        h = self.defs.get("fpfun")
        for k in ("nearbyint", "ceil", "floor", "round", "sqrt"):
            if name.startswith("llvm." + k):
                from . import builtins
                return builtins.fpround(self, st, k, a[0])
        raise Unsupported("intrinsic " + name)

    # ------------------------------------------------------------ operators
    def cmp(self, st, op, pred, t, x, y):
        if x is UNDEF or y is UNDEF:
            return self.fresh("undefcmp", z3.BoolSort())
        if op == "fcmp":
            if pred in ("ord",): return True
            if pred in ("uno",): return False
            p = pred[1:]
            r = {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y}[p]()
            s = r if isinstance(r, bool) else simplify(r) if (z3.is_rational_value(x) and z3.is_rational_value(y)) else r
            if isinstance(s, z3.ExprRef):
                if is_true(s): return True
                if is_false(s): return False
            return s
        if t.k == "ptr":
            return self.pcmp(pred, x, y)
        w = t.a
        if type(x) is Ptr or type(y) is Ptr: return self.pcmp(pred, x, y)
        if w == 1:
            if pred == "eq": return z3.simplify(bl(x) == bl(y)) if not (type(x) is bool and type(y) is bool) else x == y
            if pred == "ne": return z3.simplify(bl(x) != bl(y)) if not (type(x) is bool and type(y) is bool) else x != y
            raise Unsupported("icmp i1 " + pred)
        if type(x) is bool: x = int(x)
        if type(y) is bool: y = int(y)
        if type(x) is int and type(y) is int:
            if pred[0] == "s": x, y = sgn(x, w), sgn(y, w)
            return {"eq": x == y, "ne": x != y}.get(pred) if pred in ("eq", "ne") else {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[1:]]
        # comparison of zext(bool) with constant
        if isinstance(x, z3.ExprRef) and type(y) is int and z3.is_app_of(x, z3.Z3_OP_ITE) and pred in ("eq", "ne"):
            c, a, b = x.children()
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                ea, eb = a.as_long() == y, b.as_long() == y
                r = c if ea and not eb else (Not(c) if eb and not ea else (ea and eb))
                if pred == "ne": r = (not r) if isinstance(r, bool) else (r.children()[0] if z3.is_not(r) else Not(r))
                return r
        x, y = bv(x, w), bv(y, w)
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "sgt": lambda: x > y, "sge": lambda: x >= y, "slt": lambda: x < y, "sle": lambda: x <= y}[pred]()
        return r
    def pcmp(self, pred, x, y):
        if type(x) is FnPtr or type(y) is FnPtr:
            if type(x) is FnPtr and type(y) is FnPtr: e = x.name == y.name
            else: e = False
            return e if pred == "eq" else not e
        if type(x) is Ptr and type(y) is Ptr:
            e = None
            if x.isobj() and y.isobj():
                if x.base != y.base: e = False
                elif len(x.sym) == len(y.sym) and all(a[0] == b[0] for a, b in zip(x.sym, y.sym)) and x.off == y.off:
                    if pred in ("eq", "ne"):
                        e = land(*[bv(a[1], 64) == bv(b[1], 64) for a, b in zip(x.sym, y.sym)]) if x.sym else True
                    elif len(x.sym) == 1: return self.cmp(None, "icmp", pred, INT(64), x.sym[0][1], y.sym[0][1])
                elif len(x.sym) + len(y.sym) == 1 and pred in ("eq", "ne") and (x.off - y.off) % (x.sym or y.sym)[0][0] == 0:
                    (w, n), d = (x.sym or y.sym)[0], (y.off - x.off if x.sym else x.off - y.off)
                    e = bv(n, 64) == BitVecVal((d // w) % (1 << 64), 64)      # element addresses within one object do not wrap around
                elif not x.sym and not y.sym:
                    if pred in ("eq", "ne"): e = x.off == y.off
                    else: return self.cmp(None, "icmp", pred, INT(64), x.off, y.off)
            elif x.isobj() != y.isobj(): e = False if pred in ("eq", "ne") else None
            elif x.sym and y.sym and same(x.base, y.base) and x.off == y.off and len(x.sym) == len(y.sym) and all(a[0] == b[0] for a, b in zip(x.sym, y.sym)):
                if pred in ("eq", "ne"): e = land(*[bv(a[1], 64) == bv(b[1], 64) for a, b in zip(x.sym, y.sym)])
            elif len(x.sym) + len(y.sym) == 1 and pred in ("eq", "ne") and same(x.base, y.base) and (x.off - y.off) % (x.sym or y.sym)[0][0] == 0:
                (w, n), d = (x.sym or y.sym)[0], (y.off - x.off if x.sym else x.off - y.off)
                e = bv(n, 64) == BitVecVal((d // w) % (1 << 64), 64)          # likewise
            if e is not None:
                if isinstance(e, z3.ExprRef):
                    e = simplify(e)
                    if is_true(e): e = True
                    elif is_false(e): e = False
                if pred == "eq": return e
                if pred == "ne": return (not e) if isinstance(e, bool) else Not(e)
        elif type(x) is Ptr and x.isobj() or type(y) is Ptr and y.isobj():
            if pred == "eq": return False
            if pred == "ne": return True
        nsym = lambda v: len(v.sym) if type(v) is Ptr else 0
        if pred in ("eq", "ne") and nsym(x) + nsym(y) == 1:
            p, q = (x, y) if nsym(x) else (y, x)
            q = self.pbv(q) if type(q) is Ptr else q
            if not p.isobj() and isinstance(q, z3.ExprRef):
                (w, n), d = p.sym[0], simplify(q - bv(p.base, 64) - p.off)
                if z3.is_bv_value(d) and d.as_signed_long() % w == 0:
                    e = simplify(bv(n, 64) == BitVecVal((d.as_signed_long() // w) % (1 << 64), 64))        # likewise
                    e = True if is_true(e) else False if is_false(e) else e
                    return e if pred == "eq" else (not e) if isinstance(e, bool) else Not(e)
        a, b = self.pbv(x), self.pbv(y)
        return self.cmp(None, "icmp", pred, INT(64), a, b)
    def iop(self, st, op, t, x, y, fl):
        w = t.a
        if x is UNDEF or y is UNDEF: return UNDEF
        if w == 1:
            bx, by = bl(x), bl(y)
            if op == "and": return (x and y) if type(x) is bool and type(y) is bool else simplify(And(bx, by))
            if op == "or": return (x or y) if type(x) is bool and type(y) is bool else simplify(Or(bx, by))
            if op == "xor":
                if type(y) is bool: return (Not(x) if y else x) if type(x) is not bool else (x != y)
                return z3.Xor(bx, by)
            raise Unsupported("i1 " + op)
        if type(x) is Ptr or type(y) is Ptr:
            if op == "sub":
                # pointer difference
                if type(x) is Ptr and type(y) is Ptr and x.isobj() == y.isobj() and same(x.base, y.base) if not (type(x) is Ptr and type(y) is Ptr and x.isobj() and y.isobj()) else x.base == y.base:
                    if len(x.sym) == len(y.sym) and all(a[0] == b[0] for a, b in zip(x.sym, y.sym)):
                        d = (x.off - y.off) % (1 << 64)
                        out = d
                        for a, b in zip(x.sym, y.sym):
                            if same(a[1], b[1]): continue
                            out = bv(out, 64) + (bv(a[1], 64) - bv(b[1], 64)) * a[0]
                        return simplify(out) if isinstance(out, z3.ExprRef) else out
            x = self.pbv(x); y = self.pbv(y)
        if type(x) is bool: x = int(x)
        if type(y) is bool: y = int(y)
        M = (1 << w) - 1
        if type(x) is int and type(y) is int:
            if op == "add": return (x + y) & M
            if op == "sub": return (x - y) & M
            if op == "mul": return (x * y) & M
            if op == "and": return x & y
            if op == "or": return x | y
            if op == "xor": return x ^ y
            if op == "shl": return (x << y) & M if y < w else 0
            if op == "lshr": return x >> y if y < w else 0
            if op == "ashr": return (sgn(x, w) >> min(y, w-1)) & M
            if y == 0: raise Unsupported("division by zero")
            if op == "udiv": return x // y
            if op == "urem": return x % y
            sx, sy = sgn(x, w), sgn(y, w)
            q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            if op == "sdiv": return q & M
            if op == "srem": return (sx - q * sy) & M
        if op == "add" and type(y) is int and y == 0: return x
        if op == "sub" and type(y) is int and y == 0: return x
        if op in ("mul",) and type(y) is int and y == 1: return x
        if op == "mul" and type(x) is int and x == 1: return y
        # (i - j) * c / c   (pointer differences)
        if op == "sdiv" and type(y) is int and isinstance(x, z3.ExprRef):
            q = self.exactdiv(x, y, w)
            if q is not None: return q
        hk = self.defs.get("iop")
        if hk:
            r = hk(self, st, op, w, x, y)
            if r is not None: return r
        a, b = bv(x, w), bv(y, w)
        r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b,
             "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
             "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()
        if op in ("and", "or", "xor", "add", "sub", "shl", "lshr"):
            r = simplify(r)
            if z3.is_bv_value(r): return r.as_long()
        return r
    def exactdiv(self, x, y, w):
        k = x.decl().kind()
        if k == z3.Z3_OP_BMUL:
            ch = x.children()
            for n, c in enumerate(ch):
                if z3.is_bv_value(c) and c.as_long() == y and len(ch) == 2: return ch[1 - n]
        return None
    def fop(self, st, op, x, y):
        if x is UNDEF or y is UNDEF: return self.fresh("undef", R)
        if op == "fadd": return rsimp(x + y)
        if op == "fsub": return rsimp(x - y)
        if op == "fmul":
            for a, b in ((x, y), (y, x)):
                if z3.is_rational_value(a):
                    if a.as_fraction() == 0: return RealVal(0)
                    if a.as_fraction() == 1: return b
            return rsimp(x * y)
        if op == "fdiv":
            if z3.is_rational_value(y) and y.as_fraction() != 0: return rsimp(x / y)
            key = ("div", x.get_id(), y.get_id())
            q = self.termcache.get(key)
            if q is None:
                v = self.fresh("quot", R)
                q = (v, x, y); self.termcache[key] = q
            st.assume(Implies(y != 0, q[0] * y == x))
            return q[0]
    def cast(self, st, op, t, ty, x):
        if x is UNDEF: return UNDEF
        if op in ("bitcast", "freeze", "fpext", "fptrunc"): return x
        if op == "zext":
            if t.a == 1:
                if type(x) is bool: return int(x)
                return If(x, BitVecVal(1, ty.a), BitVecVal(0, ty.a))
            if type(x) is int: return x
            if type(x) is bool: return int(x)
            return z3.ZeroExt(ty.a - t.a, x)
        if op == "sext":
            if t.a == 1: return bv(If(bl(x), BitVecVal(-1, ty.a), BitVecVal(0, ty.a)), ty.a)
            if type(x) is int: return sgn(x, t.a) % (1 << ty.a)
            return z3.SignExt(ty.a - t.a, x)
        if op == "trunc":
            if type(x) is Ptr: x = self.pbv(x)
            if type(x) is bool: x = int(x)
            if ty.a == 1:
                if type(x) is int: return bool(x & 1)
                if is_bool(x): return x
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    c, a, b = x.children()
                    if z3.is_bv_value(a) and z3.is_bv_value(b):
                        va, vb = a.as_long() & 1, b.as_long() & 1
                        if va == 1 and vb == 0: return c
                        if va == 0 and vb == 1: return Not(c)
                return z3.Extract(0, 0, x) == 1
            if type(x) is int: return x & ((1 << ty.a) - 1)
            if is_bool(x): return bv(x, ty.a)
            # trunc of extension
            if x.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and x.children()[0].size() == ty.a: return x.children()[0]
            return z3.simplify(z3.Extract(ty.a - 1, 0, x))
        if op == "ptrtoint":
            if type(x) is Ptr and (x.isobj() or x.sym): return x
            return self.pbv(x)
        if op == "inttoptr": return x
        h = self.defs.get("fpcast")
        if h:
            r = h(self, st, op, t, ty, x)
            if r is not None: return r
        if op in ("uitofp", "sitofp"):
            if type(x) is bool: x = int(x)
            if type(x) is int: return RealVal(x if op == "uitofp" else sgn(x, t.a))
            return ToReal(z3.BV2Int(x, is_signed=(op == "sitofp")))
        if op in ("fptosi", "fptoui"):
            if z3.is_rational_value(x):
                fr = x.as_fraction(); n = abs(fr.numerator) // fr.denominator
                return (n if fr >= 0 else -n) % (1 << ty.a)
            from . import builtins
            return builtins.fptoi(self, st, op, ty, x)
        raise Unsupported("cast " + op)

from .solver import hasquant, hasreal
class MergeFail(Exception): pass

def rsimp(x):
    return simplify(x) if all(z3.is_rational_value(c) for c in x.children()) else x
def rneg(x):
    return rsimp(-x)
def rabs(x):
    if z3.is_rational_value(x): return RealVal(str(abs(x.as_fraction())))
    return If(x >= 0, x, -x)

class Inv:
    def __init__(self, name, fn, required=False, focus=None): self.name, self.fn, self.required, self.focus = name, fn, required, focus
class LoopSpec:
    """loop contract: candidates are invariant formulas over the state (required ones become obligations,
    optional ones are kept only if inductive)"""
    tentative = False
    modset0 = ()
    variant = None
    def __init__(self, name, cands): self.name = name; self._c = cands
    def prepare(self, ex, st, f, h): pass
    def candidates(self, ex, st): return self._c(ex, st) if callable(self._c) else self._c
    def at_header(self, ex, st): pass
