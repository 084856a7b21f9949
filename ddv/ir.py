"""Parser for the textual LLVM IR that clang emits (-O0) for the real headers.

Only the subset that occurs at -O0 is understood; anything else raises IRError, which the
driver reports as an undischarged obligation (never silently skipped)."""
import re, subprocess

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "_sz", "_al", "_lay")
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._sz = self._al = self._lay = None
    def __repr__(self):
        if self.k == "int": return "i%d" % self.a
        if self.k == "arr": return "[%d x %r]" % (self.a, self.b)
        if self.k == "named": return "%" + self.a
        if self.k == "struct": return "{" + ",".join(map(repr, self.a)) + "}"
        return self.k

PTR = Ty("ptr"); DBL = Ty("double"); VOID = Ty("void")
_INT = {}
def INT(w):
    t = _INT.get(w)
    if t is None: t = _INT[w] = Ty("int", w)
    return t
_ARR = {}

TOK = re.compile(r'''\s*(?:
  (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>![0-9]+|!DIExpression\([^)]*\)|![a-zA-Z_.]+|!)|
  (?P<str>c?"(?:[^"])*")|
  (?P<num>-?(?:0x[0-9A-Fa-f]+|0x[HKLMR][0-9A-Fa-f]+|[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?))|
  (?P<id>[a-zA-Z_$][-a-zA-Z$._0-9]*)|
  (?P<attr>\#[0-9]+)|
  (?P<p>\.\.\.|<\{|\}>|[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"): break
            raise IRError("tokenize: " + s[i:i+60])
        kind = m.lastgroup
        t = m.group(kind)
        if kind == "name" and t[1] == '"': t = t[0] + t[2:-1]
        out.append((kind, t)); i = m.end()
    return out

class TS:
    """token stream"""
    __slots__ = ("t", "i", "mod")
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def peekk(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s and self.t[self.i][0] != "name":
            self.i += 1; return True
        return False
    def expect(self, s):
        if not self.accept(s): raise IRError("expected %r got %r in %r" % (s, self.peek(), self.t))
    def end(self): return self.i >= len(self.t)

    def is_type_start(self):
        k, v = self.t[self.i]
        if k == "id": return v in ("ptr", "double", "float", "void", "x86_fp80", "label", "metadata", "token", "opaque") or re.fullmatch(r"i[0-9]+", v) is not None
        if k == "p": return v in ("[", "{", "<{", "<")
        if k == "name": return v[0] == "%"
        return False
    def type(self):
        k, v = self.t[self.i]; self.i += 1
        if k == "id":
            if v == "ptr": return PTR
            if v == "double": return DBL
            if v == "void": return VOID
            if v in ("float", "x86_fp80", "label", "metadata", "token", "opaque"): return Ty(v)
            m = re.fullmatch(r"i([0-9]+)", v)
            if m: return INT(int(m.group(1)))
        elif k == "p":
            if v == "[":
                n = int(self.next()); self.expect("x"); t = self.type(); self.expect("]")
                return Ty("arr", n, t)
            if v == "<" :
                n = int(self.next()); self.expect("x"); t = self.type(); self.expect(">")
                return Ty("vec", n, t)
            if v in ("{", "<{"):
                end = "}" if v == "{" else "}>"
                el = []
                if not self.accept(end):
                    while True:
                        el.append(self.type())
                        if self.accept(end): break
                        self.expect(",")
                return Ty("struct", tuple(el), v == "<{")
        elif k == "name":
            return self.mod.named(v[1:])
        raise IRError("type? %r" % (v,))
    PATTR = {"noundef", "nonnull", "zeroext", "signext", "noalias", "returned", "nocapture", "readonly",
             "writeonly", "readnone", "immarg", "noreturn", "nofree", "inreg", "dead_on_unwind", "writable", "nounwind", "allocsize"}
    def skip_attrs(self):
        while not self.end():
            v = self.peek()
            if self.peekk() == "id" and v in self.PATTR: self.i += 1
            elif v == "align":
                self.i += 2
                if self.t[self.i-1][1] == "(": self.i += 2
            elif v in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "memory", "allocsize"):
                self.i += 1; self.paren_skip()
            else: break
    def paren_skip(self):
        self.expect("("); d = 1
        while d:
            v = self.next()
            if v == "(": d += 1
            elif v == ")": d -= 1

    def value(self, ty):
        """operand of known type -> ('reg',name) | ('const',python value) | ('glob',name) | ('gep',...)"""
        k, v = self.t[self.i]; self.i += 1
        if k == "name":
            return ("reg", v[1:]) if v[0] == "%" else ("glob", v[1:])
        if k == "num":
            if ty.k == "int": return ("const", int(v) % (1 << ty.a))
            return ("fconst", v)
        if k == "meta": 
            return ("meta", v)
        if k == "str": return ("str", v)
        if k == "id":
            if v == "null": return ("const", 0)
            if v in ("undef", "poison"): return ("undef",)
            if v == "true": return ("const", 1)
            if v == "false": return ("const", 0)
            if v == "zeroinitializer": return ("zero",)
            if v == "getelementptr":
                while self.accept("inbounds") or self.accept("nuw") or self.accept("nusw"): pass
                if self.accept("inrange"): self.paren_skip()
                self.expect("(")
                st = self.type(); self.expect(",")
                bt = self.type(); base = self.value(bt); idx = []
                while self.accept(","):
                    if self.accept("inrange"): pass
                    t = self.type(); idx.append((t, self.value(t)))
                self.expect(")")
                return ("gep", st, base, idx)
            if v in ("ptrtoint", "inttoptr", "bitcast"):
                self.expect("("); t = self.type(); x = self.value(t); self.expect("to"); t2 = self.type(); self.expect(")")
                return ("cast", v, t, x, t2)
        if k == "p":
            if v in ("{", "[", "<{"):
                end = {"{": "}", "[": "]", "<{": "}>"}[v]; el = []
                if not self.accept(end):
                    while True:
                        t = self.type(); el.append((t, self.value(t)))
                        if self.accept(end): break
                        self.expect(",")
                return ("agg", el)
        raise IRError("value? %r of %r" % (v, ty))

    def tvalue(self):
        t = self.type(); self.skip_attrs(); return t, self.value(t)

class Instr:
    __slots__ = ("op", "res", "ty", "a", "dbg", "text")
    def __init__(self, op, res, ty, a, dbg, text):
        self.op, self.res, self.ty, self.a, self.dbg, self.text = op, res, ty, a, dbg, text
    def __repr__(self): return self.text.strip()

class Block:
    __slots__ = ("name", "ins", "succ", "idx")

class Function:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._parsed = False
        self.dem = None
    def parse(self):
        if self._parsed: return self
        self._parsed = True
        m = re.match(r'define\s+(.*?)@(?:"[^"]*"|[-a-zA-Z$._0-9]+)\(', self.header)
        pre = m.group(1)
        rest = self.header[m.end()-1:]
        toks = tokenize(pre)
        ts = TS(toks, self.mod)
        # return type is last type in pre, after linkage/attrs
        while not ts.end():
            if ts.peekk() == "id" and not ts.is_type_start(): 
                if ts.peek() in ("dereferenceable", "align", "dereferenceable_or_null"): ts.skip_attrs()
                else: ts.i += 1
                continue
            break
        self.ret = ts.type()
        rt = re.sub(r'\)\s*(?:local_unnamed_addr|unnamed_addr)?\s*(?:#\d+|personality|comdat|align|!dbg|\{|noundef).*$', ')', rest)
        ts = TS(tokenize(rest.rsplit("{", 1)[0] if rest.rstrip().endswith("{") else rest), self.mod)
        ts.expect("(")
        self.params = []; self.vararg = False; self.sret = None; self.byval = {}
        k = 0
        if not ts.accept(")"):
            while True:
                if ts.accept("..."): self.vararg = True
                else:
                    t = ts.type()
                    # detect sret
                    j = ts.i
                    while ts.peekk() != "name" or (ts.peek(-1) == "("):
                        if ts.peek() == "sret": self.sret = k
                        if ts.peek() == "byval": self.byval[k] = True
                        if ts.peek() in (",", ")"): break
                        if ts.peek() in ("sret", "byval", "dereferenceable", "dereferenceable_or_null", "align", "memory") and ts.peek(1) == "(":
                            q = ts.i; ts.i += 1
                            if self.t_is(ts, q): ts.i = q + 2; tt = ts.type(); ts.expect(")"); self.srettype = tt
                            else: ts.paren_skip()
                        else: ts.i += 1
                    if ts.peekk() == "name": nm = ts.next()[1:]
                    else: nm = str(k)
                    self.params.append((t, nm)); k += 1
                if ts.accept(")"): break
                ts.expect(",")
        # body
        self.blocks = []; self.bmap = {}
        cur = None; i = 0; L = self.lines
        first = True
        vn = {}
        self.varname = vn
        def newblock(name):
            b = Block(); b.name = name; b.ins = []; b.succ = []; b.idx = len(self.blocks)
            self.blocks.append(b); self.bmap[name] = b; return b
        n = len(L)
        while i < n:
            s = L[i]; i += 1
            if not s.strip(): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                nm = m.group(1).strip('"')
                cur = newblock(nm); first = False; continue
            if first:
                cur = newblock("entry" if "entry" not in self.bmap else "entry0"); first = False
                # numbered entry block: its implicit number is len(params)
                self.bmap[str(len(self.params))] = cur
            if s.lstrip().startswith(";"): continue
            t = s
            # multi-line constructs
            if re.search(r'\binvoke\b', t) and " to label" not in t:
                t += " " + L[i].strip(); i += 1
            if re.match(r'\s*switch\b', t) and not t.rstrip().endswith("]") and "]" not in t:
                while True:
                    t += " " + L[i].strip(); i += 1
                    if "]" in L[i-1]: break
            if "landingpad" in t:
                while i < n and re.match(r'\s+(cleanup|catch|filter)\b', L[i]): i += 1
            ins = self.pinstr(t)
            if ins is not None: cur.ins.append(ins)
        for b in self.blocks:
            x = b.ins[-1]
            if x.op == "br": b.succ = list(x.a["targets"])
            elif x.op == "switch": b.succ = [x.a["default"]] + [c[1] for c in x.a["cases"]]
            elif x.op == "invoke": b.succ = [x.a["normal"]]
            else: b.succ = []
        return self
    @staticmethod
    def t_is(ts, q): return ts.t[q][1] in ("sret", "byval")

    def pinstr(self, s):
        if "@llvm.dbg.declare" in s:
            m = re.search(r'metadata ptr (?:%("?)([^",]+)\1), metadata (!\d+)', s)
            if m: self.varname[m.group(2)] = m.group(3)
            return None
        if "@llvm.dbg." in s or "@llvm.experimental.noalias" in s or "@llvm.lifetime" in s: return None
        dbg = None
        m = re.search(r', !dbg (!\d+)', s)
        if m: dbg = m.group(1)
        body = re.sub(r', !(dbg|prof|tbaa|llvm\.loop|srcloc|heapallocsite|nosanitize|range|noundef|alias\.scope|noalias|unpredictable) !\d+', '', s)
        ts = TS(tokenize(body), self.mod)
        res = None
        if ts.peekk() == "name" and ts.peek(1) == "=":
            res = ts.next()[1:]; ts.expect("=")
        op = ts.next()
        if op in ("tail", "notail", "musttail"): op = ts.next()
        A = {}
        ty = None
        if op == "alloca":
            ty = ts.type(); A["n"] = None
            if ts.accept(","):
                if ts.peek() != "align": t, v = ts.tvalue(); A["n"] = (t, v)
        elif op == "load":
            ts.accept("volatile"); ts.accept("atomic"); ty = ts.type(); ts.expect(","); t, v = ts.tvalue(); A["p"] = v
        elif op == "store":
            ts.accept("volatile"); t, v = ts.tvalue(); ts.expect(","); t2, p = ts.tvalue(); ty = t; A["v"] = v; A["p"] = p
        elif op == "getelementptr":
            while ts.peek() in ("inbounds", "nuw", "nusw"): ts.next()
            A["st"] = ts.type(); ts.expect(","); t, v = ts.tvalue(); A["p"] = v; idx = []
            while ts.accept(","):
                idx.append(ts.tvalue())
            A["idx"] = idx; ty = PTR
        elif op in ("call", "invoke"):
            while ts.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc"): ts.next()
            # ret attrs
            while not ts.is_type_start():
                j = ts.i
                ts.skip_attrs()
                if ts.i == j: ts.next()
            ty = ts.type()
            if ts.peek() == "(": # function type of varargs
                ts.paren_skip()
            k, v = ts.t[ts.i]
            if k == "name": ts.i += 1; A["f"] = ("glob", v[1:]) if v[0] == "@" else ("reg", v[1:])
            elif v == "asm": A["f"] = ("asm",); return Instr("asm", res, ty, A, dbg, s)
            else: raise IRError("callee " + s)
            ts.expect("("); args = []
            if not ts.accept(")"):
                while True:
                    if ts.peek() == "metadata":
                        ts.next(); 
                        while ts.peek() not in (",", ")"): ts.next()
                        args.append((Ty("metadata"), ("undef",)))
                    else:
                        t, v = ts.tvalue(); args.append((t, v))
                    if ts.accept(")"): break
                    ts.expect(",")
            A["args"] = args
            if op == "invoke":
                while ts.peek() != "to": ts.next()
                ts.next(); ts.expect("label"); A["normal"] = ts.next()[1:]
                ts.expect("unwind"); ts.expect("label"); A["unwind"] = ts.next()[1:]
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = []
            while not ts.is_type_start(): fl.append(ts.next())
            ty = ts.type(); A["x"] = ts.value(ty); ts.expect(","); A["y"] = ts.value(ty); A["fl"] = fl
        elif op == "fneg":
            while not ts.is_type_start(): ts.next()
            ty = ts.type(); A["x"] = ts.value(ty)
        elif op in ("icmp", "fcmp"):
            while ts.peek() in ("fast", "nnan", "ninf", "nsz"): ts.next()
            A["pred"] = ts.next(); A["t"] = ts.type(); A["x"] = ts.value(A["t"]); ts.expect(","); A["y"] = ts.value(A["t"]); ty = INT(1)
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "bitcast", "fpext", "fptrunc"):
            while not ts.is_type_start(): ts.next()
            t, v = ts.tvalue(); ts.expect("to"); ty = ts.type(); A["t"] = t; A["x"] = v
        elif op == "br":
            if ts.accept("label"): A["targets"] = [ts.next()[1:]]; A["c"] = None
            else:
                t, c = ts.tvalue(); A["c"] = c; ts.expect(","); ts.expect("label"); a = ts.next()[1:]; ts.expect(","); ts.expect("label"); b = ts.next()[1:]
                A["targets"] = [a, b]
        elif op == "switch":
            t, v = ts.tvalue(); ts.expect(","); ts.expect("label"); A["v"] = v; A["t"] = t; A["default"] = ts.next()[1:]; ts.expect("[")
            cs = []
            while not ts.accept("]"):
                t2 = ts.type(); cv = ts.value(t2); ts.expect(","); ts.expect("label"); cs.append((cv[1], ts.next()[1:]))
            A["cases"] = cs
        elif op == "ret":
            ty = ts.type(); A["v"] = None if ty.k == "void" else ts.value(ty)
        elif op == "phi":
            ty = ts.type(); inc = []
            while True:
                ts.expect("["); v = ts.value(ty); ts.expect(","); b = ts.next()[1:]; ts.expect("]"); inc.append((v, b))
                if not ts.accept(","): break
            A["inc"] = inc
        elif op == "select":
            while not ts.is_type_start(): ts.next()
            t, c = ts.tvalue(); ts.expect(","); ty, x = ts.tvalue(); ts.expect(","); _, y = ts.tvalue(); A.update(c=c, x=x, y=y)
        elif op == "extractvalue":
            t, v = ts.tvalue(); A["v"] = v; A["i"] = []
            while ts.accept(","): A["i"].append(int(ts.next()))
            ty = t
        elif op == "insertvalue":
            t, v = ts.tvalue(); ts.expect(","); t2, e = ts.tvalue(); A["v"] = v; A["e"] = e; A["i"] = []; ty = t
            while ts.accept(","): A["i"].append(int(ts.next()))
        elif op in ("unreachable", "resume", "landingpad"):
            pass
        elif op == "freeze":
            ty, A["x"] = ts.tvalue()
        else:
            A["raw"] = s
        return Instr(op, res, ty, A, dbg, s)

    # ------------------------------------------------ loops / WTO
    def wto(self):
        """position[b] = tuple of (component rank...) giving a weak topological order; loops[header] = set of blocks"""
        if hasattr(self, "_wto"): return self._wto
        self.parse()
        succ = {b.name: [self.bmap[s].name for s in b.succ] for b in self.blocks}
        import sys
        sys.setrecursionlimit(100000)
        def scc(nodes, start):
            index = {}; low = {}; st = []; on = set(); out = []; cnt = [0]
            order = []
            def dfs(v):
                index[v] = low[v] = cnt[0]; cnt[0] += 1; st.append(v); on.add(v)
                for w in succ[v]:
                    if w not in nodes: continue
                    if w not in index: dfs(w); low[v] = min(low[v], low[w])
                    elif w in on: low[v] = min(low[v], index[w])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    out.append(c)
            for s in start:
                if s in nodes and s not in index: dfs(s)
            return out[::-1]
        pos = {}; loops = {}; nest = {}
        def build(nodes, start, prefix, nests):
            rank = 0
            for c in scc(nodes, start):
                rank += 1
                if len(c) == 1 and c[0] not in succ[c[0]]:
                    pos[c[0]] = prefix + (rank,); nest[c[0]] = nests
                else:
                    cs = set(c)
                    # header: the node with an entry from outside
                    heads = [v for v in c if any(v in succ[u] and u not in cs for u in succ) or v == self.blocks[0].name]
                    if len(heads) != 1: raise IRError("irreducible loop in " + self.name)
                    h = heads[0]
                    loops[h] = cs
                    pos[h] = prefix + (rank, 0); nest[h] = nests + (h,)
                    rest = cs - {h}
                    build(rest, [s for s in succ[h] if s in rest], prefix + (rank,), nests + (h,))
        build(set(succ), [self.blocks[0].name], (), ())
        self._wto = (pos, loops, nest)
        return self._wto

class Module:
    def __init__(self, path):
        self.types = {}; self.typesrc = {}
        self.funcs = {}; self.globals = {}; self.decls = set()
        self.meta = {}
        with open(path) as f: lines = f.read().split("\n")
        i = 0; n = len(lines)
        while i < n:
            s = lines[i]
            if s.startswith("define"):
                nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s).group(1).strip('"')
                j = i + 1
                while lines[j] != "}": j += 1
                self.funcs[nm] = Function(self, nm, s, lines[i+1:j]); i = j
            elif s.startswith("%"):
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', s)
                if m: self.typesrc[m.group(1).strip('"')] = m.group(2)
            elif s.startswith("@"):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', s)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif s.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
                if m: self.decls.add(m.group(1).strip('"'))
            elif s.startswith("!"):
                m = re.match(r'(!\d+) = (.*)$', s)
                if m: self.meta[m.group(1)] = m.group(2)
            i += 1
        names = list(self.funcs) + list(self.decls) + list(self.globals)
        p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        dm = p.stdout.split("\n")
        self.dem = {a: b for a, b in zip(names, dm)}
        for f in self.funcs.values(): f.dem = self.dem[f.name]
        self._gi = {}
    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = self.types[n] = Ty("named", n)
        return t
    def resolve(self, t):
        if t.k != "named": return t
        if t.b is None:
            src = self.typesrc.get(t.a)
            if src is None: raise IRError("no type " + t.a)
            t.b = TS(tokenize(src), self).type()
        return t.b
    # ---- layout
    def size(self, t):
        if t._sz is None: self._layout(t)
        return t._sz
    def align(self, t):
        if t._al is None: self._layout(t)
        return t._al
    def offsets(self, t):
        t = self.resolve(t)
        if t._sz is None: self._layout(t)
        return t._lay
    def _layout(self, t):
        k = t.k
        if k == "int":
            sz = (t.a + 7) // 8
            p = 1
            while p < sz: p *= 2
            t._sz = t._al = p
        elif k in ("ptr", "double"): t._sz = t._al = 8
        elif k == "float": t._sz = t._al = 4
        elif k == "x86_fp80": t._sz = t._al = 16
        elif k == "arr": t._sz = t.a * self.size(t.b); t._al = self.align(t.b)
        elif k == "vec": t._sz = t._al = t.a * self.size(t.b)
        elif k == "named":
            if self.typesrc.get(t.a) == "opaque": t._sz = 0; t._al = 1; return
            r = self.resolve(t); t._sz, t._al, t._lay = self.size(r), self.align(r), r._lay
        elif k == "struct":
            off = 0; al = 1; lay = []
            for e in t.a:
                a = 1 if t.b else self.align(e)
                off = (off + a - 1) // a * a; al = max(al, a); lay.append(off); off += self.size(e)
            t._sz = (off + al - 1) // al * al; t._al = al; t._lay = lay
        else: raise IRError("size of %r" % t)
    def leaves(self, t, base=0, cap=64):
        """flattened scalar leaves [(offset, Ty)]"""
        r = self.resolve(t)
        if r.k == "struct":
            out = []
            for e, o in zip(r.a, self.offsets(r)): out += self.leaves(e, base + o, cap)
            return out
        if r.k == "arr":
            if r.a > cap: raise IRError("leaves of big array %r" % t)
            out = []; s = self.size(r.b)
            for j in range(r.a): out += self.leaves(r.b, base + j*s, cap)
            return out
        return [(base, r)]
    # ---- debug info
    def md(self, ref, field):
        s = self.meta.get(ref)
        if s is None: return None
        m = re.search(r'\b%s: ("(?:[^"]*)"|[^,)]+)' % field, s)
        return m.group(1).strip('"') if m else None
    def line(self, ref):
        return int(self.md(ref, "line") or 0) if ref else 0
    def file_of(self, ref):
        seen = 0
        while ref and seen < 20:
            f = self.md(ref, "file")
            if f and f.startswith("!"):
                return self.md(f, "filename")
            ref = self.md(ref, "scope"); seen += 1
        return "?"
    def loc(self, ref):
        if not ref: return "?"
        sc = self.md(ref, "scope")
        return "%s:%d" % (self.file_of(sc), self.line(ref))
    def varname(self, f, alloca):
        r = f.varname.get(alloca)
        return self.md(r, "name") if r else None
    def members(self, identifier_prefix=None, name=None):
        """offset table {member: byte offset} of a class by its debug-info name"""
        if not hasattr(self, "_cls"):
            self._cls = {}
            for k, s in self.meta.items():
                if "DICompositeType(" in s and "elements:" in s and ("DW_TAG_class_type" in s or "DW_TAG_structure_type" in s):
                    m = re.search(r'name: "([^"]*)"', s)
                    if m: self._cls.setdefault(m.group(1), []).append(k)
        out = {}
        for k in self._cls.get(name, []):
            el = self.md(k, "elements")
            for e in re.findall(r'![0-9]+', self.meta.get(el, "")):
                s = self.meta[e]
                if "DW_TAG_member" in s and "DIFlagStaticMember" not in s:
                    nm = self.md(e, "name"); off = int(self.md(e, "offset") or 0) // 8
                    out[nm] = off
                elif "DW_TAG_inheritance" in s:
                    pass
            if out: return out
        return out
    def member_types(self, name):
        """{member: type name} of a class by its debug-info name"""
        self.members(name=name); out = {}
        def tname(k, d=0):
            s = self.meta.get(k, "")
            m = re.search(r'name: "([^"]*)"', s)
            if m: return m.group(1)
            b = self.md(k, "baseType")
            return tname(b, d + 1) if b and d < 6 else "?"
        for k in self._cls.get(name, []):
            el = self.md(k, "elements")
            for e in re.findall(r'![0-9]+', self.meta.get(el, "")):
                s = self.meta[e]
                if "DW_TAG_member" in s and "DIFlagStaticMember" not in s: out[self.md(e, "name")] = tname(self.md(e, "baseType"))
            if out: return out
        return out
