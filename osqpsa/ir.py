"""Parser for the textual LLVM IR that clang 18 emits for the sources under analysis.

Only the subset that clang produces for C code is supported; anything unknown raises IRError, so the
analysis never silently skips an instruction."""
import re, struct


class IRError(Exception):
    pass


# ----------------------------------------------------------------------------- types
class Type:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __eq__(self, o):
        return isinstance(o, Type) and (self.k, self.a, self.b) == (o.k, o.a, o.b)

    def __hash__(self):
        return hash((self.k, self.a if not isinstance(self.a, list) else tuple(self.a), self.b))

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.a
        if self.k == "struct":
            return "%" + self.a
        if self.k == "array":
            return "[%s x %r]" % (self.a, self.b)
        if self.k == "lit":
            return "{%s}" % ", ".join(map(repr, self.a))
        return self.k


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<meta>![A-Za-z0-9_.]+|!(?=\{))
 | (?P<local>%(?:"[^"]*"|[-A-Za-z0-9$._]+))
 | (?P<glob>@(?:"[^"]*"|[-A-Za-z0-9$._]+))
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
 | (?P<attr>\#[0-9]+)
 | (?P<word>[A-Za-z_][A-Za-z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("tokenize: " + s[i:i + 80])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %s got %s in %s" % (x, y, " ".join(self.t)[:300]))

    def eof(self):
        return self.i >= len(self.t)

    # types
    def type(self):
        t = self.next()
        if t == "void" or t == "ptr" or t in ("double", "float", "half", "x86_fp80", "label", "metadata", "fp128"):
            r = Type(t)
            if t == "ptr" and self.peek() == "addrspace":
                self.next(); self.expect("("); self.next(); self.expect(")")
        elif re.fullmatch(r"i\d+", t):
            r = Type("int", int(t[1:]))
        elif t[0] == "%":
            r = Type("struct", t[1:].strip('"'))
        elif t == "[":
            n = int(self.next()); self.expect("x")
            e = self.type(); self.expect("]")
            r = Type("array", n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                r = self._lit(); self.expect(">")
            else:
                n = int(self.next()); self.expect("x")
                e = self.type(); self.expect(">")
                r = Type("vector", n, e)
        elif t == "{":
            r = self._lit()
        elif t == "opaque":
            r = Type("opaque")
        else:
            raise IRError("type: %s in %s" % (t, " ".join(self.t)[:300]))
        # function type suffix  "i32 (ptr, ...)"
        if self.peek() == "(" and r.k != "label" and self._isfnty():
            self.next()
            args = []
            va = False
            while not self.accept(")"):
                if self.accept("..."):
                    va = True
                else:
                    args.append(self.type())
                self.accept(",")
            r = Type("fn", (r, tuple(args), va))
        return r

    def _isfnty(self):
        # lookahead: a type list followed by ')' and then a value token
        d, j = 0, self.i
        while j < len(self.t):
            if self.t[j] == "(":
                d += 1
            elif self.t[j] == ")":
                d -= 1
                if d == 0:
                    break
            elif self.t[j][0] in "@!" or (self.t[j][0] == "%" and not self.t[j].startswith("%struct") and not self.t[j].startswith("%union")):
                return False
            j += 1
        return j + 1 < len(self.t) and self.t[j + 1][0] in "@%"

    def _lit(self):
        es = []
        while not self.accept("}"):
            es.append(self.type())
            self.accept(",")
        return Type("lit", tuple(es))

    PATTR = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext",
             "noalias", "returned", "inreg", "nest", "immarg", "allocptr", "nofree", "inbounds", "dead_on_unwind",
             "writable", "noundef", "swiftself", "swifterror", "exact", "nuw", "nsw", "range"}

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in self.PATTR:
                self.next()
            elif t in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype",
                       "allocalign", "allocsize", "memory"):
                self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        x = self.next()
                        if x == "(":
                            d += 1
                        if x == ")":
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.next()
            else:
                return

    # values: ('const', n) ('fconst', f) ('null',) ('undef',) ('reg', name) ('glob', name) ('cexpr', op, ...) ('agg', [...]) ('str', s) ('zero',)
    def value(self, ty):
        t = self.next()
        if t[0] == "%":
            return ("reg", t[1:].strip('"'))
        if t[0] == "@":
            return ("glob", t[1:].strip('"'))
        if t == "null":
            return ("const", 0)
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "true":
            return ("const", 1)
        if t == "false":
            return ("const", 0)
        if t in ("zeroinitializer",):
            return ("zero",)
        if t.startswith("0x"):
            if t[2] in "KLMHR":
                return ("fconst", float("nan"))
            return ("fconst", struct.unpack(">d", int(t[2:], 16).to_bytes(8, "big"))[0])
        if re.fullmatch(r"-?[0-9]+", t):
            if ty is not None and ty.k in ("double", "float"):
                return ("fconst", float(t))
            return ("const", int(t))
        if re.fullmatch(r"-?[0-9]+\.[0-9]+([eE][-+]?[0-9]+)?", t):
            return ("fconst", float(t))
        if t.startswith('c"'):
            s = t[2:-1]
            s = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)
            return ("str", s)
        if t == "getelementptr":
            self.skip_attrs()
            while self.peek() in ("inbounds", "inrange"):
                self.next()
            self.expect("(")
            st = self.type(); self.expect(",")
            ops = []
            while not self.accept(")"):
                if self.peek() == "inrange":
                    self.next()
                t2 = self.type()
                ops.append((t2, self.value(t2)))
                self.accept(",")
            return ("cgep", st, ops)
        if t in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext"):
            self.expect("(")
            t2 = self.type(); v = self.value(t2); self.expect("to"); self.type(); self.expect(")")
            return v
        if t in ("sub", "add", "mul"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            t1 = self.type(); v1 = self.value(t1); self.expect(",")
            t2 = self.type(); v2 = self.value(t2); self.expect(")")
            return ("cbin", t, v1, v2)
        if t in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[t]
            if t == "<" and self.peek() == "{":
                self.next()
                r = self._agg("}")
                self.expect(">")
                return r
            return self._agg(close)
        raise IRError("value: %s in %s" % (t, " ".join(self.t)[:300]))

    def _agg(self, close):
        es = []
        while not self.accept(close):
            ty = self.type()
            self.skip_attrs()
            es.append(self.value(ty))
            self.accept(",")
        return ("agg", es)


class Inst:
    __slots__ = ("op", "res", "ty", "ops", "x", "dbg", "blk", "fn", "idx")

    def __init__(self, op, res=None, ty=None, ops=None, x=None, dbg=None):
        self.op, self.res, self.ty, self.ops, self.x, self.dbg = op, res, ty, ops or [], x, dbg
        self.blk = None
        self.fn = None

    def __repr__(self):
        return "%s = %s %s %s" % (self.res, self.op, self.ops, self.x)


class Block:
    __slots__ = ("name", "insts", "succs", "preds", "fn", "rpo", "loophead", "livein", "loop", "indvars")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.insts, self.succs, self.preds = [], [], []
        self.rpo = -1
        self.loophead = False
        self.livein = None
        self.indvars = None
        self.loop = None


class Function:
    def __init__(self, name):
        self.name = name
        self.ret = None
        self.args = []      # (type, regname)
        self.vararg = False
        self.blocks = {}
        self.order = []
        self.dbg = None
        self.internal = False
        self.module = None

    def entry(self):
        return self.order[0]

    def insts(self):
        for b in self.order:
            for i in b.insts:
                yield i


class Global:
    def __init__(self, name, const, ty, init, internal, external):
        self.name, self.const, self.ty, self.init = name, const, ty, init
        self.internal, self.external = internal, external
        self.module = None
        self.tls = False
        self.effconst = False    # declared mutable, never written


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr",
        "bitcast", "addrspacecast"}


class Module:
    def __init__(self, name):
        self.name = name
        self.structs = {}    # name -> [Type]
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.meta = {}       # id -> raw text
        self._mp = {}

    # ---------------------------------------------------------------- metadata
    def md(self, ref):
        """Parsed metadata node: (kind, dict) or ('tuple', [..])"""
        if ref is None:
            return None
        if ref in self._mp:
            return self._mp[ref]
        raw = self.meta.get(ref)
        if raw is None:
            return None
        raw = raw.strip()
        if raw.startswith("distinct "):
            raw = raw[9:]
        m = re.match(r"!(\w+)\((.*)\)\s*$", raw, re.S)
        if m:
            d = {}
            for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|![0-9]+|!DIExpression\([^)]*\)|[^,]+)(?:, |$)', m.group(2)):
                d[k] = v.strip('"') if v.startswith('"') else v
            r = (m.group(1), d)
        elif raw.startswith("!{"):
            r = ("tuple", [x.strip() for x in raw[2:raw.rindex("}")].split(",")])
        else:
            r = ("raw", raw)
        self._mp[ref] = r
        return r

    def loc(self, ref):
        """(file, line, function) of a !dbg reference"""
        n = self.md(ref)
        if not n or n[0] != "DILocation":
            return (None, 0, None)
        line = int(n[1].get("line", 0))
        s = n[1].get("scope")
        f = fn = None
        while s:
            sn = self.md(s)
            if sn is None:
                break
            if f is None and "file" in sn[1]:
                fl = self.md(sn[1]["file"])
                if fl:
                    f = fl[1].get("filename")
                    d = fl[1].get("directory", "")
                    if f and not f.startswith("/") and d:
                        f = d + "/" + f
            if sn[0] == "DISubprogram":
                fn = sn[1].get("name")
                break
            s = sn[1].get("scope")
        return (f, line, fn)


def parse_module(text, name="m"):
    m = Module(name)
    lines = text.split("\n")
    n = len(lines)
    i = 0
    while i < n:
        ln = lines[i]
        if ln.startswith("!"):
            k, v = ln.split(" = ", 1)
            m.meta[k.strip()] = v
        elif ln.startswith("%"):
            mm = re.match(r'%("?[^ "]+"?) = type (.*)$', ln)
            nm = mm.group(1).strip('"')
            body = mm.group(2)
            if body == "opaque":
                m.structs[nm] = None
            else:
                t = P(tokenize(body), m).type()
                m.structs[nm] = list(t.a)
        elif ln.startswith("@"):
            _global(m, ln)
        elif ln.startswith("declare"):
            _header(m, ln, decl=True)
        elif ln.startswith("define"):
            f = _header(m, ln, decl=False)
            i += 1
            body = []
            while lines[i] != "}":
                body.append(lines[i])
                i += 1
            _body(m, f, body)
        i += 1
    return m


def _global(m, ln):
    p = P(tokenize(ln), m)
    name = p.next()[1:].strip('"')
    p.expect("=")
    internal = external = const = tls = False
    while True:
        t = p.peek()
        if t in ("private", "internal", "external", "common", "dso_local", "local_unnamed_addr", "unnamed_addr", "weak", "linkonce_odr",
                 "global", "constant", "hidden", "weak_odr", "available_externally", "extern_weak", "thread_local", "addrspace"):
            p.next()
            if t in ("private", "internal"):
                internal = True
            if t in ("external", "extern_weak"):
                external = True
            if t == "constant":
                const = True
            if t == "thread_local":
                tls = True
                if p.accept("("):
                    p.next(); p.expect(")")
            if t in ("global", "constant"):
                break
        else:
            raise IRError("global: " + ln[:200])
    ty = p.type()
    init = None
    if not external and not p.eof() and p.peek() != ",":
        init = p.value(ty)
    g = Global(name, const, ty, init, internal, external)
    g.module = m
    g.tls = tls
    d = re.search(r"!dbg (!\d+)", ln)
    g.dbg = d.group(1) if d else None
    m.globals[name] = g


def _header(m, ln, decl):
    p = P(tokenize(ln), m)
    p.next()
    internal = False
    while True:
        t = p.peek()
        if t in ("dso_local", "internal", "private", "linkonce_odr", "weak", "available_externally", "hidden", "noalias", "noundef",
                 "signext", "zeroext", "nonnull", "local_unnamed_addr", "unnamed_addr", "extern_weak", "weak_odr", "dso_preemptable"):
            p.next()
            if t in ("internal", "private"):
                internal = True
        elif t == "!dbg" or (t and t.startswith("!")):
            p.next()
            p.next() if t == "!dbg" else None
        elif t in ("align", "dereferenceable", "dereferenceable_or_null"):
            p.skip_attrs()
        else:
            break
    ret = p.type()
    name = p.next()
    name = name[1:].strip('"')
    p.expect("(")
    f = Function(name)
    f.ret, f.internal, f.module = ret, internal, m
    k = 0
    while not p.accept(")"):
        if p.accept("..."):
            f.vararg = True
        else:
            ty = p.type()
            p.skip_attrs()
            rn = None
            if p.peek() and p.peek()[0] == "%":
                rn = p.next()[1:].strip('"')
            f.args.append((ty, rn))
            k += 1
        p.accept(",")
    d = re.search(r"!dbg (!\d+)", ln)
    f.dbg = d.group(1) if d else None
    if decl:
        m.decls[name] = f
    else:
        m.funcs[name] = f
    return f


LABEL = re.compile(r'^("?[-A-Za-z0-9$._]+"?):')


def _body(m, f, lines):
    cur = None
    i = 0
    while i < len(lines):
        ln = lines[i]
        i += 1
        if not ln.strip():
            continue
        mm = LABEL.match(ln)
        if mm and not ln.startswith(" "):
            cur = Block(mm.group(1).strip('"'), f)
            f.blocks[cur.name] = cur
            f.order.append(cur)
            continue
        if cur is None:
            cur = Block("entry", f)
            f.blocks["entry"] = cur
            f.order.append(cur)
        s = ln.strip()
        if s.startswith("switch") and not s.rstrip().endswith("]") and "]" not in s:
            while "]" not in s:
                s += " " + lines[i].strip()
                i += 1
        if "@llvm.dbg." in s or "@llvm.lifetime." in s or s.startswith("#dbg"):
            continue
        inst = _inst(m, f, s)
        inst.blk = cur
        inst.fn = f
        inst.idx = len(cur.insts)
        cur.insts.append(inst)
    # unnamed blocks / args
    k = 0
    for j, (t, rn) in enumerate(f.args):
        if rn is None:
            f.args[j] = (t, str(k))
            k += 1
    for b in f.order:
        t = b.insts[-1]
        if t.op == "br":
            b.succs = [x for x in t.x]
        elif t.op == "switch":
            b.succs = [t.x[0]] + [l for _, l in t.x[1]]
        else:
            b.succs = []
    for b in f.order:
        seen = []
        for s in b.succs:
            if s not in seen:
                seen.append(s)
        b.succs = [f.blocks[s] for s in seen]
        for s in b.succs:
            s.preds.append(b)
    _rpo(f)


def _rpo(f):
    order, seen = [], set()
    stack = [(f.entry(), iter(f.entry().succs))]
    seen.add(f.entry())
    onstack = {f.entry()}
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                onstack.add(s)
                stack.append((s, iter(s.succs)))
                break
            elif s in onstack:
                s.loophead = True
        else:
            stack.pop()
            onstack.discard(b)
            order.append(b)
    order.reverse()
    for k, b in enumerate(order):
        b.rpo = k
    f.rpo = order
    # natural loops
    f.loops = {}
    for b in order:
        for s in b.succs:
            if s.loophead and s.rpo <= b.rpo:
                body = f.loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in x.preds if p.rpo >= 0)
    # liveness
    use, dfn = {}, {}
    for b in order:
        u, d = set(), set()
        for i in b.insts:
            if i.op == "phi":
                d.add(i.res)
                continue
            for r in regs_used(i):
                if r not in d:
                    u.add(r)
            if i.res is not None:
                d.add(i.res)
        use[b], dfn[b] = u, d
    livein = {b: set(use[b]) for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            out = set()
            for s in b.succs:
                out |= livein[s]
                for i in s.insts:
                    if i.op != "phi":
                        break
                    for v, pb in i.x:
                        if pb == b.name and v[0] == "reg":
                            out.add(v[1])
            new = use[b] | (out - dfn[b])
            if new != livein[b]:
                livein[b] = new
                ch = True
    for b in order:
        b.livein = livein[b]


def regs_used(i):
    out = []
    for v in i.ops:
        if isinstance(v, tuple):
            _cr(v, out)
    if i.op == "call":
        for t, v in i.x["args"]:
            _cr(v, out)
        _cr(i.x["callee"], out)
    elif i.op == "gep":
        for t, v in i.x[1]:
            _cr(v, out)
    return out


def _cr(v, out):
    if v[0] == "reg":
        out.append(v[1])


def _inst(m, f, s):
    dbg = None
    mm = re.search(r", !dbg (!\d+)", s)
    if mm:
        dbg = mm.group(1)
    # strip trailing metadata
    s2 = re.sub(r", ![a-zA-Z_.]+ !\d+", "", s)
    s2 = re.sub(r", ![a-zA-Z_.]+ !\{[^}]*\}", "", s2)
    p = P(tokenize(s2), m)
    res = None
    if p.peek(1) == "=" and p.peek()[0] == "%":
        res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    I = Inst(op, res, dbg=dbg)
    if op == "load":
        p.accept("volatile"); p.accept("atomic")
        I.ty = p.type(); p.expect(",")
        t = p.type()
        I.ops = [p.value(t)]
    elif op == "store":
        I.x = p.accept("volatile"); p.accept("atomic")
        t = p.type(); v = p.value(t); p.expect(",")
        t2 = p.type()
        I.ty = t
        I.ops = [v, p.value(t2)]
    elif op == "alloca":
        I.ty = p.type()
        if p.accept(",") and p.peek() != "align":
            t = p.type()
            I.ops = [p.value(t)]
    elif op == "getelementptr":
        I.op = "gep"
        p.accept("inbounds")
        st = p.type(); p.expect(",")
        ops = []
        while True:
            t = p.type(); v = p.value(t)
            ops.append((t, v))
            if not p.accept(","):
                break
        I.x = (st, ops)
        I.ty = Type("ptr")
    elif op in BIN:
        while p.peek() in ("nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint"):
            p.next()
        t = p.type()
        a = p.value(t); p.expect(",")
        b = p.value(t)
        I.ty = t
        I.ops = [a, b]
    elif op == "fneg":
        while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            p.next()
        t = p.type()
        I.ty = t
        I.ops = [p.value(t)]
    elif op in ("icmp", "fcmp"):
        while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            p.next()
        I.x = p.next()
        t = p.type()
        a = p.value(t); p.expect(",")
        b = p.value(t)
        I.ty = t
        I.ops = [a, b]
    elif op in CAST:
        while p.peek() in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        v = p.value(t); p.expect("to")
        I.x = t
        I.ty = p.type()
        I.ops = [v]
    elif op == "freeze":
        t = p.type()
        I.ty = t
        I.ops = [p.value(t)]
    elif op == "phi":
        t = p.type()
        I.ty = t
        I.x = []
        while p.accept("[") or (p.accept(",") and p.accept("[")):
            v = p.value(t); p.expect(",")
            l = p.next()[1:].strip('"'); p.expect("]")
            I.x.append((v, l))
        I.ops = [v for v, l in I.x]
    elif op == "select":
        t1 = p.type(); c = p.value(t1); p.expect(",")
        t2 = p.type(); a = p.value(t2); p.expect(",")
        t3 = p.type(); b = p.value(t3)
        I.ty = t2
        I.ops = [c, a, b]
    elif op == "br":
        if p.peek() == "label":
            p.next()
            I.x = [p.next()[1:].strip('"')]
        else:
            t = p.type(); c = p.value(t); p.expect(",")
            p.expect("label"); a = p.next()[1:].strip('"'); p.expect(",")
            p.expect("label"); b = p.next()[1:].strip('"')
            I.ops = [c]
            I.x = [a, b]
    elif op == "switch":
        t = p.type(); v = p.value(t); p.expect(",")
        p.expect("label"); d = p.next()[1:].strip('"'); p.expect("[")
        cs = []
        while not p.accept("]"):
            t2 = p.type(); c = p.value(t2); p.expect(","); p.expect("label")
            cs.append((c[1], p.next()[1:].strip('"')))
        I.ops = [v]
        I.x = (d, cs)
    elif op == "ret":
        t = p.type()
        I.ty = t
        if t.k != "void":
            I.ops = [p.value(t)]
    elif op == "unreachable":
        pass
    elif op == "call":
        while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc"):
            p.next()
        p.skip_attrs()
        t = p.type()
        fnty = None
        if t.k == "fn":
            fnty = t
            t = t.a[0]
        I.ty = t
        if p.peek() == "asm":
            raise IRError("inline asm")
        callee = p.value(None)
        p.expect("(")
        args = []
        while not p.accept(")"):
            ty = p.type()
            p.skip_attrs()
            if ty.k == "metadata":
                while p.peek() not in (",", ")"):
                    p.next()
                v = ("undef",)
            else:
                v = p.value(ty)
            args.append((ty, v))
            p.accept(",")
        I.x = {"callee": callee, "args": args}
    elif op in ("extractvalue", "insertvalue"):
        t = p.type(); v = p.value(t)
        I.ty = t
        I.ops = [v]
        if op == "insertvalue":
            p.expect(",")
            t2 = p.type(); I.ops.append(p.value(t2))
        I.x = []
        while p.accept(","):
            I.x.append(int(p.next()))
    elif op == "va_arg":
        t = p.type(); v = p.value(t)
        I.ops = [v]
    else:
        raise IRError("instruction: " + s[:200])
    return I
