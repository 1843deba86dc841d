"""Guard-partitioned abstract interpreter over LLVM IR (see DESIGN.md).

Values are value-number terms (terms.py).  Memory is a map (base object, access path) -> value.  States reaching the same
block are joined when their partition key agrees; differing values become phi symbols.  Calls are analysed by descending
into the callee (context sensitive), unless a model is registered."""
import math
import sys
from fractions import Fraction
from . import terms as T
from . import prog as PG
from .ir import IRError

sys.setrecursionlimit(20000)

K0, K1 = T.ZERO, T.ONE
MAXALT = 6


class Abort(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "rng", "ts", "frames", "vals", "gates")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.rng = {}
        self.ts = {}
        self.frames = []
        self.vals = {}       # phi symbol -> its possible values
        self.gates = {}      # (phi symbol, value) -> conditions known to hold when it has that value

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.rng = dict(self.rng)
        s.ts = dict(self.ts)
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = dict(s.frames[-1])
        s.vals = dict(self.vals)
        s.gates = dict(self.gates)
        return s

    def same(self, o):
        return (self.mem == o.mem and self.facts == o.facts and self.rng == o.rng and self.ts == o.ts and
                self.frames == o.frames and self.vals == o.vals and self.gates == o.gates)


def used(s):
    """phi symbols occurring in memory or registers"""
    u = set()
    for k, v in s.mem.items():
        if v.ph:
            u |= v.ph
        if k[0].ph:
            u |= k[0].ph
        if k[1].ph:
            u |= k[1].ph
    for f in s.frames:
        for v in f.values():
            if v.ph:
                u |= v.ph
    return u


def gc(s):
    """forget alternatives, facts and ranges of symbols that no longer occur anywhere"""
    u = used(s)
    todo = list(u)
    while todo:
        for a in s.vals.get(todo.pop(), ()):
            for p in a.ph:
                if p not in u:
                    u.add(p)
                    todo.append(p)
    s.vals = {k: v for k, v in s.vals.items() if k in u}
    s.gates = {k: g for k, g in s.gates.items() if k[1] in s.vals.get(k[0], ())}
    s.facts = {c: v for c, v in s.facts.items() if c.ph <= u}
    s.rng = {c: v for c, v in s.rng.items() if c.ph <= u}


_NOG = frozenset()
IN = T.I
NIL = T.NIL
PV = IN(('$v',))
PM = IN(('$m',))
VOID = IN(('undef', 'void'))


def kk(n):
    """integer constant"""
    return IN(('k', n))


def phis_in(t):
    """phi symbols occurring in a term"""
    return t.ph if t.__class__ is T.N else IN(t).ph


def subst(t, m):
    """replace scalar/pointer symbols (phi/ret) by terms"""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if not (phis_in(t) & m.keys()):
        return t
    if t[0] == 'ptr':
        b = subst(t[1], m)
        return mkptr(b, tuple(('i', subst(x[1], m)) if isinstance(x, tuple) else x for x in t[2]))
    if t[0] == 'lt':
        return c_lt(subst(t[1], m), subst(t[2], m))
    if t[0] == 'eq':
        return c_eq(subst(t[1], m), subst(t[2], m))
    if t[0] == 'not':
        return c_not(subst(t[1], m))
    if t[0] in ('and', 'or'):
        return (c_and if t[0] == 'and' else c_or)(subst(t[1], m), subst(t[2], m))
    if t[0] == 'init':
        return IN(('init', subst(t[1], m), tuple(('i', subst(x[1], m)) if isinstance(x, tuple) else x for x in t[2])))

    def f(kind, a):
        if a in m:
            return m[a]
        if a[0] in ('ptr', 'lt', 'eq', 'not', 'and', 'or', 'init') and (phis_in(a) & m.keys()):
            return subst(a, m)
        return None
    return T.rebuild(t, f)


def mkptr(b, path):
    while path and isinstance(path[-1], tuple) and path[-1][0] == 'i' and path[-1][1] == K0:
        path = path[:-1]
    if b[0] == 'ptr':
        return mkptr(b[1], tuple(b[2]) + tuple(path))
    if not path:
        return IN(b)
    return IN(('ptr', b, tuple(path)))


def split(p):
    """pointer value -> (base, path)"""
    if p[0] == 'ptr':
        return p[1], p[2]
    return IN(p), NIL


_CONDS = ('lt', 'eq', 'not', 'and', 'or')
_SYMS = ('phi', 'ret', 'init')
NONNULL = ('alloc', 'alloca', 'glob', 'fn', 'str')


def c_not(c):
    if c[0] == 'k':
        return K0 if c[1] != 0 else K1
    if c[0] == 'not':
        return c[1]
    return T.I(('not', c))


def is_cond(t):
    return t[0] in ('lt', 'eq', 'not', 'and', 'or')


def is_bool(t):
    """a term whose value is 0 or 1"""
    return is_cond(t) or t == K0 or t == K1


def c_and(a, b):
    if a[0] == 'k':
        return b if a[1] != 0 else K0
    if b[0] == 'k':
        return a if b[1] != 0 else K0
    if a == b:
        return a
    return T.I(('and',) + tuple(sorted((a, b), key=T.key)))


def c_or(a, b):
    if a[0] == 'k':
        return K1 if a[1] != 0 else b
    if b[0] == 'k':
        return K1 if b[1] != 0 else a
    if a == b:
        return a
    return T.I(('or',) + tuple(sorted((a, b), key=T.key)))


def _shift(a, b):
    """move numeric constants to one side: (a', b') with a' having no constant part if possible"""
    if a[0] == 'sum' and a[1] and b[0] == 'k':
        for m, c in a[1]:
            if m == ():
                k = IN(('k', c))
                return T.s_sub(a, k), T.s_sub(b, k)
    return a, b


def c_eq(a, b):
    if a == b:
        return K1
    if a[0] == 'k' and b[0] == 'k':
        return K1 if a[1] == b[1] else K0
    if b[0] != 'k' and a[0] == 'k':
        a, b = b, a
    if is_cond(a) and b[0] == 'k':
        if b[1] == 0:
            return c_not(a)
        if b[1] == 1:
            return a
        return K0
    if b == K0 and (a[0] in NONNULL or a[0] == 'ptr'):
        return K0
    ba, bb = split(a)[0], split(b)[0]
    if ba[0] in NONNULL and bb[0] in NONNULL:
        if ba != bb:
            return K0
    if b[0] == 'k':
        a, b = _shift(a, b)
        # c*x == k  ->  x == k/c
        if a[0] == 'sum' and len(a[1]) == 1:
            m, c = a[1][0]
            a, b = T._mk({m: 1}), T.num(Fraction(b[1]) / c)
        return T.I(('eq', a, b))
    if a[0] in ('sum',) or b[0] in ('sum',):
        d = T.s_sub(a, b)
        if d[0] == 'k':
            return K1 if d[1] == 0 else K0
    if T.key(a) > T.key(b):
        a, b = b, a
    return T.I(('eq', a, b))


def c_lt(a, b):
    if a == b:
        return K0
    if a[0] == 'k' and b[0] == 'k':
        return K1 if a[1] < b[1] else K0
    if a[0] == 'inf':
        return c_not(T.I(('lt', b, a))) if not a[1] else K0
    if is_cond(a) and b[0] == 'k':
        return K1 if b[1] > 1 else (K0 if b[1] <= 0 else c_not(a))
    if is_cond(b) and a[0] == 'k':
        return K1 if a[1] < 0 else (K0 if a[1] >= 1 else b)
    if b[0] == 'k':
        a, b = _shift(a, b)
    elif a[0] == 'k':
        b, a = _shift(b, a)
    else:
        d = T.s_sub(b, a) if (a[0] == 'sum' or b[0] == 'sum') else None
        if d is not None:
            if d[0] == 'k':
                return K1 if d[1] > 0 else K0
    # positive rational factor: c*x < k
    for x, y, flip in ((a, b, False), (b, a, True)):
        if y[0] == 'k' and x[0] == 'sum' and len(x[1]) == 1:
            m, c = x[1][0]
            x2, y2 = T._mk({m: 1}), T.num(Fraction(y[1]) / c)
            neg = c < 0
            if flip != neg:
                return c_lt(y2, x2) if x2 != x else T.I(('lt', y2, x2))
            return c_lt(x2, y2) if x2 != x else T.I(('lt', x2, y2))
    return T.I(('lt', a, b))


# ----------------------------------------------------------------- condition evaluation
INF = float('inf')


def rng_of(st, t):
    r = st.rng.get(t)
    if r is None:
        if t[0] == 'f' and t[1] in ('abs', 'norm', 'norm2', 'norm1', 'sqrt'):
            return (0, False, INF, False)
        if t[0] == 'k':
            return (t[1], False, t[1], False)
        return (-INF, False, INF, False)
    return r


def evalc(st, c):
    if c[0] == 'k':
        return c[1] != 0
    r = st.facts.get(c)
    if r is not None:
        return r
    if c[0] == 'not':
        r = evalc(st, c[1])
        return None if r is None else not r
    if c[0] == 'and':
        a, b = evalc(st, c[1]), evalc(st, c[2])
        if a is False or b is False:
            return False
        if a and b:
            return True
        return None
    if c[0] == 'or':
        a, b = evalc(st, c[1]), evalc(st, c[2])
        if a or b:
            return True
        if a is False and b is False:
            return False
        return None
    if c[0] == 'lt':
        a, b = c[1], c[2]
        la, las, ha, has = rng_of(st, a)
        lb, lbs, hb, hbs = rng_of(st, b)
        if ha < lb or (ha == lb and (has or lbs) and ha != INF):
            return True
        if la > hb or la == hb != INF and la != -INF:
            return False
        if st.facts.get(IN(('lt', b, a))) or st.facts.get(c_eq(a, b)):
            return False
        return None
    if c[0] == 'eq':
        a, b = c[1], c[2]
        la, las, ha, has = rng_of(st, a)
        lb, lbs, hb, hbs = rng_of(st, b)
        if ha < lb or la > hb or (ha == lb and (has or lbs)) or (la == hb and (las or hbs)):
            return False
        if la == ha == lb == hb:
            return True
        if st.facts.get(IN(('lt', a, b))) or st.facts.get(IN(('lt', b, a))):
            return False
        return None
    return None


INTS = set()          # terms known to be integer-valued (compared as integers)


def tight(t, lo, ls, hi, hs):
    """strict bounds of integers as non-strict ones"""
    if t in INTS:
        if lo != -INF and (ls or lo != int(lo)):
            lo, ls = math.floor(lo) + 1, False
        if hi != INF and (hs or hi != int(hi)):
            hi, hs = math.ceil(hi) - 1, False
    return lo, ls, hi, hs


def _refine_rng(st, c, val):
    if c[0] not in ('lt', 'eq'):
        return True
    a, b = c[1], c[2]
    if c[0] == 'eq':
        if val and b[0] == 'k':
            lo, ls, hi, hs = rng_of(st, a)
            v = b[1]
            if v < lo or v > hi:
                return False
            st.rng[a] = (v, False, v, False)
        elif not val and b[0] == 'k':
            lo, ls, hi, hs = rng_of(st, a)
            if lo == b[1] and not ls:
                ls = True
            elif hi == b[1] and not hs:
                hs = True
            else:
                return True
            lo, ls, hi, hs = tight(a, lo, ls, hi, hs)
            if lo > hi or (lo == hi and (ls or hs)):
                return False
            st.rng[a] = (lo, ls, hi, hs)
        return True
    if b[0] == 'k':
        lo, ls, hi, hs = rng_of(st, a)
        v = b[1]
        if val:
            if v < hi or (v == hi and not hs):
                hi, hs = v, True
        else:
            if v > lo:
                lo, ls = v, False
        lo, ls, hi, hs = tight(a, lo, ls, hi, hs)
        if lo > hi or (lo == hi and (ls or hs)):
            return False
        st.rng[a] = (lo, ls, hi, hs)
    elif a[0] == 'k':
        lo, ls, hi, hs = rng_of(st, b)
        v = a[1]
        if val:
            if v > lo or (v == lo and not ls):
                lo, ls = v, True
        else:
            if v < hi:
                hi, hs = v, False
        lo, ls, hi, hs = tight(b, lo, ls, hi, hs)
        if lo > hi or (lo == hi and (ls or hs)):
            return False
        st.rng[b] = (lo, ls, hi, hs)
    return True


def rng_guards(s, o):
    """bounds known in s but not in o, as conditions"""
    out = []
    for t, r in s.rng.items():
        q = rng_of(o, t)
        if r == q or t[0] == 'k':
            continue
        for c, v, new in ((IN(('lt', t, T.num(r[2]))), True, r[3]) if r[3] else (IN(('lt', T.num(r[2]), t)), False, True),
                          ) if r[2] != INF and (r[2], not r[3]) < (q[2], not q[3]) else ():
            if c not in s.facts:
                out.append((c, v))
        for c, v, new in ((IN(('lt', T.num(r[0]), t)), True, r[1]) if r[1] else (IN(('lt', t, T.num(r[0]))), False, True),
                          ) if r[0] != -INF and (r[0], r[1]) > (q[0], q[1]) else ():
            if c not in s.facts:
                out.append((c, v))
    return out


class Interp:
    def __init__(self, prog, models=None, hooks=None, keyfn=None, opaque=None, maxstates=64):
        self.prog = prog
        self.models = models or {}
        self.hooks = hooks
        self.keyfn = keyfn
        self.opaque = opaque or set()    # defined functions not to descend into (unknown effect, no model)
        self.ctxs = [None]               # ctx id -> (parent ctx, call inst)
        self.ctxmap = {}
        self.cur = []                    # current call chain (function names)
        self.maxstates = maxstates
        self.stats = {"functions": set(), "calls": 0, "blocks": 0, "joins": 0, "unmodelled": {}, "branches": set()}
        self.swap_canon = True
        self.exact_ind = False
        self.fork_alloc = False
        self.budget = None
        self.blocks = None            # limit on the number of block executions
        self.peel = 0                    # call depth up to which the first iteration of loops is kept apart

    # ------------------------------------------------------------- contexts / reporting
    def subctx(self, ctx, inst):
        k = (ctx, id(inst))
        r = self.ctxmap.get(k)
        if r is None:
            r = len(self.ctxs)
            self.ctxs.append((ctx, inst))
            self.ctxmap[k] = r
        return r

    def where(self, inst, ctx=None):
        """'file:line (function) <- call chain'"""
        f, l, fn = inst.fn.module.loc(inst.dbg)
        s = "%s:%d (%s)" % (PG.rel(f or inst.fn.module.src), l, fn or inst.fn.name)
        chain = []
        while ctx:
            p, ci = self.ctxs[ctx]
            f2, l2, fn2 = ci.fn.module.loc(ci.dbg)
            chain.append("%s:%d (%s)" % (PG.rel(f2 or ci.fn.module.src), l2, fn2 or ci.fn.name))
            ctx = p
        if chain:
            s += " called from " + " <- ".join(chain)
        return s

    def line(self, inst):
        f, l, fn = inst.fn.module.loc(inst.dbg)
        return "%s:%d" % (PG.rel(f or inst.fn.module.src), l)

    # ------------------------------------------------------------- values
    def val(self, st, v, mod):
        k = v[0]
        if k == 'reg':
            r = st.frames[-1].get(v[1])
            if r is None:
                return IN(('undef', v[1]))
            return r
        if k == 'const':
            return IN(('k', v[1]))
        if k == 'fconst':
            return T.K(v[1])
        if k == 'glob':
            n = v[1]
            f = self.prog.resolve(n, mod)
            if f is not None:
                return IN(('fn', n if not f.internal else f.qname))
            if n in mod.decls:
                return IN(('fn', n))
            g = mod.globals.get(n)
            if g is not None and g.internal:
                return IN(('glob', mod.src.rsplit('/', 1)[1] + ":" + n))
            return IN(('glob', n))
        if k == 'zero':
            return K0
        if k == 'undef':
            return IN(('undef', ''))
        if k == 'cgep':
            b = self.val(st, v[2][0][1], mod)
            return self.gep(st, b, v[1], [(t, self.val(st, x, mod)) for t, x in v[2][1:]], mod)
        if k == 'str':
            return IN(('str', v[1]))
        if k == 'cbin':
            return IN(('undef', 'cbin'))
        if k == 'agg':
            return IN(('undef', 'agg'))
        raise IRError("val " + str(v))

    def globinit(self, base):
        """Global object for a ('glob', name) base"""
        n = base[1]
        if ":" in n:
            fn, nm = n.split(":", 1)
            for m in self.prog.modules:
                if m.src.endswith("/" + fn) and nm in m.globals:
                    return m.globals[nm], m
            return None, None
        g = self.prog.globals.get(n)
        if g is not None:
            return g, g.module
        return None, None

    def gep(self, st, base, ty, idx, mod):
        path = []
        k0 = idx[0][1]
        if k0 is not K0:
            path.append(('i', k0))
        cur = ty
        for t, i in idx[1:]:
            if cur.k == 'struct':
                path.append(self.prog.fieldname(cur.a, int(i[1])))
                cur = mod.structs[cur.a][int(i[1])]
            elif cur.k == 'lit':
                path.append("#%d" % int(i[1]))
                cur = cur.a[int(i[1])]
            elif cur.k in ('array', 'vector'):
                path.append(('i', i))
                cur = cur.b
            else:
                raise IRError("gep into %r" % cur)
        # normalise index arithmetic on an existing trailing index
        b, p = split(base)
        if path and isinstance(path[0], tuple) and p and isinstance(p[-1], tuple):
            path[0] = ('i', T.s_add(p[-1][1], path[0][1]))
            p = tuple(p[:-1])
        path = [x for j, x in enumerate(path) if not (isinstance(x, tuple) and x[1] == K0)]
        return mkptr(b, tuple(p) + tuple(path))

    # ------------------------------------------------------------- memory
    def default(self, base, path):
        b = base[0]
        if b == 'alloc':
            if base[3] == 'z':
                return K0
            if base[3] == 'linsys':          # initialised by the backend
                return T.I(('init', base, path))
            return IN(('undef', (base, path)))
        if b == 'alloca':
            return IN(('undef', (base, path)))
        if b == 'glob':
            g, m = self.globinit(base)
            if g is not None and g.const:
                v = self._globval(g, m, path)
                if v is not None:
                    return v
        return T.I(('init', base, path))

    def _globval(self, g, m, path):
        v = g.init
        ty = g.ty
        for p in path:
            if v is None:
                return None
            if v[0] == 'zero':
                return K0
            if isinstance(p, tuple):
                if p[1][0] != 'k':
                    return None
                k = int(p[1][1])
                if v[0] == 'str':
                    return kk(ord(v[1][k]) if k < len(v[1]) else 0)
                if v[0] != 'agg' or k >= len(v[1]) or k < 0:
                    return None
                v = v[1][k]
                ty = ty.b
            else:
                names = self.prog.fields.get(ty.a) if ty.k == 'struct' else None
                if not names or p not in names:
                    return None
                k = names.index(p)
                ty = m.structs[ty.a][k]
                v = v[1][k]
        while v is not None and v[0] == 'agg' and v[1] and ty.k in ('array', 'struct'):
            v = v[1][0]
        if v is None or v[0] == 'agg':
            return None
        if v[0] == 'str':
            return kk(ord(v[1][0])) if v[1] else None
        s = State()
        s.frames = [{}]
        return self.val(s, v, m)

    def load(self, st, p):
        base, path = split(p)
        k = (base, path)
        r = st.mem.get(k)
        if r is not None:
            return r
        if path and isinstance(path[-1], tuple):
            ver = st.mem.get((base, IN(path[:-1] + ('$ver',))))
            if ver is not None:
                return IN(('elem', base, path, ver))
        else:
            ver = st.mem.get((base, IN(path + ('$ver',))))
            if ver is not None:
                return IN(('elem', base, path + (('i', K0),), ver))
        return self.default(base, path)

    def store(self, st, p, v, site=None):
        base, path = split(p)
        if path and isinstance(path[-1], tuple):
            arr = IN(path[:-1])
            idx = path[-1][1]
            for k in [k for k in st.mem if k[0] == base and len(k[1]) == len(path) and IN(k[1][:-1]) is arr and isinstance(k[1][-1], tuple)]:
                o = k[1][-1][1]
                d = T.s_sub(o, idx)
                if d[0] != 'k' or d[1] == 0:
                    del st.mem[k]
            if idx[0] != 'k':
                k0 = (base, arr)
                if k0 in st.mem and not phis_in(k0):
                    del st.mem[k0]
            kv = (base, IN(arr + ('$ver',)))
            if idx[0] != 'k':
                st.mem[kv] = IN(('ver', site))
        st.mem[(base, path)] = IN(v)

    def drop(self, st, base):
        for k in [k for k in st.mem if k[0] == base]:
            del st.mem[k]

    def havoc(self, st, p, sym):
        """forget everything reachable directly inside the object pointed to"""
        base, path = split(p)
        n = len(path)
        hit = False
        for k in [k for k in st.mem if k[0] == base and IN(k[1][:n]) is path]:
            st.mem[k] = IN(('ret',) + tuple(sym) + (k[1],))
            hit = True
        st.mem[(base, path)] = IN(('ret',) + tuple(sym) + (path,))

    def vec(self, st, p):
        """content of a vector object"""
        if p[0] == 'k':
            return IN(('badvec', p))
        base, path = split(p)
        r = st.mem.get((base, IN(path + ('$v',))))
        if r is not None:
            return r
        if base[0] == 'alloc':
            return T.V({}) if base[3] in ('z', 'c') else T.v_atom(IN(('undef', base)))
        return T.v_atom(IN(('init', p, ('$v',))))

    def setvec(self, st, p, v, inst=None, ctx=None):
        base, path = split(p)
        if self.hooks and hasattr(self.hooks, 'on_setvec'):
            self.hooks.on_setvec(self, st, p, v, inst, ctx)
        st.mem[(base, IN(path + ('$v',)))] = v

    def mat(self, st, p):
        base, path = split(p)
        r = st.mem.get((base, IN(path + ('$m',))))
        if r is not None:
            return r
        return T.m_atom(IN(('init', p, ('$m',))))

    def setmat(self, st, p, v, inst=None, ctx=None):
        base, path = split(p)
        if self.hooks and hasattr(self.hooks, 'on_setmat'):
            self.hooks.on_setmat(self, st, p, v, inst, ctx)
        st.mem[(base, IN(path + ('$m',)))] = v

    # ------------------------------------------------------------- symbols
    def fresh(self, st, sym):
        sym = IN(sym)
        """a symbol about to be (re)defined: retire facts/values that mention the previous definition"""
        if sym in st.vals or sym in st.rng or any(sym in k.ph for k in st.facts) or sym in used(st):
            old = IN(('phi', sym[1], 'stale', sym))
            self.substall(st, {sym: old})
            for k in [k for k in st.facts if old in phis_in(k)]:
                del st.facts[k]
            for k in [k for k in st.rng if old in phis_in(k)]:
                del st.rng[k]
        return sym

    def substall(self, st, m):
        ks = m.keys()
        for k, v in list(st.mem.items()):
            if phis_in(v) & ks:
                st.mem[k] = subst(v, m)
            if phis_in(k[0]) & ks or phis_in(k[1]) & ks:
                b = subst(k[0], m)
                bb, pp = split(b)
                p2 = tuple(pp) + tuple(('i', subst(x[1], m)) if isinstance(x, tuple) and x[0] == 'i' else x for x in k[1])
                vv = st.mem.pop(k)
                st.mem[(bb, IN(p2))] = vv
        for i, f in enumerate(st.frames):
            g = None
            for r, v in f.items():
                if phis_in(v) & ks:
                    if g is None:
                        g = dict(f)
                    g[r] = subst(v, m)
            if g is not None:
                st.frames[i] = g
        nf = {}
        for c, b in st.facts.items():
            if phis_in(c) & ks:
                c2 = subst(c, m)
                if c2[0] == 'k':
                    continue
                nf[c2] = b
            else:
                nf[c] = b
        st.facts = nf
        nr = {}
        for t, r in st.rng.items():
            if phis_in(t) & ks:
                t2 = subst(t, m)
                if t2[0] == 'k':
                    continue
                nr[t2] = r
            else:
                nr[t] = r
        st.rng = nr
        for s in list(ks):
            st.vals.pop(s, None)
        for s, alts in list(st.vals.items()):
            if any(a.ph & ks for a in alts):
                st.vals[s] = tuple(dict.fromkeys(subst(a, m) for a in alts))
        if st.gates:
            ng = {}
            for (s, a), g in st.gates.items():
                if s in ks:
                    continue
                if a.ph & ks:
                    a = subst(a, m)
                if any(c.ph & ks for c, _ in g):
                    g = frozenset((c if not (c.ph & ks) else subst(c, m), v) for c, v in g)
                    g = frozenset((c, v) for c, v in g if c[0] != 'k')
                if (s, a) in ng:
                    g = g & ng[(s, a)]
                ng[(s, a)] = g
            st.gates = ng

    # ------------------------------------------------------------- branching
    def assume(self, st, c, val):
        """refine a copy of st with condition c == val; None if infeasible"""
        if c[0] == 'k':
            return st if (c[1] != 0) == val else None
        if c[0] == 'not':
            return self.assume(st, c[1], not val)
        r = evalc(st, c)
        if r is not None:
            return st if r == val else None
        if not is_cond(c):
            return self.assume(st, c_eq(c, K0), not val)
        # alternatives
        ph = sorted([p for p in phis_in(c) if p in st.vals], key=lambda p: p.id)
        if ph and len(ph) <= 2:
            combos = [()]
            for p in ph:
                combos = [x + (a,) for x in combos for a in st.vals[p]]
            if len(combos) <= 16:
                keep = []
                for co in combos:
                    m = dict(zip(ph, co))
                    c2 = subst(c, m)
                    if not is_cond(c2) and c2[0] != 'k':
                        keep.append(co)
                        continue
                    e = evalc(st, c2)
                    if e is None or e == val:
                        keep.append(co)
                if not keep:
                    return None
                if len(keep) < len(combos):
                    st = st.copy()
                    m = {}
                    for j, p in enumerate(ph):
                        al = tuple(dict.fromkeys(k[j] for k in keep))
                        if len(al) == 1:
                            m[p] = al[0]
                        else:
                            st.vals[p] = al
                    if m:
                        self.substall(st, m)
                        c = subst(c, m)
                        return self.assume(st, c, val)
                    if len(ph) == 1:
                        # condition fully captured when it decides every remaining alternative
                        pass
        st = st.copy()
        if c[0] == 'and' and val or c[0] == 'or' and not val:
            for x in c[1:]:
                st = self.assume(st, x, val)
                if st is None:
                    return None
            return st
        if c[0] == 'and' and not val or c[0] == 'or' and val:
            open_ = [x for x in c[1:] if evalc(st, x) is None]
            if len(open_) == 1:
                return self.assume(st, open_[0], val)
        if not _refine_rng(st, c, val):
            return None
        st.facts[c] = val
        if c[0] == 'eq' and val and c[2][0] == 'k' and c[1][0] in ('phi', 'ret'):
            self.substall(st, {c[1]: c[2]})
        return st

    # ------------------------------------------------------------- joins
    def _joinval(self, sym, a, b, out, s1, s2, widen):
        """join two values at symbol sym (already known to differ)"""
        al, gs, unknown = self._alts(sym, sym, a, b, s1, s2)
        if widen:
            if not all(x[0] == 'k' or x[0] in ('init', 'alloc', 'fn', 'glob') and not phis_in(x) for x in al) or len(al) > 3:
                unknown = True
        elif len(al) > MAXALT:
            unknown = True
        self._setalts(out, sym, None if unknown else al, gs)
        return sym

    def _alts(self, sym, symval, a, b, s1, s2):
        al = []
        gs = {}
        unknown = False
        for v, s, g in ((a, s1, self._g[0]), (b, s2, self._g[1])):
            if v is symval:
                if sym in s.vals:
                    for x in s.vals[sym]:
                        al.append(x)
                        gx = s.gates.get((sym, x), _NOG) | g
                        gs[x] = gx if x not in gs else gs[x] & gx
                else:
                    unknown = True
            else:
                al.append(v)
                gs[v] = g if v not in gs else gs[v] & g
        al = list(dict.fromkeys(al))
        if any(sym in x.ph for x in al):
            unknown = True
        return al, gs, unknown

    def _setalts(self, out, sym, al, gs):
        for x in out.vals.get(sym, ()):
            out.gates.pop((sym, x), None)
        if al is None:
            out.vals.pop(sym, None)
            return
        out.vals[sym] = tuple(al)
        for x in al:
            out.gates.pop((sym, x), None)
            g = frozenset(c for c in gs.get(x, ()) if sym not in c[0].ph)
            if g:
                out.gates[(sym, x)] = g

    def join(self, s1, s2, ctx, blk, widen):
        """least upper bound of two states at blk"""
        self.stats["joins"] += 1
        o = State()
        site = (ctx, blk.fn.name + "/" + blk.name)
        self.jsite, self.jwiden = site, widen
        for k, g in s1.gates.items():
            h = s2.gates.get(k)
            if h is None or h is g:
                if h is g or k[0] not in s2.vals or k[1] not in s2.vals[k[0]]:
                    o.gates[k] = g
            else:
                h = g & h
                if h:
                    o.gates[k] = h
        for k, g in s2.gates.items():
            if k not in s1.gates and (k[0] not in s1.vals or k[1] not in s1.vals[k[0]]):
                o.gates[k] = g
        if widen:
            self._g = (_NOG, _NOG)
        else:
            f1, f2 = s1.facts, s2.facts
            g1 = [(c, v) for c, v in f1.items() if f2.get(c) is not v]
            g2 = [(c, v) for c, v in f2.items() if f1.get(c) is not v]
            if s1.rng != s2.rng:
                g1 += rng_guards(s1, s2)
                g2 += rng_guards(s2, s1)
            g1, g2 = g1[-12:], g2[-12:]
            self._g = (frozenset(g1), frozenset(g2))
        v1, v2 = s1.vals, s2.vals
        u1 = u2 = None
        for k, v in v1.items():
            w = v2.get(k)
            if w is v:
                o.vals[k] = v
            elif w is not None:
                if w != v:
                    v = tuple(dict.fromkeys(v + w))
                    if len(v) > MAXALT:
                        continue
                o.vals[k] = v
            else:
                # used in both states with unknown alternatives in one -> unknown
                if u2 is None:
                    u2 = used(s2)
                if k not in u2:
                    o.vals[k] = v
        for k, v in v2.items():
            if k not in v1:
                if u1 is None:
                    u1 = used(s1)
                if k not in u1:
                    o.vals[k] = v
        for k in list(s1.mem) + [k for k in s2.mem if k not in s1.mem]:
            a = s1.mem.get(k)
            b = s2.mem.get(k)
            if a is None or b is None:
                base = k[0]
                other = s1 if a is None else s2
                if base[0] in ('alloc', 'alloca') and base not in other.ts.get('$objs', ()) and not any(x[0] == base for x in ()):
                    # object does not exist on the other path
                    if ('$live', base) not in other.ts:
                        o.mem[k] = a if a is not None else b
                        continue
                if a is None:
                    a = self._missing(s1, k)
                else:
                    b = self._missing(s2, k)
            if a == b:
                o.mem[k] = a
            elif k[1] and k[1][-1] == '$ver':
                o.mem[k] = a if T.key(a) > T.key(b) else b
            else:
                sym = T.I(('phi', site[0], site[1], ('m', k)))
                if k[1] and k[1][-1] == '$v':
                    o.mem[k] = self._joinvec(sym, a, b, o, s1, s2, widen)
                elif k[1] and k[1][-1] == '$m':
                    o.mem[k] = T.m_atom(sym)
                else:
                    o.mem[k] = self._joinval(sym, a, b, o, s1, s2, widen)
        for c in s1.facts:
            if s2.facts.get(c) == s1.facts[c]:
                o.facts[c] = s1.facts[c]
        for t in s1.rng:
            if t not in s2.rng:
                continue
            a, b = s1.rng[t], s2.rng[t]
            if a == b:
                o.rng[t] = a
            elif not widen:
                lo = min((a[0], a[1]), (b[0], b[1]), key=lambda x: (x[0], x[1]))
                hi = max((a[2], not a[3]), (b[2], not b[3]))
                o.rng[t] = (lo[0], lo[1], hi[0], not hi[1])
        # values known constant in one state and ranged in the other are dropped: sound
        o.ts = self.hooks.join_ts(s1.ts, s2.ts) if self.hooks and hasattr(self.hooks, 'join_ts') else \
            {k: v for k, v in s1.ts.items() if s2.ts.get(k) == v}
        n = len(s1.frames)
        for i in range(n):
            f1, f2 = s1.frames[i], s2.frames[i]
            if f1 is f2 or f1 == f2:
                o.frames.append(dict(f1) if i == n - 1 else f1)
                continue
            f = {}
            top = i == n - 1
            for r in [r for r in f1 if r in f2]:
                a, b = f1[r], f2[r]
                if a == b:
                    f[r] = a
                elif top and r not in blk.livein and not any(x.op == 'phi' and x.res == r for x in blk.insts):
                    continue
                else:
                    sym = IN(('phi', site[0], site[1], ("r" if top else "r%d" % i) + ":" + r))
                    f[r] = self._joinval(sym, a, b, o, s1, s2, widen)
            o.frames.append(f)
        if self.hooks and hasattr(self.hooks, 'on_join'):
            self.hooks.on_join(self, s1, s2, o)
        if widen or blk.__class__ is _Exit:
            gc(o)
        return o

    def _missing(self, s, k):
        base, path = k
        if path and path[-1] == '$v':
            return self.vec(s, mkptr(base, path[:-1]))
        if path and path[-1] == '$m':
            return self.mat(s, mkptr(base, path[:-1]))
        if path and path[-1] == '$ver':
            return IN(('ver', 0))
        return self.load(s, mkptr(base, path) if path else base)

    def _joinvec(self, sym, a, b, o, s1, s2, widen):
        va = T.v_atom(sym)
        al, gs, unknown = self._alts(sym, va, a, b, s1, s2)
        if widen or len(al) > MAXALT:
            unknown = True
        self._setalts(o, sym, None if unknown else al, gs)
        return va

    def canon(self, st):
        """undo permutations of owner fields (pointer swaps): rename object identities to their canonical owner"""
        m = {}
        for (base, path), v in st.mem.items():
            if not path or isinstance(path[-1], tuple) or not isinstance(path[-1], str) or path[-1][0] == '$':
                continue
            if v[0] == 'init' and v is not IN(('init', base, path)) and v[1] == base and v[2] and isinstance(v[2][-1], str):
                m[v] = IN(('init', base, path))
        m = {a: b for a, b in m.items() if b in m}
        while True:
            dom, img = set(m), set(m.values())
            bad = [a for a in m if m[a] not in dom or a not in img]
            if not bad:
                break
            for a in bad:
                del m[a]
        if not m or len(set(m.values())) != len(m):
            return st
        # only genuine objects (used as pointers): skip plain integer fields that happen to be swapped
        st = st.copy()
        for o in m:
            if (o, PV) not in st.mem:
                st.mem[(o, PV)] = self.vec(st, o)

        def rn(v):
            if v in m:
                return m[v]
            if v[0] == 'ptr' and v[1] in m:
                return IN(('ptr', m[v[1]], v[2]))
            return v
        st.mem = {(m.get(k[0], k[0]), k[1]): rn(v) for k, v in st.mem.items()}
        st.mem = {k: v for k, v in st.mem.items() if v is not IN(('init',) + k)}
        st.frames = [{r: rn(v) for r, v in f.items()} for f in st.frames]
        st.ts = {k: v for k, v in st.ts.items()}
        return st

    # ------------------------------------------------------------- execution
    def run(self, fn, args, st, ctx=0):
        """analyse fn from state st; returns [(return value, state)]"""
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                raise Abort("analysis budget exhausted in " + fn.name)
        self.stats["functions"].add(fn.qname)
        self.cur.append(fn)
        if len(self.cur) > 60:
            raise Abort("call depth")
        env = {}
        for (t, r), a in zip(fn.args, args):
            env[r] = IN(a)
        st = st.copy()
        st.frames.append(env)
        table = {b: {} for b in fn.order}
        allocas = {fn.name + ":" + i.res for b in fn.order for i in b.insts if i.op == 'alloca'}
        import heapq
        work = []
        queued = set()
        exits = {}
        nsteps = 0
        cnt = [0]

        incoming = {b: {} for b in fn.order}      # non-loop-head blocks: key -> {edge: latest state along it}
        outs = {}                                 # (block, key) -> edges fed by its latest execution
        exits_of = {}                             # (block, key) -> exits of its latest execution

        def push(b, k):
            if (b, k) not in queued:
                queued.add((b, k))
                cnt[0] += 1
                heapq.heappush(work, (b.rpo, cnt[0], b, k))

        def rejoin(b, k):
            """recompute the state of a block that is no loop head from its incoming edges"""
            inc = incoming[b].get(k)
            if not inc:
                table[b].pop(k, None)
                retract(b, k, ())
                exits_of.pop((b, k), None)
                return
            j = None
            for s in inc.values():
                if j is None:
                    j = s
                else:
                    if self.swap_canon:
                        s = self.canon(s)
                        j = self.canon(j)
                    j = self.join(j, s, ctx, b, False)
            old = table[b].get(k)
            if old is not None and j.same(old):
                return
            table[b][k] = j
            push(b, k)

        def retract(b, k, new):
            """edges fed by an earlier execution of (b, k) but not by the latest one"""
            for e in outs.get((b, k), ()):
                if e in new:
                    continue
                succ, k2, src = e
                inc = incoming[succ].get(k2)
                if inc and src in inc:
                    del inc[src]
                    rejoin(succ, k2)
            outs[(b, k)] = list(new)

        joins, drop = {}, {}

        def arrive(b, pred, s, src=None):
            """state s flows along pred->b"""
            s = s.copy()
            f = s.frames[-1]
            if pred is not None:
                news = {}
                for i in b.insts:
                    if i.op != 'phi':
                        break
                    for v, pb in i.x:
                        if pb == pred.name:
                            news[i.res] = self.val(s, v, fn.module)
                            break
                if b.loophead:
                    self._induct(fn, b, pred, news, s, ctx)
                    f = s.frames[-1]
                f.update(news)
                for r, v in f.items():
                    # conditions already decided in this state
                    if v[0] in _CONDS:
                        d = evalc(s, v)
                        if d is not None:
                            f[r] = K1 if d else K0
                    elif v[0] in _SYMS:
                        d = s.rng.get(v)
                        if d is not None and d[0] == d[2] and d[0] in (0, 1):
                            f[r] = kk(d[0])
                keepr = b.livein | news.keys()
                for r in [r for r in f if r not in keepr]:
                    del f[r]
            if b.loophead and self.swap_canon:
                s = self.canon(s)
            k = self.key(s, b, fn, ctx)
            if b.loophead and len(self.cur) <= self.peel:
                k = (k, pred is not None and self.dominated_by(fn, b, pred))
            t = table[b]
            old = t.get(k)
            if old is None:
                if len(t) >= self.maxstates:
                    k = ('overflow',)
                    old = t.get(k)
            if not b.loophead:
                inc = incoming[b].setdefault(k, {})
                o = inc.get(src)
                if o is not None and old is not None and o.same(s):
                    return (b, k, src)
                inc[src] = s
                rejoin(b, k)
                return (b, k, src)
            if old is None:
                t[k] = s
            else:
                s = self._age(s, ctx, b)
                if self.swap_canon:
                    s = self.canon(s)
                    old = self.canon(old)
                j = self.join(old, s, ctx, b, True)
                if j.same(old):
                    return None
                nj = joins[(b, k)] = joins.get((b, k), 0) + 1
                if nj > 24:
                    # alternatives of symbols that still change are given up, for good
                    d = drop.setdefault((b, k), set())
                    d |= {x for x in set(j.vals) | set(old.vals) if j.vals.get(x) != old.vals.get(x)}
                    d |= {x[0] for x in set(j.gates) | set(old.gates) if j.gates.get(x) != old.gates.get(x)}
                    j.vals = {x: v for x, v in j.vals.items() if x not in d}
                    j.gates = {x: v for x, v in j.gates.items() if x[0] not in d}
                    if j.same(old):
                        return None
                t[k] = j
            push(b, k)
            return None

        arrive(fn.entry(), None, st)
        while work:
            _, _, b, k = heapq.heappop(work)
            queued.discard((b, k))
            if k not in table[b]:
                continue
            nsteps += 1
            if getattr(self, "bstat", None) is not None:
                self.bstat[(fn.name, b, hash(k))] = self.bstat.get((fn.name, b, hash(k)), 0) + 1
            if nsteps > 20000:
                raise Abort("fixpoint does not converge in " + fn.name)
            s = table[b][k].copy()
            self.stats["blocks"] += 1
            new = []
            ex = []
            results = list(self.exec_block(fn, b, s, ctx))
            for n, (kind, x, s2) in enumerate(results):
                if kind == 'ret':
                    s2 = s2.copy()
                    s2.frames.pop()
                    if s2.frames:
                        s2.frames[-1] = dict(s2.frames[-1])
                    if allocas:
                        for q in [q for q in s2.mem if q[0][0] == 'alloca' and q[0][1] == ctx and q[0][2] in allocas]:
                            del s2.mem[q]
                    ex.append(((self.retkey(x), self.gkey(s2)), x, s2))
                else:
                    e = arrive(x, b, s2, (b, k, n))
                    if e is not None:
                        new.append(e)
            retract(b, k, new)
            if ex:
                exits_of[(b, k)] = ex
            else:
                exits_of.pop((b, k), None)
        for (b, k), ex in exits_of.items():
            for ek, x, s2 in ex:
                old = exits.get(ek)
                if old is None:
                    exits[ek] = (x, s2)
                else:
                    exits[ek] = self._joinexit(old, (x, s2), ctx, fn, b)
        self.cur.pop()
        return list(exits.values())

    def _induct(self, fn, b, pred, news, s, ctx):
        """loop-carried registers become symbols at once (no separate first-iteration state); a counter that starts at a
        constant and only grows keeps that constant as lower bound"""
        peel = len(self.cur) <= self.peel
        if self.dominated_by(fn, b, pred):
            for i in b.insts:
                if i.op != 'phi':
                    break
                if ('ind', i.res) in self._indcache(fn, b):
                    sym = IN(('phi', ctx, fn.name + "/" + b.name, "r:" + i.res))
                    v = news.get(i.res)
                    if v is not sym:
                        if self.exact_ind:
                            d = T.s_sub(v, sym)
                            if d[0] == 'k' and d[1] != 0:
                                if peel:
                                    self._shift(s, sym, d)
                                else:
                                    self.hooks.on_step(self, s, sym, T.s_sub(sym, d))
                        if peel and v[0] == 'k':
                            s = self.fresh(s, sym) and s
                            s.rng[sym] = (v[1], False, INF, False)
                            if self.exact_ind:
                                self.hooks.on_induct(self, s, v, sym)
                        elif peel:
                            lo = s.rng.get(sym)
                            for c in [c for c in s.rng if sym in c.ph and c is not sym]:
                                del s.rng[c]
                            if lo is not None:
                                s.rng[sym] = (lo[0], lo[1], INF, False)
                        news[i.res] = sym
            return
        if peel:
            return
        for i in b.insts:
            if i.op != 'phi':
                break
            if ('ind', i.res) in self._indcache(fn, b):
                sym = self.fresh(s, ('phi', ctx, fn.name + "/" + b.name, "r:" + i.res))
                v0 = news[i.res]
                news[i.res] = sym
                if v0[0] == 'k':
                    s.rng[sym] = (v0[1], False, INF, False)
                    if self.exact_ind:
                        self.hooks.on_induct(self, s, v0, sym)

    def _shift(self, s, sym, d):
        """the counter takes its next value: its previous one is (new value - d)"""
        old = T.s_sub(sym, d)
        rng = s.rng.get(sym)
        facts = [(c, v) for c, v in s.facts.items() if sym in c.ph]
        self.substall(s, {sym: old})
        for c, v in facts:
            s.facts.pop(c, None)
        for c in [c for c in s.rng if sym in c.ph and c is not sym]:
            del s.rng[c]
        if rng is not None:
            s.rng[sym] = rng

    def dominated_by(self, fn, b, pred):
        return pred.rpo >= b.rpo

    def _indcache(self, fn, b):
        r = b.indvars
        if r is None:
            r = set()
            defs = {i.res: i for bb in fn.order for i in bb.insts if i.res is not None}
            for i in b.insts:
                if i.op != 'phi':
                    break
                ok = False
                for v, pb in i.x:
                    if fn.blocks[pb].rpo < b.rpo:
                        continue
                    d = defs.get(v[1]) if v[0] == 'reg' else None
                    if d is not None and d.op == 'add' and d.ops[0] == ('reg', i.res) and d.ops[1][0] == 'const' and d.ops[1][1] > 0:
                        ok = True
                    else:
                        ok = False
                        break
                if ok:
                    r.add(('ind', i.res))
            b.indvars = r
        return r

    def _joinexit(self, a, b, ctx, fn, blk):
        # join with the return value kept in a pseudo frame
        s1, s2 = a[1].copy(), b[1].copy()
        s1.frames.append({'$ret': a[0]} if a[0] is not None else {})
        s2.frames.append({'$ret': b[0]} if b[0] is not None else {})
        eb = _Exit(fn)
        j = self.join(s1, s2, ctx, eb, False)
        fr = j.frames.pop()
        return (fr.get('$ret'), j)

    def _age(self, s, ctx, b):
        """values of this loop head's phi symbols in a back-edge state belong to the previous iteration: facts about
        them no longer describe the new iteration's symbols"""
        site1, site2 = ctx, b.fn.name + "/" + b.name

        def mine(p):
            return p[0] == 'phi' and p[1] == site1 and p[2] == site2
        dead = [c for c in s.facts if any(mine(p) for p in phis_in(c))]
        deadr = [c for c in s.rng if any(mine(p) for p in phis_in(c)) and not (mine(c) and self._isind(c, b))]
        deadg = [k for k, g in s.gates.items() if any(mine(p) for c, _ in g for p in c.ph)]
        if dead or deadr or deadg:
            s = s.copy()
            for k in deadg:
                g = frozenset(cv for cv in s.gates[k] if not any(mine(p) for p in cv[0].ph))
                if g:
                    s.gates[k] = g
                else:
                    del s.gates[k]
            for c in dead:
                del s.facts[c]
            for c in deadr:
                del s.rng[c]
        return s

    def _isind(self, c, b):
        return len(self.cur) <= self.peel and isinstance(c[3], str) and ('ind', c[3][2:]) in self._indcache(b.fn, b)

    def retkey(self, x):
        if x is None:
            return None
        if x[0] == 'k':
            return x
        if x[0] in NONNULL or x[0] == 'ptr':
            return 'nn'
        return '?'

    def gkey(self, s):
        return self.keyfn(self, s) if self.keyfn else ()

    def key(self, s, b, fn, ctx):
        f = s.frames[-1]
        cs = []
        heads = ()
        skip = set()
        if b.loophead:
            skip = {i.res for i in b.insts if i.op == 'phi'}
        for r in b.livein:
            v = f.get(r)
            if v is not None and r not in skip:
                if v[0] == 'k':
                    cs.append((r, v))
        for i in b.insts:
            if i.op != 'phi':
                break
            v = f.get(i.res)
            if v is None or v[0] != 'k':
                continue
            if i.res not in skip:
                if i.res not in b.livein:
                    cs.append((i.res, v))
            elif v[1] in (0, 1) and len(self.cur) <= self.peel and ('ind', i.res) not in self._indcache(fn, b):
                cs.append((i.res, v))        # flags carried around the loop
        cs.sort(key=lambda x: x[0])
        return (self.gkey(s), tuple(cs))

    def exec_block(self, fn, b, st, ctx):
        """generator of ('br', succ, state) / ('ret', value, state)"""
        if self.blocks is not None:
            self.blocks -= 1
            if self.blocks < 0:
                raise Abort("analysis budget exhausted in " + fn.name)
        stack = [(0, st)]
        while stack:
            i, s = stack.pop()
            n = len(b.insts)
            while i < n:
                inst = b.insts[i]
                op = inst.op
                i += 1
                if op == 'phi':
                    continue
                if op == 'call':
                    res = self.call(fn, inst, s, ctx)
                    if len(res) == 0:
                        break
                    for rv, s2 in res[1:]:
                        if inst.res is not None:
                            s2.frames[-1][inst.res] = IN(rv) if rv is not None else VOID
                        stack.append((i, s2))
                    rv, s = res[0]
                    if inst.res is not None:
                        s.frames[-1][inst.res] = IN(rv) if rv is not None else VOID
                    continue
                if op == 'br':
                    if len(inst.x) == 1:
                        yield ('br', fn.blocks[inst.x[0]], s)
                    else:
                        c = self.val(s, inst.ops[0], fn.module)
                        if self.hooks and hasattr(self.hooks, 'on_branch'):
                            self.hooks.on_branch(self, s, c, inst, ctx)
                        self.stats["branches"].add(id(inst))
                        for lbl, v in ((inst.x[0], True), (inst.x[1], False)):
                            s2 = self.assume(s, c, v)
                            if s2 is not None:
                                yield ('br', fn.blocks[lbl], s2)
                    break
                if op == 'switch':
                    v = self.val(s, inst.ops[0], fn.module)
                    dflt, cases = inst.x
                    rest = s
                    for cv, lbl in cases:
                        if rest is None:
                            break
                        c = c_eq(v, kk(cv))
                        s2 = self.assume(rest, c, True)
                        if s2 is not None:
                            yield ('br', fn.blocks[lbl], s2)
                        rest = self.assume(rest, c, False)
                    if rest is not None:
                        yield ('br', fn.blocks[dflt], rest)
                    break
                if op == 'ret':
                    v = self.val(s, inst.ops[0], fn.module) if inst.ops else None
                    if self.hooks and hasattr(self.hooks, 'on_ret'):
                        self.hooks.on_ret(self, s, v, inst, ctx)
                    yield ('ret', v, s)
                    break
                if op == 'unreachable':
                    break
                self.step(fn, inst, s, ctx)

    def step(self, fn, inst, s, ctx):
        op = inst.op
        f = s.frames[-1]
        mod = fn.module
        H = self.hooks
        if op == 'load':
            p = self.val(s, inst.ops[0], mod)
            if H and hasattr(H, 'on_deref'):
                H.on_deref(self, s, p, inst, ctx, False)
            v = self.load(s, p)
            if H and hasattr(H, 'on_load'):
                v2 = H.on_load(self, s, p, v, inst, ctx)
                if v2 is not None:
                    v = v2
            f[inst.res] = v
        elif op == 'store':
            v = self.val(s, inst.ops[0], mod)
            p = self.val(s, inst.ops[1], mod)
            if H and hasattr(H, 'on_deref'):
                H.on_deref(self, s, p, inst, ctx, True)
            if H and hasattr(H, 'on_store'):
                H.on_store(self, s, p, v, inst, ctx)
            self.store(s, p, v, (ctx, self.line(inst), inst.idx))
        elif op == 'gep':
            b = self.val(s, inst.x[1][0][1], mod)
            f[inst.res] = self.gep(s, b, inst.x[0], [(t, self.val(s, x, mod)) for t, x in inst.x[1][1:]], mod)
        elif op == 'alloca':
            f[inst.res] = IN(('alloca', ctx, fn.name + ":" + inst.res))
            self.drop(s, f[inst.res])
        elif op in ('icmp', 'fcmp'):
            a = self.val(s, inst.ops[0], mod)
            b = self.val(s, inst.ops[1], mod)
            r = f[inst.res] = self.cmp(inst.x, a, b)
            if op == 'icmp':
                while r[0] == 'not':
                    r = r[1]
                if r[0] in ('lt', 'eq'):
                    if r[1][0] != 'k':
                        INTS.add(r[1])
                    if r[2][0] != 'k':
                        INTS.add(r[2])
        elif op in ('add', 'fadd'):
            f[inst.res] = T.s_add(self.num(s, inst.ops[0], mod), self.num(s, inst.ops[1], mod))
        elif op in ('sub', 'fsub'):
            f[inst.res] = T.s_sub(self.num(s, inst.ops[0], mod), self.num(s, inst.ops[1], mod))
        elif op in ('mul', 'fmul'):
            f[inst.res] = T.s_mul(self.num(s, inst.ops[0], mod), self.num(s, inst.ops[1], mod))
        elif op == 'fdiv':
            f[inst.res] = T.s_div(self.num(s, inst.ops[0], mod), self.num(s, inst.ops[1], mod))
        elif op == 'fneg':
            f[inst.res] = T.s_neg(self.num(s, inst.ops[0], mod))
        elif op in ('sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'frem'):
            a = self.num(s, inst.ops[0], mod)
            b = self.num(s, inst.ops[1], mod)
            if a[0] == 'k' and b[0] == 'k' and b[1] != 0 and op in ('sdiv', 'udiv', 'srem', 'urem'):
                q = abs(int(a[1])) // abs(int(b[1]))
                if (a[1] < 0) != (b[1] < 0):
                    q = -q
                f[inst.res] = kk(q) if op.endswith('div') else kk(a[1] - b[1] * q)
            elif a[0] == 'k' and b[0] == 'k' and op == 'shl':
                f[inst.res] = kk(a[1] * 2 ** int(b[1]))
            else:
                f[inst.res] = IN(('f', op, a, b))
        elif op in ('and', 'or', 'xor'):
            a = self.val(s, inst.ops[0], mod)
            b = self.val(s, inst.ops[1], mod)
            if inst.ty.k == 'int' and inst.ty.a == 1:
                if op == 'and':
                    f[inst.res] = c_and(a, b)
                elif op == 'or':
                    f[inst.res] = c_or(a, b)
                else:
                    f[inst.res] = c_not(a) if b == K1 else (a if b == K0 else IN(('f', 'xor', a, b)))
            elif op == 'and' and (a == K0 or b == K0):
                f[inst.res] = K0
            elif op != 'xor' and is_bool(a) and is_bool(b):
                f[inst.res] = (c_and if op == 'and' else c_or)(a, b)
            elif a[0] == 'k' and b[0] == 'k':
                x, y = int(a[1]), int(b[1])
                f[inst.res] = kk({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
            else:
                f[inst.res] = IN(('f', op, a, b))
        elif op in ('sext', 'zext', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            f[inst.res] = self.val(s, inst.ops[0], mod)
        elif op == 'trunc':
            v = self.val(s, inst.ops[0], mod)
            if v[0] == 'k' and inst.ty.k == 'int':
                w = inst.ty.a
                x = int(v[1]) & ((1 << w) - 1)
                if w > 1 and x >> (w - 1):
                    x -= 1 << w
                v = kk(x)
            f[inst.res] = v
        elif op in ('fptosi', 'fptoui'):
            v = self.val(s, inst.ops[0], mod)
            f[inst.res] = kk(int(v[1])) if v[0] == 'k' else IN(('f', 'trunc', v))
        elif op == 'select':
            c = self.val(s, inst.ops[0], mod)
            a = self.val(s, inst.ops[1], mod)
            b = self.val(s, inst.ops[2], mod)
            r = evalc(s, c)
            if r is True:
                f[inst.res] = a
            elif r is False:
                f[inst.res] = b
            else:
                f[inst.res] = self.select(s, c, a, b, inst, ctx)
        elif op == 'extractvalue':
            f[inst.res] = IN(('f', 'extract', self.val(s, inst.ops[0], mod), tuple(inst.x)))
        elif op == 'insertvalue':
            f[inst.res] = IN(('undef', 'ins'))
        else:
            raise IRError("step " + op)

    def select(self, s, c, a, b, inst, ctx):
        if a == b:
            return a
        if a == K1 and b == K0:
            return c
        if a == K0 and b == K1:
            return c_not(c)
        mm = minmax(c, a, b)
        if mm is not None:
            return mm
        if inst.ty.k == 'int' and inst.ty.a == 1:
            if b == K0:
                return c_and(c, a)
            if a == K1:
                return c_or(c, b)
        sym = self.fresh(s, ('phi', ctx, inst.fn.name + "/sel", "r:" + inst.res))
        s.vals[sym] = (a, b)
        s.gates[(sym, a)] = frozenset(((c, True),))
        s.gates[(sym, b)] = frozenset(((c, False),))
        return sym

    def num(self, s, v, mod):
        return self.val(s, v, mod)

    def cmp(self, pred, a, b):
        if pred in ('eq', 'oeq', 'ueq'):
            return c_eq(a, b)
        if pred in ('ne', 'one', 'une'):
            return c_not(c_eq(a, b))
        if pred in ('slt', 'ult', 'olt'):
            return c_lt(a, b)
        if pred in ('sgt', 'ugt', 'ogt'):
            return c_lt(b, a)
        if pred in ('sle', 'ule', 'ole'):
            return c_not(c_lt(b, a))
        if pred in ('sge', 'uge', 'oge'):
            return c_not(c_lt(a, b))
        if pred == 'uno':
            return K0
        if pred == 'ord':
            return K1
        raise IRError("cmp " + pred)

    # ------------------------------------------------------------- calls
    def call(self, fn, inst, st, ctx):
        mod = fn.module
        self.stats["calls"] += 1
        cal = inst.x["callee"]
        args = [self.val(st, v, mod) for t, v in inst.x["args"]]
        H = self.hooks
        target = None
        if cal[0] == 'glob':
            name = cal[1]
            target = self.prog.resolve(name, mod)
        else:
            cv = self.val(st, cal, mod)
            if cv[0] == 'fn':
                name = cv[1]
                target = self.prog.funcs.get(name)
                if target is None:
                    for m in self.prog.modules:
                        for g in m.funcs.values():
                            if g.qname == name:
                                target = g
            elif cv in st.vals and all(a[0] == 'fn' for a in st.vals[cv]):
                out = []
                for a in st.vals[cv]:
                    s2 = st.copy()
                    self.substall(s2, {cv: a})
                    out.extend(self.call(fn, inst, s2, ctx))
                return out
            else:
                # virtual call through a structure member
                if cv[0] in ('init', 'elem') and cv[2]:
                    name = "*" + str([x for x in cv[2] if isinstance(x, str)][-1])
                elif cv[0] == 'phi' and cv[3][0] == 'm':
                    name = "*" + str([x for x in cv[3][1][1] if isinstance(x, str)][-1])
                else:
                    name = "*?"
        if name.startswith("llvm.") and not name.startswith("llvm.mem"):
            name = name.split(".")[1]
            target = None
        if H and hasattr(H, 'on_call'):
            r = H.on_call(self, st, name, args, inst, ctx)
            if r is not None:
                return r
        mname = name.split(".")[0:2]
        model = self.models.get(name)
        if model is None and name.startswith("llvm."):
            model = self.models.get(".".join(name.split(".")[:2]))
        if model is not None:
            r = model(self, st, inst, args, ctx)
            if isinstance(r, list):
                return r
            return [(r, st)]
        if target is not None and name not in self.opaque and target not in self.cur:
            return self.run(target, args, st, self.subctx(ctx, inst))
        # unknown external function
        self.stats["unmodelled"].setdefault(name, self.line(inst))
        return [(self.unknown(st, inst, args, ctx, name), st)]

    def unknown(self, st, inst, args, ctx, name, havoc=True):
        sym = self.fresh(st, ('ret', ctx, "%s@%s" % (name, self.line(inst)), inst.res or str(inst.idx)))
        if havoc:
            for (t, _), a in zip(inst.x["args"], args):
                if t.k == 'ptr' and a[0] not in ('k', 'fn', 'str', 'undef'):
                    b = split(a)[0]
                    if b[0] == 'glob':
                        g, _m = self.globinit(b)
                        if g is not None and g.const:
                            continue
                    self.havoc(st, a, sym[1:])
        return sym

    def alloc(self, st, inst, ctx, kind, fork=None):
        """model of an allocation: success (fresh object) and, if forking, NULL"""
        obj = IN(('alloc', ctx, self.line(inst) + "#" + (inst.res or str(inst.idx)), kind))
        self.drop(st, obj)
        H = self.hooks
        out = [(obj, st)]
        if (self.fork_alloc if fork is None else fork):
            s2 = st.copy()
            out.append((K0, s2))
        if H and hasattr(H, 'on_alloc'):
            out = [(v, r or s) for v, s, r in [(v, s, H.on_alloc(self, s, v, inst, ctx, obj)) for v, s in out] if r is not False]
        return out


class _Exit:
    """pseudo block used when joining function exits"""

    def __init__(self, fn):
        self.fn = fn
        self.name = "$exit"
        self.livein = {'$ret'}
        self.insts = []


def minmax(c, a, b):
    """select(c, a, b) as max/min if it is one"""
    neg = False
    if c[0] == 'not':
        c = c[1]
        a, b = b, a
    if c[0] != 'lt':
        return None
    x, y = c[1], c[2]
    if y == K0 and T.s_add(a, b) == K0:
        if b == x:
            return T.s_abs(x)
        if a == x:
            return T.s_neg(T.s_abs(x))
    if x == K0 and T.s_add(a, b) == K0:
        if a == y:
            return T.s_abs(y)
        if b == y:
            return T.s_neg(T.s_abs(y))

    def eqv(u, v):
        return u == v or T.s_sub(u, v) == K0
    # (x<y ? a : b); constants may have been moved between sides: compare differences
    if eqv(T.s_sub(a, b), T.s_sub(x, y)):
        return T.s_min(a, b)
    if eqv(T.s_sub(a, b), T.s_sub(y, x)):
        return T.s_max(a, b)
    return None
