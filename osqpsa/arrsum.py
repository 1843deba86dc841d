"""summaries of functions over arrays

A function (with its callees inlined) becomes a tree of branches, stores, library calls and loops.  A loop is summarised, never executed: its
induction variables, the number of its iterations and the element each iteration touches are affine terms in the iteration number; its effect is
the effect of one generic iteration.  The summaries are compared with the definition of the operation for the generic element."""
import math, itertools
from . import ir


class Unknown(Exception):
    def __init__(self, text="", kind=""):
        super().__init__(text)
        self.kind = kind


class Wrong(Exception):
    pass


C0, C1 = ('c', 0), ('c', 1)
FABS = {'fabs', 'llvm.fabs.f64', 'fabsf', 'llvm.fabs.f32'}
SQRT = {'sqrt', 'llvm.sqrt.f64', 'sqrtf', 'llvm.sqrt.f32'}
FMAX = {'fmax', 'llvm.maxnum.f64', 'fmaxf'}
FMIN = {'fmin', 'llvm.minnum.f64', 'fminf'}
PRINT = {'printf', 'fprintf', 'vprintf', 'vfprintf', 'puts', 'fputs', 'putchar', 'fputc', 'fflush', 'mexPrintf', 'mexErrMsgTxt', 'PyErr_SetString', '__printf_chk', '__fprintf_chk'}
SKIP = ('llvm.dbg.', 'llvm.lifetime.', 'llvm.assume', 'llvm.experimental.noalias')
OPS = {'mkl_sparse_d_mv', 'mkl_sparse_s_mv', 'cblas_dcopy', 'cblas_dscal', 'cblas_daxpy', 'cblas_daxpby', 'vdAdd', 'vdSub', 'vdMul', 'vdDiv', 'vdFmax', 'vdFmin', 'vdFmaxI', 'vdFminI', 'vdInv', 'vdSqrt', 'vdAbs',
       'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memset.p0.i64', 'memcpy', 'memmove', 'memset',
       'cblas_scopy', 'cblas_sscal', 'cblas_saxpy', 'vsAdd', 'vsSub', 'vsMul', 'vsFmax', 'vsFmin', 'vsFmaxI', 'vsFminI', 'vsInv', 'vsSqrt'}
REDS = {'cblas_ddot': 'dot', 'cblas_dasum': 'norm_1', 'cblas_idamax': 'iamax', 'cblas_dnrm2': 'norm_2', 'cblas_sdot': 'dot', 'cblas_sasum': 'norm_1', 'cblas_isamax': 'iamax', 'cblas_snrm2': 'norm_2'}


# ----------------------------------------------------------------------------- affine integer terms
def aff(t):
    """(constant, {atom: coefficient}) of an integer term"""
    h = t[0]
    if h == 'lv':
        return (0, {strip(t): 1})
    if h == 'c':
        return (int(t[1]), {})
    if h in ('add', 'sub'):
        a, b = aff(t[1]), aff(t[2])
        s = 1 if h == 'add' else -1
        d = dict(a[1])
        for k, v in b[1].items():
            d[k] = d.get(k, 0) + s * v
        return (a[0] + s * b[0], {k: v for k, v in d.items() if v})
    if h in ('mul', 'shl'):
        a, b = aff(t[1]), aff(t[2])
        if h == 'shl':
            b = (1 << b[0], {}) if not b[1] else b
            if b[1]:
                return (0, {t: 1})
        if a[1] and b[1]:
            return (0, {t: 1})
        if a[1]:
            a, b = b, a
        return (a[0] * b[0], {k: v * a[0] for k, v in b[1].items() if v * a[0]})
    if h == 'sdiv':
        a, b = aff(t[1]), aff(t[2])
        if not b[1] and b[0] and a[0] % b[0] == 0 and all(v % b[0] == 0 for v in a[1].values()):
            return (a[0] // b[0], {k: v // b[0] for k, v in a[1].items()})
    return (0, {t: 1})


def affsub(a, b):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) - v
    return (a[0] - b[0], {k: v for k, v in d.items() if v})


def affkey(a):
    return (a[0], tuple(sorted(a[1].items(), key=repr)))


def mk(h, *a):
    if all(isinstance(x, tuple) and x[0] == 'c' for x in a):
        try:
            x = [y[1] for y in a]
            if h == 'add': return ('c', x[0] + x[1])
            if h == 'sub': return ('c', x[0] - x[1])
            if h == 'mul': return ('c', x[0] * x[1])
        except Exception:
            pass
    if h in ('add', 'sub') and a[1] == C0:
        return a[0]
    if h == 'add' and a[0] == C0:
        return a[1]
    if h == 'mul' and a[1] == C1:
        return a[0]
    return (h,) + a


def strip(t):
    """without the marks of single loads"""
    if t[0] == 'lv':
        t = t[2][:3] + (0,)
    return tuple(strip(x) if isinstance(x, tuple) and x else x for x in t)


def ptr_of(v):
    return (v[1], affkey(aff(v[2])))


def subterms(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from subterms(x)


# ----------------------------------------------------------------------------- trees
class Loop:
    def __init__(self, lid, where):
        self.id, self.where = lid, where
        self.init, self.body, self.exits, self.latches = {}, None, [], []
        self._shape = None

    def step(self, reg):
        """constant step of an induction variable, or None"""
        d = None
        me = ('phi', self.id, reg)
        for l in self.latches:
            t = l[reg]
            if t[0] == 'p':
                t = t[2]
            k = affsub(aff(t), aff(me))
            if k[1] or (d is not None and d != k[0]):
                return None
            d = k[0]
        return d

    def inds(self):
        r = {}
        for reg in self.init:
            s = self.step(reg)
            if s is not None:
                r[reg] = s
        return r

    def sub(self, t, inds):
        """term affine in the iteration number: (alpha affine, beta) with value alpha + beta * iteration"""
        a = aff(t)
        c, d, beta = a[0], {}, 0
        out = (c, {})
        for k, v in a[1].items():
            if k[0] == 'phi' and k[1] == self.id:
                if k[2] not in inds:
                    raise Unknown("index not affine in the iteration number")
                i = self.init[k[2]]
                i = i[2] if i[0] == 'p' else i
                ii = aff(i)
                out = (out[0] + v * ii[0], _plus(out[1], ii[1], v))
                beta += v * inds[k[2]]
            else:
                if any(x[0] == 'phi' and x[1] == self.id for x in subterms(k)):
                    raise Unknown("index not affine in the iteration number")
                out = (out[0], _plus(out[1], {k: 1}, v))
        return out, beta

    def shape(self):
        """(trip count affine, at_least_once, count exits, inds)"""
        if self._shape is None:
            try:
                self._shape = ('ok', self._find())
            except Unknown as e:
                self._shape = ('unknown', e)
        if self._shape[0] != 'ok':
            raise self._shape[1]
        return self._shape[1]

    def _find(self):
        inds = self.inds()

        def counting(c):
            if c[0] not in ('icmp',):
                return False
            try:
                d, beta = self.sub(mk('sub', c[2], c[3]), inds)
                return beta != 0
            except Unknown:
                return False
        # header controlled: the first thing decided in the body
        n = self.body
        while n[0] == 'let':
            n = n[-1]
        if n[0] == 'br' and counting(n[1]) and (n[2][0] == 'exit') != (n[3][0] == 'exit'):
            k, neg = (n[2][1], True) if n[2][0] == 'exit' else (n[3][1], False)
            return self.trips(n[1], neg, inds, 0), False, {k}, inds
        # latch controlled: every path to the latch passes the same test
        tests = []

        def scan(n):
            if n[0] == 'br':
                x, y = n[2], n[3]
                if counting(n[1]) and {x[0], y[0]} == {'latch', 'exit'}:
                    tests.append((n[1], x[0] == 'exit', (x if x[0] == 'exit' else y)[1]))
                    return
                scan(x); scan(y)
            elif n[0] in ('st', 'op', 'let'):
                scan(n[-1])
            elif n[0] == 'ext':
                scan(n[5])
            elif n[0] == 'loop':
                for m in n[2]:
                    scan(m)
            elif n[0] == 'latch':
                tests.append(None)
        scan(self.body)
        if tests and all(t is not None for t in tests) and len({(affkey(aff(mk('sub', t[0][2], t[0][3]))), t[0][1], t[1]) for t in tests}) == 1:
            c, neg, _ = tests[0]
            return self.trips(c, neg, inds, 1), True, {t[2] for t in tests}, inds
        raise Unknown("loop at %s not counted" % self.where)

    def trips(self, c, neg, inds, base):
        pred = c[1]
        if neg:
            pred = {'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt', 'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult'}[pred]
        d, beta = self.sub(mk('sub', c[2], c[3]), inds)      # lhs - rhs at iteration k: d + beta k
        pred = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)
        # continue while  d + beta k  pred  0
        if beta not in (1, -1):
            raise Unknown("loop step %d" % beta)
        if pred in ('sgt', 'sge'):
            d, beta = (-d[0], {k: -v for k, v in d[1].items()}), -beta
            pred = {'sgt': 'slt', 'sge': 'sle'}[pred]
        if pred == 'ne':
            if beta == -1:
                d = (-d[0], {k: -v for k, v in d[1].items()})
            return (-d[0] + base, {k: -v for k, v in d[1].items()})
        if beta != 1 or pred not in ('slt', 'sle'):
            raise Unknown("loop condition")
        t = (-d[0] + (1 if pred == 'sle' else 0), {k: -v for k, v in d[1].items()})
        return (t[0] + base, t[1])


def _plus(a, b, f):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + f * v
    return {k: v for k, v in d.items() if v}


class Lazy:
    """a part of the tree made when it is needed"""
    def __init__(self, X, make):
        self.X, self.make, self.node = X, make, None

    def force(self):
        if self.node is None:
            self.X.count = 0
            try:
                self.node = self.make()
            except Unknown as e:
                self.node = ('unk', str(e), e.kind)
            while isinstance(self.node, Lazy):
                self.node = self.node.force()
            self.make = None
        return self.node


class Frame:
    def __init__(self, f, k):
        self.f, self.k, self.stack = f, k, []


class Env:
    __slots__ = ('r', 'mem', 'epoch')

    def __init__(self, r, mem, epoch):
        self.r, self.mem, self.epoch = r, mem, epoch

    def copy(self):
        return Env(dict(self.r), dict(self.mem), self.epoch)


class Extract:
    def __init__(self, p, alias, depth=12, limit=4000, lets=False, soft=False):
        self.p, self.alias = p, alias
        self.soft = soft        # what cannot be summarised ends the path with a node ('unk', why, kind)
        self.lets = lets        # loads become nodes of the tree, in order with the stores
        self.nlet = 0
        self.nl = self.ne = self.nloc = 0
        self.inloop = 0
        self.stop = ()          # functions not entered
        self.count, self.limit, self.maxdepth = 0, limit, depth
        self.loops = []

    def function(self, f, args):
        fr = Frame(f, lambda v, env: ('ret', v))
        env = Env({a[1]: t for a, t in zip(f.args, args)}, {}, 0)
        return self.enter(fr, f.entry(), env, 0)

    # --- values
    def val(self, fr, env, v):
        h = v[0]
        if h == 'reg':
            return env.r[v[1]]
        if h in ('const', 'fconst'):
            return ('c', v[1])
        if h in ('undef', 'zero'):
            return C0 if h == 'zero' else ('undef',)
        if h == 'glob':
            return ('fn', v[1])
        if h == 'cgep':
            return ('str',)
        raise Unknown("value " + h)

    # --- control
    def goto(self, fr, src, dst, env, depth):
        if fr.stack:
            head, body, L = fr.stack[-1]
            if dst is head:
                vals = {}
                for i in dst.insts:
                    if i.op != 'phi':
                        break
                    vals[i.res] = self.incoming(fr, env, i, src)
                L.latches.append(vals)
                return ('latch', vals)
            if dst not in body:
                L.exits.append((src, dst, env))
                return ('exit', len(L.exits) - 1)
        if dst in fr.f.loops:
            return self.loop(fr, src, dst, env, depth)
        new = {}
        for i in dst.insts:
            if i.op != 'phi':
                break
            new[i.res] = self.incoming(fr, env, i, src)
        env.r.update(new)
        return self.enter(fr, dst, env, depth)

    def incoming(self, fr, env, i, src):
        for v, b in i.x:
            if b == src.name:
                return self.val(fr, env, v)
        raise Unknown("phi")

    def loop(self, fr, src, head, env, depth):
        self.nl += 1
        L = Loop(self.nl, self.where(head.insts[-1]))
        self.loops.append(L)
        e = env.copy()
        for i in head.insts:
            if i.op != 'phi':
                break
            v = self.incoming(fr, env, i, src)
            L.init[i.res] = v
            me = ('phi', L.id, i.res)
            e.r[i.res] = ('p', v[1], me) if v[0] == 'p' else me
        self.flush(e)
        fr.stack.append((head, fr.f.loops[head], L))
        self.inloop += 1
        try:
            L.body = self.enter(fr, head, e, depth + 1)
        finally:
            fr.stack.pop()
            self.inloop -= 1
        for l in L.latches:
            for r, v in L.init.items():
                if (v[0] == 'p') != (l[r][0] == 'p') or v[0] == 'p' and v[1] != l[r][1]:
                    raise Unknown("pointer changes its object in a loop")
        conts = []
        for s, d, ex in L.exits:
            ex = ex.copy()
            self.flush(ex)
            if self.soft and not self.inloop:
                conts.append(Lazy(self, lambda s=s, d=d, ex=ex: self.goto(fr, s, d, ex.copy(), 0)))
            else:
                conts.append(self.goto(fr, s, d, ex, depth + 1))
        return ('loop', L, conts)

    def flush(self, env):
        env.mem = {k: v for k, v in env.mem.items() if k[0][0] == 'loc'}
        self.ne += 1
        env.epoch = self.ne

    def where(self, i):
        try:
            return "%s:%s" % (i.fn.module.loc(i.dbg)[:2] if i.dbg else (i.fn.name, '?'))
        except Exception:
            return i.fn.name

    def enter(self, fr, blk, env, depth):
        return self.insts(fr, blk, 0, env, depth)

    def insts(self, fr, blk, n, env, depth):
        if not self.soft:
            return self._insts(fr, blk, n, env, depth)
        try:
            return self._insts(fr, blk, n, env, depth)
        except Unknown as e:
            return ('unk', str(e), e.kind)

    def _insts(self, fr, blk, n, env, depth):
        self.count += 1
        if self.count > self.limit or depth > 300:
            raise Unknown("function too large")
        ii = blk.insts
        while n < len(ii):
            i = ii[n]
            n += 1
            op = i.op
            if op == 'phi':
                continue
            if op == 'br':
                if not i.ops:
                    return self.goto(fr, blk, fr.f.blocks[i.x[0]], env, depth + 1)
                c = self.val(fr, env, i.ops[0])
                t, f_ = fr.f.blocks[i.x[0]], fr.f.blocks[i.x[1]]
                k = self.known(c)
                if k is not None:
                    return self.goto(fr, blk, t if k else f_, env, depth + 1)
                if self.soft and not self.inloop:
                    e2 = env.copy()
                    return ('br', c, Lazy(self, lambda: self.goto(fr, blk, t, env.copy(), 0)), Lazy(self, lambda: self.goto(fr, blk, f_, e2.copy(), 0)))
                a = self.goto(fr, blk, t, env.copy(), depth + 1)
                b = self.goto(fr, blk, f_, env, depth + 1)
                return ('br', c, a, b)
            if op == 'switch':
                v = self.val(fr, env, i.ops[0])
                d, cs = i.x
                node = self.goto(fr, blk, fr.f.blocks[d], env.copy(), depth + 1)
                for c, l in reversed(cs):
                    node = ('br', ('icmp', 'eq', v, ('c', c)), self.goto(fr, blk, fr.f.blocks[l], env.copy(), depth + 1), node)
                return node
            if op == 'ret':
                return fr.k(self.val(fr, env, i.ops[0]) if i.ops else None, env)
            if op == 'unreachable':
                return ('abort',)
            if op == 'store':
                v, ptr = self.val(fr, env, i.ops[0]), self.val(fr, env, i.ops[1])
                r = self.store(env, ptr, v)
                if r is not None:
                    return ('st', r[0], r[1], v, self.where(i), self.insts(fr, blk, n, env, depth + 1))
                continue
            if op == 'call':
                r = self.call(fr, blk, n, i, env, depth)
                if r is not None:
                    return r
                continue
            v = self.pure(fr, env, i)
            if self.lets and v[0] == 'ld' and op == 'load':
                self.nlet += 1
                env.r[i.res] = ('lv', self.nlet, v)
                if ptr_of(v) is not None:
                    env.mem[ptr_of(v)] = env.r[i.res]
                return ('let', self.nlet, v, self.where(i), self.insts(fr, blk, n, env, depth + 1))
            env.r[i.res] = v
        raise Unknown("block without terminator")

    def known(self, c):
        if c[0] == 'c':
            return bool(c[1])
        if c[0] == 'icmp' and c[1] in ('eq', 'ne'):
            a, b = c[2], c[3]
            r = None
            if a[0] == 'q' and b[0] == 'q':
                r = a[1] == b[1]
            elif a[0] == 'q' and b == C0 or b[0] == 'q' and a == C0:
                r = False
            elif a[0] == 'p' and b[0] == 'p':
                if a[1] != b[1]:
                    r = False
                else:
                    d = affsub(aff(a[2]), aff(b[2]))
                    r = d[0] == 0 if not d[1] else None
            elif a[0] == 'p' and b == C0:
                r = False if a[1][0] in ('loc', 'new') else None
            elif a[0] == 'c' and b[0] == 'c':
                r = a[1] == b[1]
            if r is not None:
                return r == (c[1] == 'eq')
        return None

    # --- memory
    def load(self, env, ptr, ty):
        if ptr[0] == 'fa':
            obj, fname, fty = ptr[1:]
            m = env.mem.get((obj, fname))
            if m is not None:
                return m
            if fty.k == 'ptr':
                return ('p', (obj, fname), C0)
            return ('fld', obj, fname)
        if ptr[0] == 'fb':
            return ('bytes', env.mem.get((ptr[1], '*')) or ())
        if ptr[0] == 'q':
            raise Unknown("load of a structure")
        if self.soft and ptr[0] in ('str', 'fn'):
            return ('str',)
        if ptr[0] != 'p':
            raise Unknown("load from " + ptr[0], 'null' if ptr == C0 else '')
        obj, idx = ptr[1], ptr[2]
        k = (obj, affkey(aff(idx)))
        m = env.mem.get(k)
        if m is not None:
            return m
        if not (self.lets and obj[0] != 'loc') and any(o == obj for o, _ in env.mem if isinstance(o, tuple)) and not self.distinct(env, obj, idx):
            raise Unknown("element read after another element was written")
        if obj[0] == 'loc':
            raise Unknown("uninitialised local")
        return ('ld', obj, idx, env.epoch)

    def distinct(self, env, obj, idx):
        a = aff(idx)
        for (o, k) in env.mem:
            if o == obj and not isinstance(k, str):
                d = affsub(a, (k[0], dict(k[1])))
                if d[1] or d[0] == 0:
                    return False
        return True

    def store(self, env, ptr, v):
        if ptr[0] == 'fa':
            env.mem[(ptr[1], ptr[2])] = v
            if ptr[1][0] == 'loc':
                return None
            return (('field', ptr[1], ptr[2]), C0)
        if ptr[0] != 'p':
            raise Unknown("store to " + ptr[0])
        obj, idx = ptr[1], ptr[2]
        a = aff(idx)
        for k in [k for k in env.mem if k[0] == obj and not isinstance(k[1], str)]:
            d = affsub(a, (k[1][0], dict(k[1][1])))
            if d[1]:
                del env.mem[k]
        env.mem[(obj, affkey(a))] = v
        if obj[0] == 'loc':
            return None
        return obj, idx

    # --- instructions without control
    def pure(self, fr, env, i):
        op = i.op
        g = lambda k: self.val(fr, env, i.ops[k])
        if op == 'load':
            return self.load(env, g(0), i.ty)
        if op == 'alloca':
            self.nloc += 1
            return ('p', ('loc', self.nloc), C0)
        if op == 'gep':
            return self.gep(fr, env, i)
        if op in ir.BIN:
            a, b = g(0), g(1)
            if op == 'sub' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                return ('mul', mk('sub', a[2], b[2]), ('c', 8))
            return mk(op, a, b)
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc'):
            return g(0)
        if op in ('sitofp', 'uitofp'):
            return ('itof', g(0))
        if op in ('fptosi', 'fptoui'):
            return ('ftoi', g(0))
        if op == 'fneg':
            return ('fneg', g(0))
        if op in ('icmp', 'fcmp'):
            a, b = g(0), g(1)
            if op == 'icmp' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                return ('icmp', i.x, a[2], b[2])
            k = self.known((op, i.x, a, b))
            return (op, i.x, a, b) if k is None else ('c', int(k))
        if op == 'select':
            c = g(0)
            k = self.known(c)
            if k is not None:
                return g(1) if k else g(2)
            return ('sel', c, g(1), g(2))
        raise Unknown("instruction " + op)

    def gep(self, fr, env, i):
        st, ops = i.x
        base = self.val(fr, env, ops[0][1])
        if base == C0:
            raise Unknown("member of NULL at %s" % self.where(i), 'null')
        if self.soft and base[0] in ('str', 'fn'):
            return ('str',)
        idx = [self.val(fr, env, v) for t, v in ops[1:]]
        if st.k == 'struct':
            if base[0] == 'p' and aff(base[2]) == (0, {}):
                base = ('q', base[1])
            if base[0] != 'q' or idx[0] != C0 or len(idx) != 2 or idx[1][0] != 'c':
                raise Unknown("address in " + repr(st))
            names = self.p.fields.get(st.a)
            tys = fr.f.module.structs.get(st.a)
            k = idx[1][1]
            return ('fa', base[1], names[k] if names else str(k), tys[k])
        if base[0] == 'p' and base[1][0] == 'loc' and len(idx) == 2 and repr(st).startswith('{'):
            return ('fb', base[1])
        if base[0] == 'p' and len(idx) == 1:
            return ('p', base[1], mk('add', base[2], idx[0]))
        raise Unknown("address in %r of %s" % (st, str(base)[:60]))

    # --- calls
    def call(self, fr, blk, n, i, env, depth):
        c = i.x['callee']
        args = [self.val(fr, env, v) for t, v in i.x['args']]
        if c[0] != 'glob':
            raise Unknown("indirect call")
        name = c[1]
        if name.startswith(SKIP):
            return None
        if name in FABS:
            env.r[i.res] = ('fabs', args[0]); return None
        if name in SQRT:
            env.r[i.res] = ('sqrt', args[0]); return None
        if name in FMAX:
            env.r[i.res] = ('fmax', args[0], args[1]); return None
        if name in FMIN:
            env.r[i.res] = ('fmin', args[0], args[1]); return None
        if name in REDS:
            env.r[i.res] = ('red', REDS[name], self.redargs(name, args), env.epoch)
            return None
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'):
            env.r[i.res] = ('fadd', ('fmul', args[0], args[1]), args[2]); return None
        if name.startswith('llvm.memcpy') and all(a[0] == 'p' and a[1][0] == 'loc' for a in args[:2]):
            src = args[1][1]        # a structure passed in registers
            env.mem[(args[0][1], '*')] = tuple(sorted(((k[1], v) for k, v in env.mem.items() if k[0] == src and isinstance(k[1], str)), key=repr))
            return None
        if name in OPS:
            ops = tuple(self.deref(env, a) for a in args)
            self.flush(env)
            return ('op', name, ops, self.where(i), self.insts(fr, blk, n, env, depth + 1))
        if self.soft and name in PRINT:
            env.r[i.res] = C0
            return None
        f = fr.f.module.funcs.get(name) or self.p.funcs.get(name)
        if f is None or name in self.stop:
            raise Unknown("call of " + name, 'call')
        if self.maxdepth <= 0:
            raise Unknown("call depth")
        self.maxdepth -= 1

        def back(v, e2):
            # the callee may have returned from several places: the caller's registers are shared
            e = Env(dict(saved), dict(e2.mem), e2.epoch)
            if i.res is not None:
                e.r[i.res] = v
            return self.insts(fr, blk, n, e, depth + 1)
        saved = env.r
        try:
            g = Frame(f, back)
            return self.enter(g, f.entry(), Env({a[1]: t for a, t in zip(f.args, args)}, env.mem, env.epoch), depth + 1)
        finally:
            self.maxdepth += 1

    def deref(self, env, a):
        """a pointer to a local scalar stands for its value"""
        if a[0] == 'p' and a[1][0] == 'loc':
            v = env.mem.get((a[1], affkey(aff(a[2]))))
            return ('cell', v)
        return a

    def redargs(self, name, args):
        r = [args[0]]
        for a, inc in zip(args[1::2], args[2::2]):
            r += [a, inc]
        return tuple(r)


# ----------------------------------------------------------------------------- values of terms
class Ev:
    """value of a term for given values of its atoms"""
    def __init__(self, atom):
        self.atom = atom

    def __call__(self, t):
        h = t[0]
        if h == 'c':
            return t[1]
        f = BIN2.get(h)
        if f is not None:
            return f(self(t[1]), self(t[2]))
        if h in ('icmp', 'fcmp'):
            return CMP(t[1], self(t[2]), self(t[3]))
        if h == 'sel':
            return self(t[2]) if self(t[1]) else self(t[3])
        if h == 'fabs':
            return abs(self(t[1]))
        if h == 'fneg':
            return -self(t[1])
        if h == 'sqrt':
            v = self(t[1])
            return math.sqrt(v) if v >= 0 else math.nan
        if h == 'itof':
            return float(self(t[1]))
        if h == 'ftoi':
            return int(self(t[1]))
        return self.atom(t)


def _div(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def _idiv(a, b):
    if b == 0:
        raise Unknown("division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


BIN2 = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b,
        'fdiv': _div, 'sdiv': _idiv, 'srem': lambda a, b: a - b * _idiv(a, b), 'and': lambda a, b: int(a) & int(b), 'or': lambda a, b: int(a) | int(b), 'xor': lambda a, b: int(a) ^ int(b),
        'shl': lambda a, b: int(a) << int(b), 'fmax': lambda a, b: max(a, b), 'fmin': lambda a, b: min(a, b), 'ashr': lambda a, b: int(a) >> int(b), 'lshr': lambda a, b: int(a) >> int(b)}


def CMP(p, a, b):
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return int(p.startswith('u'))
    p2 = p[1:] if p not in ('eq', 'ne') else p
    if p in ('ord', 'uno'):
        return int(p == 'ord')
    return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p2])
