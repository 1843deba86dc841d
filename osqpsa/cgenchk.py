"""C30 / C31: the text osqp_codegen writes, and how it deals with its buffers and files

osqp_codegen is summarised from the intermediate representation with its library calls left symbolic.  Following the summary for the cases of the
configuration (embedded mode, scaling, vector penalty, constraints or none) gives the text of every file with the printed values still terms of the
solver's members; loops that print give one symbolic element.  The declarations of that text are compared, initialiser by initialiser, with the layout
the compiler gives the same structures in the embedded configuration."""
import re
from . import prog as PG, arrsum
from .lib import Result, parallel
from .arrsum import Unknown, Wrong, Ev, C0
from .kktchk import KX

FILES = {'fprintf', 'fputs', 'fputc', 'putc', 'fwrite'}
STRS = {'sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk', 'strcpy', 'strcat', 'strncpy', 'strncat'}
ERR = {'_osqp_error', '_osqp_error_line'}


def isbuf(o):
    return isinstance(o, tuple) and len(o) == 3 and o[0] == 'loc'


class CX(KX):
    def __init__(self, p):
        super().__init__(p, soft=True, limit=200000)
        self.maxdepth = 60

    def val(self, fr, env, v):
        if v[0] == 'glob':
            g = fr.f.module.globals.get(v[1]) or self.p.globals.get(v[1])
            if g is not None and g.init is not None and g.init[0] == 'str' and g.const:
                return ('S', text(g.init[1]))
            if g is not None and g.init is not None and g.init[0] == 'zero' and g.const:
                return ('S', '')
        return super().val(fr, env, v)

    def known(self, c):
        if c[0] == 'icmp' and c[1] in ('eq', 'ne'):
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if b == C0 and a[0] in ('p', 'q') and a[1][0] == 'new':
                    return None
                if b == C0 and a[0] == 'S':
                    return c[1] == 'ne'
        return super().known(c)

    def pure(self, fr, env, i):
        if i.op == 'alloca':
            self.nloc += 1
            ty = i.x if not isinstance(i.x, tuple) else i.x[0]
            ty = ty if ty is not None else i.ty
            r = re.match(r"\[(\d+) x i8\]", repr(ty))
            return ('p', ('loc', self.nloc, int(r.group(1))) if r else ('loc', self.nloc), C0)
        return super().pure(fr, env, i)

    def gep(self, fr, env, i):
        st, ops = i.x
        base = self.val(fr, env, ops[0][1])
        if base[0] == 'chr':
            return ('chr',) + base[1:]
        if base[0] == 'p' and (isbuf(base[1]) or base[1][0] == 'loc') and st.k == 'array':
            idx = [self.val(fr, env, v) for t, v in ops[1:]]
            return ('p', base[1], idx[-1] if len(idx) == 2 else arrsum.mk('add', base[2], idx[0]))
        return super().gep(fr, env, i)

    def load(self, env, ptr, ty):
        if ptr[0] == 'chr' or ptr[0] == 'p' and (isbuf(ptr[1]) or ptr[1][0] == 'new'):
            return ('chr', ptr[1], ptr[2]) if ptr[0] == 'p' else ptr
        if ptr[0] == 'S':
            return ('chr', ptr, C0)
        if ptr[0] == 'p' and ptr[1][0] == 'arg':
            return ('chr', ptr[1], ptr[2])
        return super().load(env, ptr, ty)

    def store(self, env, ptr, v):
        if ptr[0] == 'p' and isbuf(ptr[1]):
            return ptr[1], ptr[2]
        return super().store(env, ptr, v)

    def call(self, fr, blk, n, i, env, depth):
        c = i.x['callee']
        name = c[1] if c[0] == 'glob' else None
        if name in ERR:
            if i.res is not None:
                env.r[i.res] = self.val(fr, env, i.x['args'][0][1])
            return None
        if name is None or name.startswith('llvm.') or fr.f.module.funcs.get(name) or self.p.funcs.get(name):
            return super().call(fr, blk, n, i, env, depth)
        args = tuple(self.val(fr, env, v) for t, v in i.x['args'])
        self.nx += 1
        nx, r = self.nx, None
        if i.res is not None:
            if i.ty.k == 'ptr':
                r = ('p', ('new', nx), C0)
            else:
                r = ('s', ('ret', nx))
            env.r[i.res] = r
        if self.inloop:
            nxt = self.insts(fr, blk, n, env, depth + 1)
        else:
            nxt = arrsum.Lazy(self, lambda: self.insts(fr, blk, n, env, 0))
        return ('ext', name, args, self.where(i), r, nxt, nx)


def text(s):
    """of a constant of the intermediate representation"""
    s = s if isinstance(s, str) else s.decode('latin1')
    return re.sub(r"\\x([0-9a-fA-F]{2})", lambda k: chr(int(k.group(1), 16)), s).split('\0')[0]


_tree = {}


def tree(cfg='builtin'):
    if cfg not in _tree:
        p = PG.load(cfg)
        f = p.funcs.get('osqp_codegen')
        if f is None:
            raise Unknown("osqp_codegen is not compiled")
        X = CX(p)
        args = []
        for k, a in enumerate(f.args):
            args.append(('q', ('arg', 'solver')) if k == 0 else ('q', ('arg', 'defines')) if k == 3 else ('p', ('arg', ('dir', 'prefix')[k - 1]), C0))
        n = X.function(f, args)
        _tree[cfg] = (p, X, n)
    return _tree[cfg]


def path(o):
    """('arg','solver') / (obj, field) -> dotted"""
    if o[0] == 'arg':
        return o[1]
    if isinstance(o[0], tuple) and isinstance(o[1], str):
        return path(o[0]) + '.' + o[1]
    raise Unknown("object")


class Fork(Exception):
    def __init__(self, k):
        self.k = k


class St:
    """what one path has done"""
    def __init__(self):
        self.strs, self.files, self.res, self.cons, self.of = {}, {}, {}, [], {}
        self.trace = []

    def copy(self):
        s = St()
        s.strs = dict(self.strs)
        s.files = {k: dict(v, text=list(v['text']), loose=set(v['loose'])) for k, v in self.files.items()}
        s.res, s.cons, s.of, s.trace = dict(self.res), list(self.cons), dict(self.of), list(self.trace)
        return s


LENS = {'x': 'n', 'q': 'n', 'D': 'n', 'Dinv': 'n', 'y': 'm', 'z': 'm', 'l': 'm', 'u': 'm', 'rho_vec': 'm', 'rho_inv_vec': 'm', 'constr_type': 'm', 'E': 'm', 'Einv': 'm',
        'x_prev': 'n', 'z_prev': 'm', 'Ax': 'm', 'Px': 'n', 'Aty': 'n', 'delta_y': 'm', 'Atdelta_y': 'n', 'delta_x': 'n', 'Pdelta_x': 'n', 'Adelta_x': 'm', 'D_temp': 'n',
        'D_temp_A': 'n', 'E_temp': 'm', 'xtilde_view': 'n', 'ztilde_view': 'm', 'xz_tilde': 'nm'}


class Case:
    def __init__(self, n, m, embedded, scaling, vec, flags):
        self.n, self.m, self.embedded, self.scaling, self.vec, self.flags = n, m, embedded, scaling, vec, flags
        N = n + m
        nP, nA = n + 1, (2 * m + 1 if m else 0)
        self.csc = {'data.P.csc': (n, n, nP), 'data.A.csc': (m, n, nA), 'linsys_solver.L': (N, N, N + 3), 'linsys_solver.KKT': (N, N, nP + nA + N + 1)}
        self.nnz = {'data.P.csc': nP, 'data.A.csc': nA}

    def __str__(self):
        return "%s constraints, embedded mode %d, %s scaling, %s penalty" % ("no" if not self.m else "with", self.embedded, "with" if self.scaling else "without", "vector" if self.vec else "scalar")

    def size(self, k):
        return {'n': self.n, 'm': self.m, 'nm': self.n + self.m}[k]

    def fld(self, p, f):
        if p == 'defines':
            if f == 'embedded_mode':
                return self.embedded
            return self.flags.get(f, 0)
        if p == 'solver.settings' and f == 'scaling':
            return 10 if self.scaling else 0
        if p == 'solver.settings' and f == 'rho_is_vec':
            return int(self.vec)
        if p in ('solver.work.data', 'solver.work.linsys_solver') and f in 'nm':
            return self.size(f)
        if p == 'solver.info' and f == 'status_val':
            return 11
        if f == 'length' and p.split('.')[-1] in LENS and p.startswith('solver.work'):
            return self.size(LENS[p.split('.')[-1]])
        for k, (a, b, z) in self.csc.items():
            if p == 'solver.work.' + k and f in ('m', 'n', 'nzmax', 'nz'):
                return {'m': a, 'n': b, 'nzmax': z, 'nz': -1}[f]
        raise Unknown("member %s.%s decides what is written" % (p, f))

    missing = None
    asked = None

    def null(self, p):
        if self.asked is not None:
            self.asked.add(p)
        if p == self.missing:
            return True
        if p == 'solver.work.linsys_solver.rho_inv_vec':
            return not self.vec
        if p == 'solver.work.scaling' or p.startswith('solver.work.scaling.'):
            return not self.scaling
        return False


class Walk:
    def __init__(self, case, forks):
        self.case, self.forks = case, forks
        self.done = []
        self.n = 0

    def ev(self, t, st):
        def atom(t):
            h = t[0]
            if h == 'fld':
                return self.case.fld(path(t[1]), t[2])
            if h == 'lv':
                return atom(t[2]) if t[2][0] in ('fld', 'ld', 'lv') else Ev(atom)(t[2])
            if h == 'ld':
                p = path(t[1])
                for k, v in self.case.nnz.items():
                    if p == 'solver.work.%s.p' % k and Ev(atom)(t[2]) == self.case.n:
                        return v
                    if p == 'solver.work.%s.p' % k and Ev(atom)(t[2]) == 0:
                        return 0
                raise Unknown("element of " + p)
            if h in ('s', 'p') and t[1][0] in ('ret', 'new'):
                k = t[1][1]
                if k in st.res:
                    return st.res[k]
                raise Fork(k)
            if h in ('p', 'q'):
                if t[1][0] in ('loc', 'arg'):
                    return 1
                return 0 if self.case.null(path(t[1])) else 1
            if h in ('S', 'str', 'fn'):
                return 1
            raise Unknown("value " + h)
        return Ev(atom)(t)

    def run(self, node, st):
        work = [(node, st)]
        while work:
            n, st = work.pop()
            self.n += 1
            if self.n > 400000:
                raise Unknown("too many paths")
            while True:
                if isinstance(n, arrsum.Lazy):
                    n = n.force()
                h = n[0]
                if h == 'unk':
                    raise Unknown(n[1])
                if h == 'let':
                    n = n[4]
                elif h == 'ext':
                    self.ext(n, st)
                    n = n[5]
                elif h == 'loop':
                    n = n[2][self.loop(n[1], st)]
                elif h == 'st':
                    if isbuf(n[1]):
                        self.poke(n, st)
                    n = n[5]
                elif h == 'br':
                    c = simple(n[1])
                    if c[0] == 'sel':
                        n = ('br', c[1], ('br', c[2], n[2], n[3]), ('br', c[3], n[2], n[3]))
                        continue
                    if c[0] == 'not':
                        n = ('br', c[1], n[3], n[2])
                        continue
                    n = ('br', c, n[2], n[3])
                    try:
                        n = n[2] if self.ev(n[1], st) else n[3]
                    except Fork as e:
                        kind = st.of.get(e.k, ('?',))
                        if not self.forks:
                            st.res[e.k] = 1 if kind[0] == 'fopen' else 5 if kind[0] == 'strlen' else 0
                            continue
                        if kind[0] == 'strlen':
                            s2 = st.copy()
                            s2.cons.append((n[1], False))
                            work.append((n[3], s2))
                            st.cons.append((n[1], True))
                            n = n[2]
                            continue
                        for v in ((1, 0) if kind[0] != 'fopen' else (0, 1)):
                            s2 = st.copy()
                            s2.res[e.k] = v
                            s2.trace.append((kind[0], v, kind[1]))
                            self.decided(s2, e.k, kind, v)
                            work.append((n, s2))
                        break
                elif h == 'ret':
                    self.done.append((self.ev(n[1], st) if n[1] is not None else None, st))
                    break
                else:
                    raise Unknown("path ends with " + h)

    def decided(self, st, k, kind, v):
        if kind[0] == 'ferror' and v == 0:
            st.files[kind[2]]['loose'] = set()
        elif kind[0] == 'fclose' and v == 0:
            st.files[kind[2]]['closed'] = 'checked'
        elif kind[0] == 'fflush' and v == 0:
            pass
        elif kind[0] in FILES and v == 0:
            st.files[kind[2]]['loose'].discard(k)

    def poke(self, n, st):
        o = n[1]
        st.strs[o] = [('opaque', tuple(st.strs.get(o, ())))]

    def handle(self, t, st, where, use=True):
        if t[0] not in ('p', 'q') or t[1][0] != 'new':
            raise Unknown("stream")
        k = t[1][1]
        if st.of.get(k, ('?',))[0] != 'fopen':
            raise Unknown("stream")
        if k in st.res and st.res[k] == 0:
            raise Wrong("a file that could not be opened is used, at %s" % where)
        if self.forks and k not in st.res:
            raise Wrong("a file is used without testing that it could be opened, at %s" % where)
        f = st.files[k]
        if f['closed']:
            raise Wrong("a closed file is used, at %s" % where)
        return f

    def ext(self, n, st):
        name, where, r, nx = n[1], n[3], n[4], n[6]
        args = tuple(self.pick(a, st) for a in n[2])
        if name in ('fopen', 'fopen64'):
            st.of[nx] = ('fopen', where)
            st.files[nx] = {'path': self.string(args[0], st), 'text': [], 'closed': None, 'loose': set(), 'where': where}
            if not self.forks:
                st.res[nx] = 1
        elif name == 'fclose':
            f = self.handle(args[0], st, where)
            f['closed'] = 'open'
            st.of[nx] = ('fclose', where, args[0][1][1])
        elif name in ('ferror', 'fflush'):
            self.handle(args[0], st, where)
            st.of[nx] = (name, where, args[0][1][1])
        elif name == 'fprintf':
            f = self.handle(args[0], st, where)
            st.of[nx] = ('fprintf', where, args[0][1][1])
            f['loose'].add(nx)
            f['text'] += self.fmt(args[1], args[2:], st, where)
        elif name in ('fputs', 'fputc', 'putc', 'fwrite'):
            fp = args[3] if name == 'fwrite' else args[1]
            f = self.handle(fp, st, where)
            st.of[nx] = (name, where, fp[1][1])
            f['loose'].add(nx)
            if name in ('fputc', 'putc'):
                f['text'].append(chr(args[0][1]) if args[0][0] == 'c' else ('val', '%c', args[0], where))
            else:
                f['text'] += self.string(args[0], st)
        elif name in STRS:
            self.sprint(name, args, st, where)
        elif name == 'strlen':
            st.of[nx] = ('strlen', self.string(args[0], st))
            if not self.forks:
                st.res[nx] = 5
        elif name in ('time', 'ctime', 'toupper', '__ctype_toupper_loc', 'printf', 'puts', 'putchar'):
            st.of[nx] = (name, where)
        else:
            raise Unknown("call of " + name)

    def pick(self, t, st):
        while t[0] == 'sel':
            try:
                t = t[2] if self.ev(t[1], st) else t[3]
            except Fork:
                raise Unknown("choice of an argument")
        return t

    def string(self, t, st):
        if t[0] == 'S':
            return [t[1]]
        if t[0] == 'p' and isbuf(t[1]):
            if t[2] != C0 or t[1] not in st.strs:
                raise Unknown("string")
            return list(st.strs[t[1]])
        if t[0] == 'p' and t[1][0] == 'arg':
            return [('arg', t[1][1])]
        if t[0] == 'p' and t[1][0] == 'new' and st.of.get(t[1][1], ('?',))[0] == 'ctime':
            return [('opaque', ('x' * 25,))]
        if t[0] == 'str':
            return [('opaque', None)]
        if t[0] in ('fld', 'lv', 'ld') or t[0] in ('p', 'q'):
            return [('opaque', None)]
        raise Unknown("string")

    def fmt(self, f, args, st, where):
        if f[0] != 'S':
            raise Unknown("format")
        out, args = [], list(args)
        for part in re.split(r"(%%|%[-+ #0]*[0-9*]*(?:\.[0-9*]+)?(?:hh|h|ll|l|L|z|j|t)?[a-zA-Z])", f[1]):
            if part == '%%':
                out.append('%')
            elif part.startswith('%') and len(part) > 1:
                if '*' in part or not args:
                    raise Unknown("format")
                a = args.pop(0)
                if part == '%s':
                    out += self.string(a, st)
                elif a[0] == 'c' and part[-1] in 'diu' and isinstance(a[1], int):
                    out.append(str(a[1]))
                else:
                    out.append(('val', part, a, where))
            elif part:
                out.append(part)
        return out

    # --- buffers
    def sprint(self, name, args, st, where):
        d = args[0]
        if d[0] != 'p' or not isbuf(d[1]):
            raise Unknown("destination of %s" % name)
        cap = None
        if name == 'sprintf':
            s = self.fmt(args[1], args[2:], st, where)
        elif name == '__sprintf_chk':
            s = self.fmt(args[3], args[4:], st, where)
        elif name == 'snprintf':
            cap, s = args[1], self.fmt(args[2], args[3:], st, where)
        elif name == '__snprintf_chk':
            cap, s = args[1], self.fmt(args[4], args[5:], st, where)
        elif name == 'strcpy':
            s = self.string(args[1], st)
        elif name == 'strcat':
            s = self.string(('p', d[1], C0), st) + self.string(args[1], st)
        else:
            raise Unknown("call of " + name)
        if d[2] != C0:
            raise Unknown("destination of " + name)
        if cap is not None:
            if cap[0] != 'c':
                raise Unknown("size given to " + name)
            if cap[1] > d[1][2]:
                raise Wrong("up to %d characters are written into a buffer of %d, at %s" % (cap[1], d[1][2], where))
            self.truncated = True
        elif self.forks:
            b = bound(s, st)
            if b is None:
                raise Wrong("a string without a bound on its length is written into a buffer of %d characters, at %s" % (d[1][2], where))
            if b + 1 > d[1][2]:
                raise Wrong("a string of up to %d characters is written into a buffer of %d, at %s" % (b + 1, d[1][2], where))
            self.bounded = getattr(self, 'bounded', 0) + 1
        st.strs[d[1]] = s

    # --- loops
    def loop(self, L, st):
        if len(L.exits) != 1:
            raise Unknown("loop left in several ways")
        seen = []

        def touch(n):
            if isinstance(n, arrsum.Lazy):
                n = n.force()
            if n[0] == 'ext':
                seen.append(n)
                touch(n[5])
            elif n[0] == 'st':
                seen.append(n)
                touch(n[5])
            elif n[0] == 'let':
                touch(n[4])
            elif n[0] == 'br':
                touch(n[2])
                touch(n[3])
            elif n[0] == 'loop':
                raise Unknown("nested loop")
            elif n[0] == 'unk':
                raise Unknown(n[1])
        touch(L.body)
        writes = [n for n in seen if n[0] == 'ext' and n[1] in FILES]
        if not writes:
            for n in seen:
                if n[0] == 'st' and isbuf(n[1]):
                    guard = [c for c in conds(L.body) if ('chr', n[1], n[2]) in arrsum.subterms(c)]
                    if not guard:
                        raise Unknown("buffer written in a loop")
                    st.strs[n[1]] = [('opaque', tuple(st.strs.get(n[1], ())))]
                elif n[0] == 'st':
                    raise Unknown("store in a loop")
                elif n[1] not in ('toupper', '__ctype_toupper_loc', 'tolower', '__ctype_tolower_loc'):
                    raise Unknown("call of %s in a loop" % n[1])
            return 0
        trip, once, exits, inds = L.shape()
        count = trip[0] + sum(c * self.ev(k, st) for k, c in trip[1].items())
        if once:
            count = max(count, 1)
        outs, n, nodes = {}, L.body, 0
        while True:
            h = n[0]
            if h == 'let':
                n = n[4]
            elif h == 'br':
                a, b = n[2], n[3]
                if a[0] == 'exit':
                    n = b
                elif b[0] == 'exit':
                    n = a
                else:
                    raise Unknown("printing depends on the iteration")
            elif h == 'ext':
                if n[1] not in FILES:
                    raise Unknown("call of %s in a loop" % n[1])
                fp = n[2][0] if n[1] == 'fprintf' else n[2][-1]
                f = self.handle(fp, st, n[3])
                keep = f['text']
                f['text'] = []
                self.ext(n, st)
                outs.setdefault(fp[1][1], []).extend(f['text'])
                f['text'] = keep
                n = n[5]
            elif h == 'latch':
                break
            else:
                raise Unknown("loop")
        for k, v in outs.items():
            st.files[k]['text'].append(('rep', count, L, inds, v))
        return 0


def boolean(c):
    return c[0] in ('icmp', 'fcmp', 'sel', 'not') or c == C0 or c == ('c', 1) or c == ('c', True) or c == ('c', False)


def simple(c):
    """a condition as a choice between comparisons"""
    if c[0] in ('and', 'or') and boolean(c[1]) and boolean(c[2]):
        return ('sel', c[1], c[2], C0) if c[0] == 'and' else ('sel', c[1], ('c', 1), c[2])
    if c[0] == 'xor' and c[2] in (('c', 1), ('c', True), ('c', -1)) and boolean(c[1]):
        return ('not', c[1])
    if c[0] == 'icmp' and c[1] in ('eq', 'ne') and c[3] == C0 and c[2][0] in ('icmp', 'fcmp', 'sel'):
        b = c[2]
        if b[0] != 'sel' or boolean(b[2]) and boolean(b[3]):
            return b if c[1] == 'ne' else ('not', b)
        return ('sel', b[1], ('icmp', c[1], b[2], C0), ('icmp', c[1], b[3], C0))
    return c


def conds(n):
    if isinstance(n, arrsum.Lazy):
        n = n.force()
    if n[0] == 'br':
        yield n[1]
        yield from conds(n[2])
        yield from conds(n[3])
    elif n[0] in ('let', 'st', 'ext'):
        yield from conds(n[4 if n[0] == 'let' else 5])


def lens(s):
    """(constant, {argument: times}) or None"""
    c, d = 0, {}
    for x in s:
        if isinstance(x, str):
            c += len(x)
        elif x[0] == 'arg':
            d[x[1]] = d.get(x[1], 0) + 1
        elif x[0] == 'opaque' and x[1] is not None:
            r = lens(x[1])
            if r is None:
                return None
            c += r[0]
            for k, v in r[1].items():
                d[k] = d.get(k, 0) + v
        elif x[0] == 'val' and x[1][-1] in 'diu':
            c += 20
        else:
            return None
    return c, d


def bound(s, st):
    e = lens(s)
    if e is None:
        raise Unknown("length of a string")
    if not e[1]:
        return e[0]
    ups = []        # (linear form, upper bound)
    for c, truth in st.cons:
        f = upper(c, truth, st)
        if f:
            ups.append(f)
    best = None
    one = {k: min([u for f, u in ups if f.get(k, 0) >= 1], default=None) for k in ('dir', 'prefix')}

    def plain(d):
        t = 0
        for k, v in d.items():
            if v and one[k] is None:
                return None
            t += v * one[k] if v else 0
        return t
    cands = [plain(e[1])]
    for f, u in ups:
        q = min((e[1].get(k, 0) // v for k, v in f.items() if v > 0), default=0)
        if q > 0:
            rest = {k: v - q * f.get(k, 0) for k, v in e[1].items()}
            if all(v >= 0 for v in rest.values()):
                p = plain(rest)
                if p is not None:
                    cands.append(q * u + p)
    cands = [c for c in cands if c is not None]
    return e[0] + min(cands) if cands else None


def upper(c, truth, st):
    """a comparison of string lengths as (form, upper bound)"""
    if c[0] != 'icmp':
        return None
    a, b, p = arrsum.aff(c[2]), arrsum.aff(c[3]), c[1]
    d = arrsum.affsub(a, b)
    neg = {'gt': 'le', 'ge': 'lt', 'lt': 'ge', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}
    p = p[1:] if p not in ('eq', 'ne') else p
    p = p if truth else neg[p]
    const, form = d[0], {}
    for t, v in d[1].items():
        if t[0] != 's' or st.of.get(t[1][1], ('?',))[0] != 'strlen':
            return None
        e = lens(st.of[t[1][1]][1])
        if e is None:
            return None
        const += v * e[0]
        for k, w in e[1].items():
            form[k] = form.get(k, 0) + v * w
    if p in ('gt', 'ge'):           # const + form > 0  ->  -form < const
        form, const, p = {k: -v for k, v in form.items()}, -const, {'gt': 'lt', 'ge': 'le'}[p]
    if p not in ('lt', 'le') or any(v < 0 for v in form.values()) or not form:
        return None
    return form, -const - (1 if p == 'lt' else 0)


# ----------------------------------------------------------------------------- C31
def cases():
    out = []
    for k, (m, e, s, v) in enumerate([(m, e, s, v) for m in (0, 2) for e in (1, 2) for s in (0, 1) for v in (0, 1)]):
        names = ('float_type', 'printing_enable', 'profiling_enable', 'interrupt_enable', 'derivatives_enable')
        out.append(Case((3, 5, 4)[k % 3], m and (2, 7)[k % 2], e, s, v, {f: (k * 7 + 3 * j) >> 1 & 1 for j, f in enumerate(names)}))
    return out


def resources(pid):
    res = Result()
    R = pid + "/"
    try:
        p, X, node = tree()
    except Unknown as e:
        res.undecided(R + "files", "osqp_codegen", str(e))
        return res
    f = p.funcs['osqp_codegen']
    loc = ("src/osqp_api.c", f.line if hasattr(f, 'line') else None)
    bad = set()
    asked = set()
    todo = [x for x in cases() if x.m or x.embedded == 2]
    full = todo[-1]
    for c in todo:
        c.asked = asked
    todo = list(todo)
    while todo:
        c = todo.pop(0)
        W = Walk(c, True)
        try:
            W.run(node, St())
        except Wrong as e:
            if str(e) not in bad:
                bad.add(str(e))
                res.fail(R + ("buffers" if 'buffer' in str(e) else "files"), "osqp_codegen", str(e) + " (" + str(c) + ")")
            continue
        except Unknown as e:
            res.undecided(R + "files", "osqp_codegen", str(e))
            continue
        if not todo and asked:
            # a member of the solver that is missing ends the writing early
            for q in sorted(asked):
                d = Case(full.n, full.m, full.embedded, full.scaling, full.vec, full.flags)
                d.missing = q
                todo.append(d)
            asked = None
        for ret, st in W.done:
            tr = ", ".join("%s at %s %s" % (n, w, 'fails' if (v == 0) == (n == 'fopen') else 'succeeds') for n, v, w in st.trace if (v == 0) == (n == 'fopen'))
            for k, fl in st.files.items():
                opened = st.res.get(k)
                msg = None
                if opened == 0:
                    if ret == 0:
                        msg = ("open", "the file opened at %s cannot be opened and osqp_codegen reports success" % fl['where'])
                elif not fl['closed']:
                    msg = ("files", "the file opened at %s is not closed when %s" % (fl['where'], tr or (c.missing + " is missing" if c.missing else 'everything succeeds')))
                elif ret == 0 and (fl['loose'] or fl['closed'] != 'checked'):
                    msg = ("write", "a failure to write the file opened at %s is not reported%s" % (fl['where'], "" if fl['loose'] else " (the file is closed without testing the result)"))
                if msg:
                    if msg not in bad:
                        bad.add(msg)
                        res.fail(R + msg[0], "osqp_codegen, " + place(fl["where"]), msg[1])
                else:
                    res.good(R + "files", "%s / %s / %s" % (c, fl['where'], tr or 'success'))
            fails = [x for x in st.trace if x[0] in ('ferror', 'fclose') and x[1]]
            if fails and ret == 0:
                msg = "the failure of %s at %s is not reported" % (fails[0][0], fails[0][2])
                if msg not in bad:
                    bad.add(msg)
                    res.fail(R + "write", "osqp_codegen, " + place(fails[0][2]), msg)
        for _ in range(getattr(W, 'bounded', 0) and 1):
            res.good(R + "buffers", "%s: %d strings" % (c, W.bounded))
    return res


def place(w):
    return w.replace(PG.REPO + "/", "")


# ----------------------------------------------------------------------------- C30
class Doc:
    """one file: text with marks for symbolic values"""
    def __init__(self, pieces):
        self.tab = []
        s = []
        for x in pieces:
            if isinstance(x, str):
                s.append(x)
            elif x[0] == 'arg':
                s.append('\x04' if x[1] == 'prefix' else '')
            elif x[0] == 'opaque':
                s.append('\x06')
            else:
                s.append('\x02%d\x03' % len(self.tab))
                self.tab.append(x)
        self.raw = ''.join(s)
        self.text = re.sub(r"/\*.*?\*/", " ", self.raw, flags=re.S)
        self.text = re.sub(r'"[^"\n]*\x06[^"\n]*"', '""', self.text)
        guard = re.search(r"^\s*#\s*ifndef\s+(\x06)\s*\n\s*#\s*define\s+\x06\s*\n", self.text)
        if guard:
            self.text = self.text[guard.end():]
        if '\x06' in self.text:
            raise Unknown("part of the text depends on a string that is not known")
        self.macros = dict(re.findall(r"^[ \t]*#[ \t]*define[ \t]+([\w\x04]+)[ \t]*(.*?)[ \t]*$", self.text, re.M))
        body = re.sub(r"^[ \t]*#.*$", "", self.text, flags=re.M)
        self.decls = {}
        ID = r"[\w\x04]+"
        for k in re.finditer(r"(?:static\s+|const\s+)*(%s)(?:\s+|\s*(\*)\s*)(%s)\s*(\[[^\]]*\])?\s*(?:=\s*\{([^{}]*)\})?\s*;" % (ID, ID), body):
            if k.group(2):
                raise Unknown("declaration of a pointer")
            self.decls[k.group(3)] = {'type': k.group(1), 'len': k.group(4)[1:-1].strip() if k.group(4) else None, 'init': k.group(5)}
        rest = re.sub(r"(?:static\s+|const\s+)*(%s)(?:\s+|\s*(\*)\s*)(%s)\s*(\[[^\]]*\])?\s*(?:=\s*\{([^{}]*)\})?\s*;" % (ID, ID), "", body)
        self.rest = rest.strip()

    def items(self, init):
        out = [x.strip() for x in init.split(',')]
        if out and out[-1] == '':
            out.pop()
        return out


OVER = {        # members of the settings which need not be the solver's: the embedded solver has only one choice
    'device': None, 'linsys_solver': {'OSQP_DIRECT_SOLVER', '1'}, 'allocate_solution': None, 'verbose': {'0'}, 'profiler_level': {'0'}, 'polishing': {'0'}}
NOSTATE = {'xtPx', 'qtx', 'SC', 'scaled_dual_gap', 'scaled_prim_res', 'scaled_dual_res', 'obj_val', 'dual_obj_val', 'prim_res', 'dual_res', 'duality_gap', 'iter', 'rho_updates',
           'setup_time', 'solve_time', 'update_time', 'polish_time', 'run_time', 'primdual_int', 'rel_kkt_error', 'status_polish', 'status'}
OMIT = {'owned', 'adj', 'derivative_data', 'pol', 'clear_update_time', 'rho_update_from_solve', 'summary_printed', 'first_run'}
SCRATCHV = {'xz_tilde', 'x_prev', 'z_prev', 'Ax', 'Px', 'Aty', 'delta_y', 'Atdelta_y', 'delta_x', 'Pdelta_x', 'Adelta_x', 'D_temp', 'D_temp_A', 'E_temp'}
SCRATCHA = {'bp': 1, 'sol': 1, 'iwork': 3, 'bwork': 1, 'fwork': 1, 'D': 1}
CTYPE = {'OSQPVectorf': 'struct.OSQPVectorf_', 'OSQPVectori': 'struct.OSQPVectori_', 'OSQPMatrix': 'struct.OSQPMatrix_', 'qdldl_solver': 'struct.qdldl', 'OSQPWorkspace': 'struct.OSQPWorkspace_'}
WANT = {'settings': 'OSQPSettings', 'solution': 'OSQPSolution', 'info': 'OSQPInfo', 'work': 'OSQPWorkspace', 'data': 'OSQPData', 'linsys_solver': 'qdldl_solver', 'scaling': 'OSQPScaling',
        'P': 'OSQPMatrix', 'A': 'OSQPMatrix', 'csc': 'OSQPCscMatrix', 'L': 'OSQPCscMatrix', 'KKT': 'OSQPCscMatrix', 'constr_type': 'OSQPVectori'}
INTA = {'p', 'i', 'P', 'PtoKKT', 'AtoKKT', 'rhotoKKT', 'etree', 'Lnz'}


class Cmp:
    def __init__(self, pid, case, walk, st, doc, layout, fns, res):
        self.pid, self.case, self.walk, self.st, self.doc, self.layout, self.fns, self.res = pid, case, walk, st, doc, layout, fns, res
        self.done = set()
        self.arrays = {}

    # --- reports
    def yes(self, what):
        self.res.good(self.pid + "/member", what)

    def no(self, what, msg, rule="member"):
        self.res.fail(self.pid + "/" + rule, what, msg + " (%s)" % self.case)

    def mac(self, t):
        n = 0
        while t in self.doc.macros and n < 5:
            t = self.doc.macros[t]
            n += 1
        t = t.strip()
        while t.startswith('(') and t.endswith(')'):
            t = t[1:-1].strip()
        return t

    def isnull(self, t):
        return self.mac(t) in ('OSQP_NULL', 'NULL', '0')

    def value(self, t):
        """the printed term of an initialiser, or its text"""
        t = t.strip()
        k = re.fullmatch(r"(?:\(\s*\w+\s*\))?\s*\x02(\d+)\x03", t)
        if k:
            return self.doc.tab[int(k.group(1))]
        return t

    def number(self, t):
        v = self.value(t)
        if isinstance(v, str):
            v = self.mac(v)
            if re.fullmatch(r"\d+", v):
                return int(v)
            raise Unknown("length %r" % v[:40])
        if v[0] != 'val':
            raise Unknown("length")
        return self.walk.ev(v[2], self.st)

    # --- structures
    def record(self, name, src, want):
        """the variable `name` is the structure the solver holds at src"""
        d = self.doc.decls.get(name)
        if d is None:
            return self.no(src, "the variable that must hold %s is not defined" % src)
        if want and d['type'] != want:
            return self.no(src, "%s is a variable of type %s, not %s" % (src, d['type'], want))
        if (name, src) in self.done:
            return
        self.done.add((name, src))
        lay = self.layout.get(CTYPE.get(d['type'], 'struct.' + d['type']))
        if lay is None:
            raise Unknown("type " + d['type'])
        if d['init'] is None:
            return self.no(src, "the variable that must hold %s is not initialised" % src)
        items = self.doc.items(d['init'])
        if any(self.doc.tab[int(k)][0] == 'rep' for x in items for k in re.findall("\x02(\\d+)\x03", x)):
            self.res.undecided(self.pid + "/member", src, "the values of the structure are written by a loop")
            return
        if len(items) > len(lay):
            return self.no(src, "%d values are written for the %d members of %s" % (len(items), len(lay), src))
        given, j = {}, 0
        for x in items:
            k = re.match(r"\.\s*(\w+)\s*=(?!=)\s*(.*)$", x, re.S)
            if k:
                if k.group(1) not in lay:
                    return self.no(src, "%s has no member %s" % (src, k.group(1)))
                j, x = lay.index(k.group(1)), k.group(2).strip()
            if j >= len(lay):
                return self.no(src, "more values are written than %s has members" % src)
            given[lay[j]] = x
            j += 1
        for f in lay:
            what = src + '.' + f
            if f not in given:
                if f in OMIT:
                    continue
                self.no(what, "no value is written for %s" % what)
                continue
            try:
                self.field(src, f, given[f], what)
            except Unknown as e:
                self.res.undecided(self.pid + "/member", what, str(e))

    def source(self, v, src, f, what):
        """the printed value is the member's"""
        if v[0] != 'val':
            return self.no(what, "a list is written where %s belongs" % what)
        t = arrsum.strip(v[2])
        got = None
        while t[0] in ('itof', 'ftoi'):
            t = t[1]
        if t[0] == 'fld':
            got = path(t[1]) + '.' + t[2]
        ok = got == what
        if not ok and f in ('n', 'm', 'length', 'nzmax') or (not ok and f == 'm'):
            ok = self.walk.ev(v[2], self.st) == self.walk.case.fld(src, f)
        if not ok:
            return self.no(what, "%s is written where the value of %s belongs (%s)" % (got or "another value", what, place(v[3])))
        self.precise(v, what)
        self.yes(what)

    def precise(self, v, what):
        k = re.fullmatch(r"%[-+ #0]*\d*(?:\.(\d+))?(?:[hlLzjt]*)([a-zA-Z])", v[1])
        if k and k.group(2) in 'fFeEgG':
            p = int(k.group(1)) if k.group(1) else 6
            if k.group(2) in 'fF' or k.group(2) in 'eE' and p < 16 or k.group(2) in 'gG' and p < 17:
                self.no(place(v[3]), "the format %s does not keep the value of %s" % (v[1], what), "precision")

    def field(self, src, f, t, what):
        last = src.split('.')[-1]
        ref = t.startswith('&')
        if f in self.fns and last == 'linsys_solver':
            name = t.lstrip('&').strip()
            if name in self.fns[f]:
                return self.yes(what)
            return self.no(what, "%s is written where the operation %s (%s) belongs" % (name, f, " or ".join(sorted(self.fns[f]))))
        if last == 'settings':
            v = self.value(t)
            if f in OVER and isinstance(v, str):
                if OVER[f] is None or v in OVER[f]:
                    return self.yes(what)
                return self.no(what, "%s is written for %s" % (v, what))
            if isinstance(v, str):
                return self.no(what, "the constant %s is written where the value of %s belongs" % (v, what))
            if f in OVER and OVER[f] is not None:
                return self.no(what, "a value that the embedded solver cannot use is written for %s" % what)
            return self.source(v, src, f, what)
        if last == 'info':
            if f == 'status_val':
                if t in ('OSQP_UNSOLVED', '11'):
                    return self.yes(what)
                v = self.value(t)
                return self.no(what, "the status written is %s, not unsolved" % (v if isinstance(v, str) else "another"))
            if f in NOSTATE:
                return self.yes(what)
            v = self.value(t)
            if isinstance(v, str):
                return self.no(what, "the constant %s is written where the value of %s belongs" % (v, what))
            return self.source(v, src, f, what)
        if last == 'solution':
            n = self.case.size({'x': 'n', 'y': 'm', 'prim_inf_cert': 'm', 'dual_inf_cert': 'n'}[f]) if f in ('x', 'y', 'prim_inf_cert', 'dual_inf_cert') else None
            if n is None:
                raise Unknown("member " + what)
            return self.scratch(t, n, 'OSQPFloat', what)
        if last == 'work':
            if f in ('data', 'linsys_solver', 'scaling', 'rho_vec', 'rho_inv_vec', 'constr_type', 'x', 'y', 'z'):
                t2 = re.sub(r"^\(\s*\w+\s*\*\s*\)", "", t).strip()
                if self.isnull(t2):
                    if f == 'scaling' and not self.case.scaling or f in ('rho_vec', 'rho_inv_vec', 'constr_type') and not self.case.vec:
                        return self.yes(what)
                    return self.no(what, "NULL is written for %s" % what)
                if not t2.startswith('&'):
                    return self.no(what, "%s is written where the address of %s belongs" % (shown(t2), what))
                return self.record(t2[1:].strip(), what, WANT.get(f, 'OSQPVectorf'))
            if f in SCRATCHV:
                if self.isnull(t) and f.startswith(('D_temp', 'E_temp')) and not self.case.scaling:
                    return self.yes(what)
                if not ref:
                    return self.no(what, "%s is written where a vector belongs" % shown(t))
                return self.vector(t[1:].strip(), what, self.case.size(LENS[f]))
            if f in ('xtilde_view', 'ztilde_view'):
                if not ref:
                    return self.no(what, "%s is written where a view belongs" % shown(t))
                return self.view(t[1:].strip(), what, f)
            if f in NOSTATE:
                if ref:
                    return self.no(what, "an address is written where the number %s belongs" % what)
                return self.yes(what)
            v = self.value(t)
            if isinstance(v, str):
                if ref:
                    return self.no(what, "an address is written where the number %s belongs" % what)
                return self.no(what, "the constant %s is written where the value of %s belongs" % (shown(v), what))
            return self.source(v, src, f, what)
        # arrays
        if last == 'linsys_solver' and f in SCRATCHA and not (f == 'D' and self.listed(t)):
            if not self.array_ok(t):
                return self.no(what, "%s is written where the array %s belongs" % (shown(t), what))
            return self.scratch(t, SCRATCHA[f] * self.case.size('nm'), None, what)
        n = self.arrlen(src, last, f)
        if n is not None:
            if not self.array_ok(t):
                return self.no(what, "%s is written where the array %s belongs" % (shown(t), what))
            return self.content(t, n, 'OSQPInt' if f in INTA or last == 'constr_type' else 'OSQPFloat', src, f, what)
        if f in WANT or last in ('data', 'scaling') and f in ('q', 'l', 'u', 'D', 'E', 'Dinv', 'Einv'):
            if not ref:
                return self.no(what, "%s is written where the address of %s belongs" % (shown(t), what))
            return self.record(t[1:].strip(), what, WANT.get(f, 'OSQPVectorf'))
        v = self.value(t)
        if isinstance(v, str):
            if ref or v in self.doc.decls:
                return self.no(what, "an address is written where the number %s belongs" % what)
            try:
                same = int(v) == self.case.fld(src, f)
            except (ValueError, Unknown):
                same = False
            if same:
                return self.yes(what)
            return self.no(what, "the constant %s is written where the value of %s belongs" % (shown(v), what))
        return self.source(v, src, f, what)

    def arrlen(self, src, last, f):
        if last in LENS and f == 'values':
            return self.case.fld(src, 'length')
        if last in ('csc', 'L', 'KKT'):
            a, b, z = self.case.csc[src.replace('solver.work.', '')]
            return {'p': b + 1, 'i': z, 'x': z}.get(f)
        if last == 'linsys_solver':
            N = self.case.size('nm')
            if f == 'rho_inv_vec':
                return self.case.m if self.case.vec else 0
            return {'Dinv': N, 'P': N, 'PtoKKT': self.case.nnz['data.P.csc'], 'AtoKKT': self.case.nnz['data.A.csc'], 'rhotoKKT': self.case.m, 'D': N, 'etree': N, 'Lnz': N}.get(f)
        return None

    def array_ok(self, t):
        return self.isnull(t) or re.fullmatch(r"[\w\x04]+", t) is not None

    def listed(self, t):
        d = self.doc.decls.get(t)
        return d is not None and d['init'] is not None

    def scratch(self, t, n, ty, what):
        if self.isnull(t):
            if n == 0:
                return self.yes(what)
            return self.no(what, "NULL is written for %s" % what)
        d = self.doc.decls.get(t)
        if d is None or d['len'] is None:
            return self.no(what, "the array that must hold %s is not defined" % what)
        k = self.number(d['len'])
        if k < n:
            return self.no(what, "the array for %s has %d entries where %d are needed" % (what, k, n))
        if d['init'] is None:
            if t in self.arrays and self.arrays[t] != what:
                return self.no(what, "%s and %s share their memory" % (what, self.arrays[t]))
            self.arrays[t] = what
        self.yes(what)

    def content(self, t, n, ty, src, f, what):
        if self.isnull(t):
            if n == 0:
                return self.yes(what)
            return self.no(what, "NULL is written for %s" % what)
        d = self.doc.decls.get(t)
        if d is None or d['len'] is None:
            return self.no(what, "the array that must hold %s is not defined" % what)
        if d['type'] != ty and ty is not None and not (ty == 'OSQPInt' and 'int' in d['type'].lower() or ty == 'OSQPFloat' and 'float' in d['type'].lower()):
            return self.no(what, "the array that must hold %s has entries of type %s" % (what, d['type']))
        k = self.number(d['len'])
        if k != n:
            return self.no(what, "the array for %s has %d entries, the solver's has %d" % (what, k, n))
        body = (d['init'] or '').strip()
        q = re.fullmatch(r"\x02(\d+)\x03", body)
        if not q:
            if d['init'] is None:
                return self.no(what, "the array for %s has no values" % what)
            raise Unknown("values of " + what)
        rep = self.doc.tab[int(q.group(1))]
        if rep[0] != 'rep':
            raise Unknown("values of " + what)
        _, count, L, inds, pieces = rep
        if count != n:
            return self.no(what, "%d values are written for the %d entries of %s" % (count, n, what))
        vals = [x for x in pieces if not isinstance(x, str)]
        rest = ''.join(x for x in pieces if isinstance(x, str))
        rest = re.sub(r"\(\s*\w+\s*\)", "", rest)
        if len(vals) != 1 or rest.strip() != ',' or vals[0][0] != 'val':
            raise Unknown("values of " + what)
        v = vals[0]
        e = v[2]
        while e[0] in ('itof', 'ftoi'):
            e = e[1]
        if e[0] == 'lv':
            e = e[2]
        if e[0] != 'ld':
            return self.no(what, "another value is written where the entries of %s belong" % what)
        a, b = L.sub(e[2], inds)
        got = path(e[1])
        if got != what:
            return self.no(what, "the entries of %s are written where those of %s belong" % (got, what))
        start = a[0] + sum(c * self.walk.ev(x, self.st) for x, c in a[1].items())
        if start != 0 or b != 1:
            return self.no(what, "the entries of %s are not written in their order" % what)
        self.precise(v, what)
        self.yes(what)

    def vector(self, name, what, n):
        d = self.doc.decls.get(name)
        if d is None or d['init'] is None:
            return self.no(what, "the variable that must hold %s is not defined" % what)
        if d['type'] != 'OSQPVectorf':
            return self.no(what, "%s is a variable of type %s" % (what, d['type']))
        items = self.doc.items(d['init'])
        lay = self.layout['struct.OSQPVectorf_']
        if lay[:2] != ['values', 'length'] or len(items) < 2:
            raise Unknown("layout of a vector")
        k = self.number(items[1])
        if k != n:
            return self.no(what, "%s has length %d instead of %d" % (what, k, n))
        self.scratch(items[0], n, 'OSQPFloat', what)
        self.xz = items[0] if what.endswith('.xz_tilde') else getattr(self, 'xz', None)

    def view(self, name, what, f):
        d = self.doc.decls.get(name)
        if d is None or d['init'] is None:
            return self.no(what, "the variable that must hold %s is not defined" % what)
        items = self.doc.items(d['init'])
        if len(items) < 2:
            raise Unknown("view")
        n = self.case.size('n' if f == 'xtilde_view' else 'm')
        if self.number(items[1]) != n:
            return self.no(what, "%s has length %d instead of %d" % (what, self.number(items[1]), n))
        k = re.fullmatch(r"&?\s*([\w\x04]+)\s*(?:\+\s*(.*)|\[(.*)\])?", items[0])
        if not k:
            raise Unknown("view")
        off = self.number(k.group(2) or k.group(3) or '0')
        if getattr(self, 'xz', None) is None:
            raise Unknown("view without its vector")
        if k.group(1) != self.xz or off != (0 if f == 'xtilde_view' else self.case.n):
            return self.no(what, "%s does not show its part of xz_tilde" % what)
        self.yes(what)


def shown(t):
    return t.replace('\x04', '').replace('\x02', '').replace('\x03', '')


def layout(case):
    opts = [m for f, m in sorted(FLAGS.items()) if f in ('printing_enable', 'profiling_enable', 'derivatives_enable') and case.flags.get(f)]
    return PG.load('+'.join(['layout%d' % case.embedded] + opts)).fields


def operations():
    """member of the backend's structure -> functions the initialisation stores there"""
    p = PG.load('builtin')
    out = {}
    for f in p.funcs.values():
        for b in f.blocks.values():
            geps = {i.res: i for i in b.insts if i.op == 'gep'}
            for i in b.insts:
                if i.op == 'store' and i.ops[0][0] == 'glob' and i.ops[1][0] == 'reg' and i.ops[1][1] in geps:
                    st, ops = geps[i.ops[1][1]].x
                    if st.k == 'struct' and st.a == 'struct.qdldl' and len(ops) == 3 and ops[2][1][0] == 'const':
                        out.setdefault(p.fields[st.a][ops[2][1][1]], set()).add(i.ops[0][1])
    return out


FLAGS = {'derivatives_enable': 'OSQP_ENABLE_DERIVATIVES', 'printing_enable': 'OSQP_ENABLE_PRINTING', 'profiling_enable': 'OSQP_ENABLE_PROFILING',
         'interrupt_enable': 'OSQP_ENABLE_INTERRUPT', 'float_type': 'OSQP_USE_FLOAT'}


def generated(pid, k):
    """the files written for one case"""
    case = cases()[k]
    res = Result()
    R = pid + "/"
    try:
        p, X, node = tree()
        W = Walk(case, False)
        W.run(node, St())
        if len(W.done) != 1:
            raise Unknown("several outcomes")
        ret, st = W.done[0]
        if ret != 0:
            res.fail(R + "files", "osqp_codegen", "osqp_codegen reports the error %s for a valid solver (%s)" % (ret, case))
            return res
        docs = {}
        for f in st.files.values():
            name = ''.join(x if isinstance(x, str) else '\x04' if x == ('arg', 'prefix') else '' for x in f['path'])
            if f['path'][:1] != [('arg', 'dir')]:
                res.fail(R + "files", "osqp_codegen, " + place(f['where']), "the file opened at %s is not in the output directory" % f['where'])
            docs[name.lstrip('/')] = Doc(f['text'])
        src = [d for d in docs.values() if any(x['type'] == 'OSQPSolver' and x['init'] is not None for x in d.decls.values())]
        if len(src) != 1:
            raise Unknown("the solver structure was not found in what is written")
        doc = src[0]
        name = [n for n, x in doc.decls.items() if x['type'] == 'OSQPSolver' and x['init'] is not None]
        if len(name) != 1:
            raise Unknown("several solvers")
        if doc.rest:
            raise Unknown("part of the text is not understood: %r" % shown(doc.rest)[:60])
        lay = layout(case)
        C = Cmp(pid, case, W, st, doc, lay, operations(), res)
        C.doc = doc
        d = doc.decls[name[0]]
        items = doc.items(d['init'])
        L = lay['struct.OSQPSolver']
        if len(items) != len(L):
            C.no('solver', "%d values are written for the %d members of the solver" % (len(items), len(L)))
        for f, t in zip(L, items):
            if not t.startswith('&'):
                C.no('solver.' + f, "%s is written where the address of solver.%s belongs" % (shown(t), f))
            else:
                C.record(t[1:].strip(), 'solver.' + f, WANT.get(f))
        # every name once
        raw = re.findall(r"^[ \t]*(?:static\s+)?(\w+)\s+([\w\x04]+)\s*(?:\[[^\]]*\])?\s*(?:=\s*\{|;)", re.sub(r"/\*.*?\*/", " ", doc.raw, flags=re.S), re.M)
        seen = {}
        for ty, nm in raw:
            seen[nm] = seen.get(nm, 0) + 1
        for nm, c in seen.items():
            if c > 1:
                C.no('solver', "the variable %s is defined twice" % shown(nm), "files")
        # the other files
        heads = [(n, d) for n, d in docs.items() if n.endswith('.h') and 'configure' not in n]
        for n, d in heads:
            ext = re.findall(r"extern\s+OSQPSolver\s+([\w\x04]+)\s*;", d.text)
            if ext:
                res.check(ext == name, R + "files", "header", "the header declares %s, the solver defined is %s" % (shown(ext[0]), shown(name[0])))
        for n, d in docs.items():
            for inc in re.findall(r'#\s*include\s+"([^"]*\x04[^"]*)"', d.text):
                res.check(inc in docs, R + "files", "include", "%s includes %s, which is not written" % (shown(n), shown(inc)))
            for used in re.findall(r"osqp_solve\s*\(\s*&\s*([\w\x04]+)", d.text):
                res.check(used == name[0], R + "files", "example", "the example solves %s, the solver defined is %s" % (shown(used), shown(name[0])))
        conf = [d for d in docs.values() if 'OSQP_EMBEDDED_MODE' in d.macros]
        if len(conf) != 1:
            res.fail(R + "options", "osqp_configure.h", "no file defines OSQP_EMBEDDED_MODE")
        else:
            m = conf[0].macros
            try:
                mode = C2(conf[0], C).number(m['OSQP_EMBEDDED_MODE'])
                res.check(mode == case.embedded, R + "options", "OSQP_EMBEDDED_MODE", "OSQP_EMBEDDED_MODE is %s for embedded mode %d" % (mode, case.embedded))
            except Unknown as e:
                res.undecided(R + "options", "OSQP_EMBEDDED_MODE", str(e))
            for f, mac in FLAGS.items():
                res.check((mac in m) == bool(case.flags[f]), R + "options", f, "%s is %sdefined when the option %s is %d" % (mac, "" if mac in m else "not ", f, case.flags[f]))
            res.check('OSQP_ALGEBRA_BUILTIN' in m, R + "options", "algebra", "OSQP_ALGEBRA_BUILTIN is not defined")
    except Wrong as e:
        res.fail(R + "files", "osqp_codegen", str(e))
    except Unknown as e:
        res.undecided(R + "files", "osqp_codegen", str(e))
    return res


def C2(doc, C):
    c = Cmp(C.pid, C.case, C.walk, C.st, doc, C.layout, C.fns, C.res)
    return c


def collect30(pid, tier):
    tree()
    res = Result()
    for r in [generated(pid, k) for k in range(len(cases()))]:
        res.merge(r)
    return res
