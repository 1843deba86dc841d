"""C26: the linear system always represents the current P, A, sigma and rho

The assembly of the KKT matrix is a counting sort: every loop of it is summarised (arrsum) and each of its iterations is interpreted in isolation
on symbolic column counters (never in sequence), which gives the set of increments and of (column, row, value, map) placements the loop makes.  The sets, composed
with the recognised prefix sum and shift of the counters, must be the definition's for every entry of P, A, the missing diagonal and the penalty block.
The operations of the backends which refresh, use or build the matrix are summarised the same way, up to the factorisation or solve they call."""
import random
from .lib import *
from . import prog as PG, arrsum, matchk
from .arrsum import Unknown, Wrong, Ev, C0

BIG = 10 ** 7
ALLOC = {'malloc', 'calloc', 'realloc', 'c_malloc', 'c_calloc', 'mkl_malloc', 'aligned_alloc'}


class KX(arrsum.Extract):
    """calls that leave the library are nodes ('ext', name, args, where, result, next)"""
    def __init__(self, p, hold=(), **k):
        super().__init__(p, {}, depth=60, lets=True, **k)
        self.hold = hold
        self.nx = 0
        self.const = {}

    def load(self, env, ptr, ty):
        if ptr[0] == 'fa' and ptr[1:3] in self.const:
            return self.const[ptr[1:3]]
        if ptr[0] == 'fa' and ptr[3].k == 'array':
            ptr = ('p', (ptr[1], '[]' + ptr[2]), C0)
        if ptr[0] == 'p' and ty.k == 'ptr' and ptr[1][0] != 'loc':     # the address kept in an array
            raise Unknown("pointer in an array")
        return super().load(env, ptr, ty)

    def store(self, env, ptr, v):
        if ptr[0] == 'fa' and ptr[3].k == 'array':
            ptr = ('p', (ptr[1], '[]' + ptr[2]), C0)
        return super().store(env, ptr, v)

    def gep(self, fr, env, i):
        st, ops = i.x
        base = self.val(fr, env, ops[0][1])
        if base[0] == 'fa' and base[3].k == 'array':
            idx = [self.val(fr, env, v) for t, v in ops[1:]]
            if st.k == 'array' and len(idx) == 2 and idx[0] == C0 or st.k != 'array' and len(idx) == 1:
                return ('p', (base[1], '[]' + base[2]), idx[-1])
        return super().gep(fr, env, i)

    def call(self, fr, blk, n, i, env, depth):
        c = i.x['callee']
        name = c[1] if c[0] == 'glob' else None
        if name is None or name.startswith(arrsum.SKIP) or name in arrsum.FABS | arrsum.SQRT | arrsum.FMAX | arrsum.FMIN or name in arrsum.OPS:
            return super().call(fr, blk, n, i, env, depth)
        f = fr.f.module.funcs.get(name) or self.p.funcs.get(name)
        if name in self.hold or f is None:
            if name.startswith(('llvm.fmuladd', 'llvm.fma')):
                return super().call(fr, blk, n, i, env, depth)
            args = [self.val(fr, env, v) for t, v in i.x['args']]
            if name in arrsum.PRINT:
                if i.res is not None:
                    env.r[i.res] = C0
                return None
            self.nx += 1
            nx = self.nx
            r = None
            if i.res is not None:
                r = ('p', ('new', self.nx), C0) if i.ty.k == 'ptr' and name not in self.hold else ('q', ('mat', self.nx)) if i.ty.k == 'ptr' else ('s', ('ret', self.nx))
                env.r[i.res] = r
            seen = tuple(self.deref(env, a) for a in args)
            for a in args:
                if a[0] == 'fa':
                    env.mem.pop((a[1], a[2]), None)
            if name not in ALLOC and not name.startswith(('mkl_free', 'free', 'osqp_profiler')):
                for k in [k for k in env.mem if any(a[0] == 'p' and a[1] == k[0] for a in args)]:
                    del env.mem[k]
                for q, a in enumerate(args):
                    if a[0] == 'p' and a[1][0] == 'loc':
                        env.mem[(a[1], arrsum.affkey(arrsum.aff(a[2])))] = ('s', ('out', self.nx, q))
            return ('ext', name, seen, self.where(i), r, self.insts(fr, blk, n, env, depth + 1), nx)
        return super().call(fr, blk, n, i, env, depth)

    def deref(self, env, a):
        if a[0] == 'fa' and a[3].k == 'array':
            return ('p', (a[1], '[]' + a[2]), C0)
        if a[0] == 'fa':
            return ('at', a[1], a[2], env.mem.get((a[1], a[2])) or ('fld', a[1], a[2]))
        return super().deref(env, a)


class Vary(Exception):
    """the value depends on something a counter holds"""


class Sem:
    """evaluation of a summary: memory is known cell by cell; every iteration of a loop sees the memory before the loop"""
    def __init__(self, mem, flds, scal, ptrs=None):
        self.mem, self.flds, self.scal = mem, flds, scal        # mem: object -> (length, {index: value} or function)
        self.ptrs = ptrs or {}          # objects which are NULL (0)
        self.lv, self.phi = {}, {}
        self.over = {}          # what the current iteration wrote
        self.where = None
        self.writes = []
        self.inner = 0
        self.order = 0
        self.exts = []

    def cell(self, obj, i):
        m = self.mem.get(obj)
        if m is None:
            raise Unknown("array %s" % (obj,))
        if i != i or int(i) != i:
            raise Unknown("index")
        i = int(i)
        n = m[0]
        if n is not None and not 0 <= i < n:
            raise Wrong("entry %d of %s (length %d) is accessed at %s" % (i, obj[-1], n, self.where))
        return m, i

    def read(self, obj, i):
        m, i = self.cell(obj, i)
        if (obj, i) in self.over:
            return self.over[(obj, i)]
        if callable(m[1]):
            return m[1](i)
        if i not in m[1]:
            raise Unknown("entry of %s read before it is known, at %s" % (obj[-1], self.where))
        return m[1][i]

    def write(self, obj, i, v):
        m, i = self.cell(obj, i)
        self.over[(obj, i)] = v
        self.writes.append((obj, i, v, self.where))

    def atom(self, t):
        h = t[0]
        if h == 's':
            return self.scal[t[1]]
        if h == 'fld':
            if t[1:] in self.flds:
                return self.flds[t[1:]]
            raise Unknown("member %s" % t[2])
        if h == 'phi':
            return self.phi[t]
        if h == 'lv':
            if t[1] in self.lv:
                return self.lv[t[1]]
            return self.atom(t[2])
        if h == 'ld':
            return self.read(t[1], self.ev(t[2]))
        if h == 'cell':
            return self.ev(t[1])
        if h == 'p':
            return self.ptrs.get(t[1], 1)
        if h in ('q', 'fn', 'str'):
            return self.ptrs.get(t[1], 1) if h == 'q' else 1
        raise Unknown("value " + h)

    def ev(self, t):
        return Ev(self.atom)(t)

    def aff(self, a):
        return a[0] + sum(c * self.ev(k) for k, c in a[1].items())

    def run(self, n):
        while True:
            if isinstance(n, arrsum.Lazy):
                n = n.force()
            h = n[0]
            if h == 'let':
                self.where = n[3]
                self.lv[n[1]] = self.read(n[2][1], self.ev(n[2][2]))
                n = n[4]
            elif h == 'br':
                n = n[2] if self.ev(n[1]) else n[3]
            elif h == 'st':
                self.where = n[4]
                if n[1][0] == 'field':
                    self.setfield(n[1], n[3])
                elif n[3][0] in ('p', 'q', 'fn', 'str'):
                    self.setptr(n[1], n[2], n[3])
                else:
                    self.write(n[1], self.ev(n[2]), self.ev(n[3]))
                n = n[5]
            elif h == 'loop':
                n = n[2][self.loop(n[1])]
            elif h == 'op':
                self.where = n[3]
                self.library(n[1], n[2])
                n = n[4]
            elif h == 'ext':
                self.where = n[3]
                self.ext(n)
                n = n[5]
            else:
                return n

    def setfield(self, f, v):
        if self.inner:
            raise Unknown("member written in a loop")
        if v[0] in ('p', 'q', 'fn', 'str'):
            return
        try:
            self.flds[(f[1], f[2])] = self.ev(v)
        except (Unknown, KeyError):
            self.flds.pop((f[1], f[2]), None)

    def setptr(self, obj, idx, v):
        raise Unknown("pointer stored in an array")

    def ext(self, n):
        self.exts.append(n)

    def library(self, name, a):
        if name.startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove', 'memmove', 'llvm.memset', 'memset')) and a[0][0] == 'p' and not self.inner:
            size = self.ev(a[2])
            o = self.ev(a[0][2])
            if size % 8:
                raise Wrong("a copy ends inside an entry")
            if 'memset' in name:
                if self.ev(a[1]):
                    raise Unknown("memset")
                new = [(o + k, 0) for k in range(size // 8)]
            else:
                o2 = self.ev(a[1][2])
                new = [(o + k, self.read(a[1][1], o2 + k)) for k in range(size // 8)]
            for i, v in new:
                self.write(a[0][1], i, v)
            self.commit()
            return
        if name in VOPS and not self.inner:
            k = self.ev(a[0])
            src = [(self.ev(x[2]), x[1]) for x in a[1:-1]]
            d, o = a[-1][1], self.ev(a[-1][2])
            new = [(o + j, VOPS[name](*[self.read(ob, s + j) for s, ob in src])) for j in range(k)]
            for i, v in new:
                self.write(d, i, v)
            self.commit()
            return
        raise Unknown("library call " + name)

    def commit(self):
        """what has been written becomes part of the memory"""
        for (o, i), v in self.over.items():
            m = self.mem[o]
            if callable(m[1]):
                f = m[1]
                self.mem[o] = m = (m[0], Cells(f))
            m[1][i] = v
        self.over = {}

    def loop(self, L):
        if not self.inner:
            self.commit()
        trip, once, exits, inds = L.shape()
        if len(exits) != 1 or len(L.exits) != 1:
            raise Unknown("loop left in several ways")
        init = {r: self.ev(t[2] if t[0] == 'p' else t) for r, t in L.init.items()}
        P = lambda r: ('phi', L.id, r)
        for r, v in init.items():
            self.phi[P(r)] = v
        T = max(self.aff(trip), 1 if once else 0)
        acc = [r for r in L.init if r not in inds]
        micro = []
        outer = self.over = self.segment(self.over)
        total = dict(init)
        saved = getattr(self, 'nest', None)
        if saved is not None:
            saved.append(self.writes)
        law = None
        self.inner += 1
        try:
            for t in range(T):
                for r in inds:
                    self.phi[P(r)] = init[r] + inds[r] * t
                for probe in ((3.0, 1000.0) if acc else (0,)):
                    base = {r: probe + 7 * k for k, r in enumerate(acc)}
                    for r in acc:
                        self.phi[P(r)] = base[r]
                    self.over, self.writes = dict(outer), []
                    nest = self.nest = []
                    o = self.run(L.body)
                    if o[0] == 'exit' and o[1] in exits and once and t == T - 1:
                        latch = None
                    elif o[0] != 'latch':
                        raise Unknown("loop left early")
                    else:
                        latch = {r: self.ev(o[1][r]) for r in acc}
                    nest.append(self.writes)
                    got = (sum(nest, []), latch, base, [w for w in nest if w])
                    if acc and probe == 3.0:
                        first = got
                micro.append((t, first if acc else got, got))
        finally:
            self.inner -= 1
            self.over = outer
            self.nest = saved
        self.writes = []
        k = self.special(L, inds, init, acc, T, micro)
        if not k:
            if acc:
                for r in acc:
                    s = init[r]
                    for t, a, b in micro:
                        if a[1] is None or [w[:3] for w in a[0]] != [w[:3] for w in b[0]]:
                            raise Unknown("loop at %s carries a value from one iteration to the next" % L.where)
                        d1, d2 = a[1][r] - a[2][r], b[1][r] - b[2][r]
                        if abs(d1 - d2) > 1e-9:
                            raise Unknown("loop at %s does not accumulate a sum" % L.where)
                        s += d1
                    total[r] = s
            self.effects(L, [(t, g[0], g[3]) for t, _, g in micro])
        for r in L.init:
            self.phi[P(r)] = init[r] + inds[r] * (T - (1 if once else 0)) if r in inds else total[r]
        return next(iter(exits))

    def special(self, L, inds, init, acc, T, micro):
        return False

    def segment(self, over):
        return over

    def effects(self, L, micro):
        """iterations are independent: none reads what another writes"""
        if self.inner:
            for _, ws, _ in micro:
                if self.nest is not None:
                    self.nest.append(ws)
                for x in ws:
                    self.over[x[:2]] = x[2]
            return
        seen = {}
        for t, ws, _ in micro:
            for o, i, v, wh in ws:
                self.over[(o, i)] = v
        self.commit()


class Cells(dict):
    def __init__(self, f):
        self.f = f

    def __missing__(self, i):
        return self.f(i)

    def __contains__(self, i):
        return True


VOPS = {'vdInv': lambda a: arrsum._div(1.0, a), 'vdAdd': lambda a, b: a + b, 'vdSub': lambda a, b: a - b, 'vdMul': lambda a, b: a * b, 'vdDiv': arrsum._div}


# ----------------------------------------------------------------------------- a generic pattern
class Pattern:
    """P upper triangular with columns of every kind (empty, with and without its diagonal entry), A general; rows sorted in every column"""
    def __init__(self, seed):
        R = self.R = random.Random(seed)
        self.n, self.m = R.choice((11, 14)), R.choice((16, 19))
        if seed == 2:
            self.m = 0
        n, m = self.n, self.m
        self.P = [[] for _ in range(n)]
        for j in range(n):
            kind = (j + seed) % 3
            rows = sorted(R.sample(range(j), min(j, R.randint(1, 3)))) if kind != 2 and j else []
            if kind == 0 or (kind == 2 and R.random() < .3):
                rows.append(j)
            self.P[j] = rows
        self.A = [sorted(R.sample(range(m), min(m, R.choice((0, 1, 2, 4))))) for _ in range(n)]
        self.Px = {k: R.uniform(-3, 3) for k in range(sum(map(len, self.P)))}
        self.Ax = {k: R.uniform(-3, 3) for k in range(sum(map(len, self.A)))}
        self.sigma = R.uniform(.1, 2)
        self.rho = {i: R.uniform(.1, 2) for i in range(m)}
        self.rho_sc = R.uniform(.1, 2)

    def csc(self, obj, cols, x, m):
        p, idx = {0: 0}, {}
        for j, c in enumerate(cols):
            for r in c:
                idx[len(idx)] = r
            p[j + 1] = len(idx)
        return {(obj, 'p'): (len(cols) + 1, p), (obj, 'i'): (len(idx), idx), (obj, 'x'): (len(idx), dict(x))}, {
            (obj, 'n'): len(cols), (obj, 'm'): m, (obj, 'nz'): -1, (obj, 'nzmax'): len(idx)}

    def entries(self, cols):
        k = 0
        for j, c in enumerate(cols):
            for r in c:
                yield k, r, j
                k += 1


S = lambda c: BIG * (c + 1)


def where_is(d):
    c = int(round(d / BIG)) - 1
    return c, d - S(c)


class Assembly(Sem):
    """phases of the counting sort"""
    def __init__(self, pat, fmt, mem, flds, scal, ptrs):
        super().__init__(mem, flds, scal, ptrs)
        self.pat, self.fmt = pat, fmt
        self.N = pat.n + pat.m
        self.K = None
        self.phase = 'raw'
        self.counts, self.fills, self.nest_no = {}, [], 0
        self.shifted = None

    def start(self, nz):
        N = self.N
        o = self.obj
        self.KP, self.KI, self.KXX = (o, 'p'), (o, 'i'), (o, 'x')
        self.mem[self.KP] = (N + 1, {})
        self.mem[self.KI] = (None, {})
        self.mem[self.KXX] = (None, {})
        self.flds.update({(o, 'n'): N, (o, 'm'): N, (o, 'nz'): -1, (o, 'nzmax'): nz})
        self.nz = nz

    def ext(self, n):
        if n[4] is not None and n[4][0] == 'q':
            a = [self.ev(x) for x in n[2]]
            if self.K is not None:
                raise Unknown("two matrices")
            self.K, self.obj = a, n[4][1]
            if a[0] != self.N or a[1] != self.N:
                raise Wrong("the KKT matrix is allocated as %d x %d for %d variables and %d constraints" % (a[0], a[1], self.pat.n, self.pat.m))
            self.start(a[2])
            if not a[3]:
                raise Wrong("the KKT matrix is allocated without values")
        else:
            raise Unknown("call of " + n[1])

    def commit(self):
        if self.phase == 'raw' and self.K is not None and any(o == self.KP for o, _ in self.over):
            zero = {i: v for (o, i), v in self.over.items() if o == self.KP}
            if set(zero) == set(range(self.N + 1)) and not any(zero.values()):
                self.phase = 'count'
                self.mem[self.KP] = (self.N + 1, S)
                self.over = {}
                return
        if self.phase == 'back' and self.over:
            if set(self.over) != {(self.KP, 0)}:
                raise Unknown("order of the assembly")
            self.first = self.over[(self.KP, 0)]
            self.over = {}
            self.settle()
            return
        if self.phase in ('count', 'fill') and any(o in (self.KP, self.KI, self.KXX) for o, _ in self.over):
            raise Unknown("matrix written outside a loop")
        super().commit()

    def segment(self, over):
        if self.phase in ('count', 'fill'):
            return {k: v for k, v in over.items() if k[0] != self.KP}
        return over

    # the prefix sum and the shift of the counters
    def special(self, L, inds, init, acc, T, micro):
        if self.K is None:
            return False
        if self.inner:
            return False
        N = self.N
        kp = [[w for w in g[0] if w[0] == self.KP] for _, _, g in micro]
        if not any(kp) or any(w[0] != self.KP for _, _, g in micro for w in g[0]):
            return False
        if self.phase == 'raw':
            return False
        if self.phase == 'count' and len(acc) == 1:
            r = acc[0]
            cols = []
            for t, a, b in micro:
                for g in (a, b):
                    if len(g[0]) != 1:
                        return False
                    c = g[0][0][1]
                    if g[0][0][2] != g[2][r] or g[1] is None or g[1][r] != g[2][r] + S(c):
                        raise Wrong("the column counts are not turned into the start of each column: column %d at %s" % (c, L.where))
                cols.append(c)
            if cols != list(range(N + 1)):
                raise Wrong("the column starts are computed for columns %s..%s of %d at %s" % (cols[0] if cols else '', cols[-1] if cols else '', N + 1, L.where))
            if init[r] != 0:
                raise Wrong("the first column does not start at 0")
            self.phase = 'fill'
            self.mem[self.KP] = (N + 1, S)
            return True
        if self.phase == 'fill':
            ok, cols = True, []
            for t, a, b in micro:
                if len(b[0]) != 1 or len(acc) > 1:
                    return False
                c, v = b[0][0][1], b[0][0][2]
                cols.append(c)
                if acc:
                    r = acc[0]
                    ok = ok and v == b[2][r] and b[1] is not None and b[1][r] == S(c) and a[1][r] == S(c)
                else:
                    ok = ok and v == S(c - 1)
            shift = all(abs(w[2] - S(w[1])) > BIG // 2 for ws in kp for w in ws)
            if not shift:
                return False
            if acc:
                if not ok or cols not in (list(range(N + 1)), list(range(N))) or init[acc[0]] != 0:
                    raise Wrong("the starts of the columns are not restored at %s" % L.where)
                self.first = 0
            else:
                if not ok or cols not in (list(range(N, 0, -1)), list(range(N - 1, 0, -1))):
                    raise Wrong("the starts of the columns are not restored at %s" % L.where)
                self.first = None
            self.phase = 'back'
            if self.first == 0:
                self.settle()
            return True
        return False

    def effects(self, L, micro):
        if self.K is None or self.inner:
            if self.K is not None and self.inner and self.phase in ('count', 'fill'):
                # iterations of an inner loop stand side by side with those of the outer one
                for t, w, n in micro:
                    self.nest += n
                return
            return super().effects(L, micro)
        if self.phase in ('count', 'fill'):
            touched = any(w[0] in (self.KP, self.KI, self.KXX) for _, ws, ns in micro for w in ws)
            if not touched:
                return super().effects(L, micro)
            for t, ws, ns in micro:
                for q in ns:
                    self.one(q, L)
            return
        if self.phase == 'raw':
            return super().effects(L, micro)
        if self.phase == 'final':
            for t, ws, _ in micro:
                for o, i, v, wh in ws:
                    if o == self.KXX:
                        c, off = where_is(i)
                        self.setx(c, off, v, wh)
                    elif o in (self.KP, self.KI):
                        raise Wrong("the pattern of the KKT matrix is changed after its assembly, at %s" % wh)
                    else:
                        self.over[(o, i)] = v
            self.commit()
            return
        raise Unknown("order of the assembly")

    def one(self, ws, L):
        """one iteration on symbolic counters"""
        inc, place = {}, {}
        for o, i, v, wh in ws:
            if o == self.KP:
                inc[i] = v - S(i)
            elif o == self.KI:
                place.setdefault(i, {})['row'] = v
            elif o == self.KXX:
                place.setdefault(i, {})['x'] = v
            elif o in self.maps:
                place.setdefault(v, {}).setdefault('map', []).append((self.maps[o], i))
            else:
                raise Unknown("write of %s" % (o,))
        inc = {c: d for c, d in inc.items() if d}
        if any(abs(d) > BIG // 2 for d in inc.values()):
            raise Unknown("counter overwritten at %s" % L.where)
        if not place:
            for c, d in inc.items():
                self.counts[c] = self.counts.get(c, 0) + d
            return
        for d, e in place.items():
            c, off = where_is(d)
            if off != 0 or inc.get(c) != 1 or len(place) > 1 or len(inc) > 1:
                raise Wrong("the place of an entry is not the next free one of its column: offset %s in column %d, counters advanced %s, at %s" % (off, c, inc, L.where))
            if 'row' not in e or 'x' not in e:
                raise Wrong("an entry of column %d is placed without its row or its value, at %s" % (c, L.where))
            self.fills.append((c, e['row'], e['x'], tuple(sorted(e.get('map', []))), L.where))

    def settle(self):
        """the matrix as assembled"""
        if self.first != 0:
            raise Wrong("the first column does not start at 0 once the starts of the columns are restored")
        cols = {}
        for c, r, x, mp, wh in self.fills:
            cols.setdefault(c, []).append([r, x, mp, wh])
        for c in range(self.N + 1):
            a, b = self.counts.get(c, 0), len(cols.get(c, []))
            if a != b:
                raise Wrong("column %d is counted %d entries and filled with %d" % (c, a, b))
        for c in list(self.counts) + list(cols):
            if not 0 <= c < self.N:
                raise Wrong("an entry is placed in column %d of %d" % (c, self.N))
        self.cols = cols
        if sum(map(len, cols.values())) > self.nz:
            raise Wrong("the matrix has %d entries and room for %d" % (sum(map(len, cols.values())), self.nz))
        pat, N, n = self.pat, self.N, self.pat.n
        want = {}
        for k, i, j in pat.entries(pat.P):
            want[(j, i) if self.fmt == 0 else (i, j)] = [('P', k)]
        for j in range(n):
            want.setdefault((j, j), [])
        for k, i, j in pat.entries(pat.A):
            want[(n + i, j) if self.fmt == 0 else (j, n + i)] = [('A', k)]
        for i in range(pat.m):
            want[(n + i, n + i)] = [('rho', i)]
        self.want = want
        got = {}
        for c, es in cols.items():
            rows = [e[0] for e in es]
            if rows != sorted(set(rows)):
                raise Wrong("the entries of column %d are placed in rows %s (%s)" % (c, rows, es[0][3]))
            for e in es:
                got[(c, e[0])] = e
        for k in want:
            if k not in got:
                raise Wrong("the entry in row %d and column %d (%s) is not placed" % (k[1], k[0], want[k] or 'diagonal'))
            mp = [x for x in want[k] if x[0] in self.maps.values()]
            if list(got[k][2]) != mp:
                raise Wrong("the map of %s does not lead to its place in the KKT matrix (row %d, column %d), at %s" % (mp or list(got[k][2]), k[1], k[0], got[k][3]))
        for k in got:
            if k not in want:
                raise Wrong("an entry is placed in row %d and column %d where the matrix has none, at %s" % (k[1], k[0], got[k][3]))
        self.got = got
        self.phase = 'final'
        self.mem[self.KP] = (N + 1, S)
        cells = {}
        for c, es in cols.items():
            for q, e in enumerate(es):
                cells[S(c) + q] = e
                cells[S(c + 1) - (len(es) - q)] = e
        self.cells = cells

        def rd(d):
            if d not in cells:
                raise Wrong("a position outside its column is accessed at %s" % self.where)
            return cells[d][1]
        self.mem[self.KXX] = (None, rd)
        self.mem[self.KI] = (None, lambda d: cells[d][0])
        for o, name in self.maps.items():
            tab = {x[1]: S(c) + q for c, es in cols.items() for q, e in enumerate(es) for x in e[2] if x[0] == name}
            self.mem[o] = (len(tab), tab)

    def setx(self, c, off, v, wh):
        d = S(c) + off
        if d not in self.cells:
            raise Wrong("a position outside its column is written at %s" % wh)
        self.cells[d][1] = v

    def finish(self, p1, p2):
        if self.phase != 'final':
            raise Unknown("assembly not recognised (%s)" % self.phase)
        pat, n = self.pat, self.pat.n
        for k, w in self.want.items():
            v = 0.0
            if w and w[0][0] == 'P':
                v = pat.Px[w[0][1]]
            elif w and w[0][0] == 'A':
                v = pat.Ax[w[0][1]]
            elif w:
                v = -p2(w[0][1])
            if k[0] == k[1] < n:
                v += p1
            x = self.got[k][1]
            if abs(x - v) > 1e-9:
                raise Wrong("the entry in row %d and column %d of the KKT matrix (%s) is %g instead of %g" % (k[1], k[0], w or 'diagonal', x, v))


def assembly(cfg, fmt, vec, maps):
    p = PG.load(cfg)
    res = Result()
    con = "form_KKT format %d, %s penalty%s [%s]" % (fmt, 'vector' if vec else 'scalar', '' if maps else ', no maps', cfg)
    f = p.funcs.get('form_KKT')
    if f is None or len(f.args) != 9:
        res.undecided("C26/assembly", con, "not present")
        return res
    args = [('q', ('P',)), ('q', ('A',)), ('c', fmt), ('s', 'p1'), ('p', ('raw', 'p2'), C0) if vec else C0, ('s', 'p2'),
            ('p', ('map', 'P'), C0) if maps else C0, ('p', ('map', 'A'), C0) if maps else C0, ('p', ('map', 'rho'), C0) if maps else C0]
    try:
        X = KX(p, hold=('csc_spalloc',))
        tree = X.function(f, args)
        for seed in range(6):
            pat = Pattern(seed)
            m1, f1 = pat.csc(('P',), pat.P, pat.Px, pat.n)
            m2, f2 = pat.csc(('A',), pat.A, pat.Ax, pat.m)
            m1.update(m2); f1.update(f2)
            m1[('raw', 'p2')] = (pat.m, dict(pat.rho))
            a = Assembly(pat, fmt, m1, f1, {'p1': pat.sigma, 'p2': pat.rho_sc}, {})
            a.maps = {}
            if maps:
                for nm, k in (('P', len(pat.Px)), ('A', len(pat.Ax)), ('rho', pat.m)):
                    a.maps[('map', nm)] = nm
                    m1[('map', nm)] = (k, {})
            o = a.run(tree)
            a.commit()
            if o[0] != 'ret':
                raise Unknown(o[0])
            a.finish(pat.sigma, (lambda i: pat.rho[i]) if vec else (lambda i: pat.rho_sc))
    except Wrong as w:
        res.fail("C26/assembly", con, str(w))
        return res
    except (Unknown, KeyError, RecursionError) as e:
        res.undecided("C26/assembly", con, "%s %s" % (type(e).__name__, e))
        return res
    res.good("C26/assembly", con)
    return res


# ----------------------------------------------------------------------------- the backends
class Build(Sem):
    """the operations of a backend on a generic problem"""
    def __init__(self, p, pat, seed=0):
        self.p, self.pat, self.R = p, pat, random.Random(77 + seed)
        self.csc = matchk.csc_field(p)
        self.vf = next((v for k, v in p.fields.items() if k.split('.')[-1] in ('OSQPVectorf', 'OSQPVectorf_')), ['values', 'length'])
        mem, flds = pat.csc((('Pm',), self.csc), pat.P, pat.Px, pat.n)
        m2, f2 = pat.csc((('Am',), self.csc), pat.A, pat.Ax, pat.m)
        mem.update(m2); flds.update(f2)
        super().__init__(mem, flds, {}, {})
        self.vector('rho', pat.m, dict(pat.rho))
        R = self.R
        self.delta = R.uniform(.01, .1)
        S_ = ('set',)
        self.flds.update({(S_, 'sigma'): pat.sigma, (S_, 'delta'): self.delta, (S_, 'rho'): pat.rho_sc, (S_, 'cg_max_iter'): 20, (S_, 'cg_precond'): 1,
                          (S_, 'cg_tol_reduction'): 10, (S_, 'cg_tol_fraction'): .15, (S_, 'polishing'): 1})
        self.ptrf = {}
        self.fresh = set()
        self.solver = None
        self.kkt = None
        self.events = []
        self.N = pat.n + pat.m

    def vector(self, nm, n, val):
        self.mem[((nm,), self.vf[0])] = (n, val)
        for w in self.vf[1:]:
            self.flds[((nm,), w)] = n

    # objects through the members that point to them
    def obj(self, o):
        if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], tuple):
            o = (self.obj(o[0]), o[1])
            if o[1].startswith('[]') if isinstance(o[1], str) else False:
                self.mem.setdefault(o, (None, Cells(lambda i: 0)))
                return o
            if o in self.ptrf:
                t = self.ptrf[o]
                if t[0] in ('p', 'q'):
                    if t[0] == 'p' and arrsum.aff(t[2]) != (0, {}):
                        raise Unknown("pointer into an array")
                    return self.obj(t[1])
                return ('null',)
            if o[0] in self.fresh and o not in self.mem:
                return ('null',)
        return o

    def cell(self, obj, i):
        o = self.obj(obj)
        if o == ('null',):
            raise Wrong("a NULL array is accessed at %s" % self.where)
        return super().cell(o, i)

    def read(self, obj, i):
        o = self.obj(obj)
        return super().read(o, i)

    def write(self, obj, i, v):
        super().write(self.obj(obj), i, v)

    def atom(self, t):
        h = t[0]
        if h == 'p':
            return 0 if self.obj(t[1]) == ('null',) else 1
        if h == 'fld':
            k = (self.obj(t[1]), t[2])
            if k in self.flds:
                return self.flds[k]
            if k[0] in self.fresh:
                return 0
            raise Unknown("member %s" % t[2])
        if h == 'at':
            return self.ev(t[3])
        return super().atom(t)

    def setfield(self, f, v):
        k = (self.obj(f[1]), f[2])
        if self.inner:
            raise Unknown("member written in a loop")
        if v[0] in ('p', 'q', 'fn', 'str') or v == C0:
            self.ptrf[k] = v
            if v == C0:
                self.flds[k] = 0
            return
        try:
            self.flds[k] = self.ev(v)
        except (Unknown, KeyError):
            self.flds.pop(k, None)

    def setptr(self, obj, idx, v):
        if self.obj(obj) == ('sp',):
            self.solver = self.obj(v[1])
            return
        raise Unknown("pointer stored in an array")

    def target(self, t):
        """object an argument points to"""
        if t[0] in ('p', 'q'):
            if t[0] == 'p' and self.ev(t[2]) != 0:
                raise Unknown("pointer into an array")
            return self.obj(t[1])
        return ('null',) if t == C0 else None

    # --- calls that leave the summary
    def ext(self, n):
        if self.inner:
            raise Unknown("call in a loop")
        name, args, r = n[1], n[2], n[4]
        self.commit()
        if name in ALLOC or r is not None and r[0] == 'p':
            if r is None or r[0] != 'p':
                raise Unknown("allocation")
            o = r[1]
            if 'calloc' in name:
                self.fresh.add(o)
                self.mem[o] = (None, Cells(lambda i: 0))
            else:
                self.mem[o] = (None, {})
            return
        if r is not None and r[0] == 'q':
            self.matrix(n)
            return
        self.outcome(n, name, args)

    def outcome(self, n, name, args):
        r = n[4]
        out = 0
        if name.lower() in ('pardiso', 'pardiso_64'):
            self.pardiso(n, args)
        elif name == 'QDLDL_factor':
            self.factor(n, args, args[3], args[1], args[2], 0)
            out = self.pat.n
        elif name == 'QDLDL_solve':
            o = self.target(args[-1])
            b = [self.read(o, i) for i in range(self.N)]
            y = [self.R.uniform(-3, 3) for i in range(self.N)]
            self.mem[o] = (None, dict(enumerate(y)))
            self.events.append(('solve', b, y, n[3]))
        elif name in ('QDLDL_etree',):
            out = 5
        elif name in ('amd_order', 'amd_l_order'):
            o = self.target(args[3])
            self.perm = list(range(self.N))
            self.R.shuffle(self.perm)
            self.mem[o] = (None, dict(enumerate(self.perm)))
        if r is not None:
            self.scal[r[1]] = out

    def pardiso(self, n, args):
        if len(args) < 16:
            raise Unknown("arguments of the direct solver")
        ph = self.ev(args[4])
        err = args[15]
        if err[0] == 'at':
            self.flds[(self.obj(err[1]), err[2])] = 0
        ip = self.target(args[11])
        mt = self.ev(args[3])
        if mt != -2:
            raise Wrong("the matrix is declared of type %s at %s" % (mt, n[3]))
        if self.ev(args[5]) != self.N:
            raise Wrong("the system has dimension %s instead of %d at %s" % (self.ev(args[5]), self.N, n[3]))
        if self.read(ip, 34) not in (0, 1):
            raise Unknown("indexing")
        base = 1 - self.read(ip, 34)
        if ph in (11, 12, 22):
            self.factor(n, args, args[6], args[7], args[8], base, ph)
            m = self.mem[ip]
            if not callable(m[1]):
                m[1][21] = self.pat.n
        elif ph == 33:
            self.same(args[6], args[7], args[8], base, n[3])
            b, x = self.target(args[13]), self.target(args[14])
            rhs = [self.read(b, i) for i in range(self.N)]
            y = [self.R.uniform(-3, 3) for i in range(self.N)]
            into = b if self.read(ip, 5) else x
            self.mem[into] = (self.mem[into][0], dict(enumerate(y)))
            self.events.append(('solve', rhs, y, n[3]))
        else:
            raise Wrong("unknown phase %s of the direct solver at %s" % (ph, n[3]))

    def same(self, x, pp, ii, base, where):
        k = self.kkt
        if k is None:
            raise Unknown("no KKT matrix")
        if self.target(x) != (k, 'x'):
            raise Wrong("the values handed to the direct solver are not those of the KKT matrix, at %s" % where)
        for a, nm, cnt in ((pp, 'p', self.N + 1), (ii, 'i', self.nz)):
            o = self.target(a)
            for q in range(cnt):
                if self.read(o, q) != self.read((k, nm), q) + base:
                    raise Wrong("entry %d of the pattern handed to the direct solver does not match the KKT matrix, at %s" % (q, where))

    def factor(self, n, args, x, pp, ii, base, ph=22):
        self.same(x, pp, ii, base, n[3])
        if ph != 11:
            self.events.append(('factor', [self.read((self.kkt, 'x'), q) for q in range(self.nz)], n[3]))

    def matrix(self, n):
        name, args, o = n[1], n[2], n[4][1]
        R = self.R
        N = self.N
        if name == 'form_KKT':
            self.form = args, n[3]
            self.nz = len(self.pat.Px) + len(self.pat.Ax) + self.N + 3
            self.fresh_matrix(o)
            self.formed, self.led = o, []
            free = R.sample(range(self.nz), self.nz)
            for a, cnt in zip(args[6:9], (len(self.pat.Px), len(self.pat.Ax), self.pat.m)):
                t = self.target(a)
                if t != ('null',):
                    self.mem[t] = (None, {k: free.pop() for k in range(cnt)})
                    self.led.append((t, dict(self.mem[t][1])))
        elif name == 'csc_symperm':
            if self.target(args[0]) != self.formed:
                raise Wrong("the matrix permuted is not the KKT matrix, at %s" % n[3])
            self.fresh_matrix(o)
            pinv = self.target(args[1])
            for k, c in enumerate(getattr(self, 'perm', ())):
                if self.read(pinv, c) != k:
                    raise Wrong("the permutation applied to the KKT matrix is not the inverse of the ordering, at %s" % n[3])
            mp = list(range(self.nz))
            R.shuffle(mp)
            t = self.target(args[2])
            if t != ('null',):
                self.mem[t] = (None, dict(enumerate(mp)))
            self.moved = mp
        else:
            raise Unknown("matrix made by " + name)
        self.kkt = o

    def fresh_matrix(self, o):
        R = self.R
        ps = sorted(R.randrange(self.nz) for _ in range(self.N))
        self.mem[(o, 'p')] = (self.N + 1, dict(enumerate(ps + [self.nz])))
        self.mem[(o, 'p')][1][0] = 0
        self.mem[(o, 'i')] = (self.nz, {q: R.randrange(self.N) for q in range(self.nz)})
        self.mem[(o, 'x')] = (self.nz, {q: R.uniform(-3, 3) for q in range(self.nz)})
        self.flds.update({(o, 'n'): self.N, (o, 'm'): self.N, (o, 'nz'): -1, (o, 'nzmax'): self.nz})


def near(a, b):
    return isinstance(a, (int, float)) and abs(a - b) <= 1e-9 * max(1, abs(b))


HOLD = ('form_KKT', 'csc_symperm')
_trees = {}


def summary(p, name, args, const):
    X = KX(p, hold=HOLD, soft=True, limit=60000)
    X.const = const
    return X.function(p.funcs[name], args)


def initial(p, B, polishing, vec):
    """the state a backend has after its initialisation"""
    e = p.enums.get('OSQP_DIRECT_SOLVER')
    if e is None:
        raise Unknown("kind of solver")
    f = p.funcs.get('osqp_algebra_init_linsys_solver')
    if f is None or len(f.args) != 8:
        raise Unknown("initialisation of the backend not found")
    t = summary(p, f.name if hasattr(f, 'name') else 'osqp_algebra_init_linsys_solver', [('p', ('sp',), C0), ('q', ('Pm',)), ('q', ('Am',)), ('q', ('rho',)) if vec else C0, ('q', ('set',)), ('p', ('res', 1), C0), ('p', ('res', 2), C0),
                ('c', polishing)], {(('set',), 'linsys_solver'): ('c', e)})
    o = B.run(t)
    B.commit()
    if o[0] != 'ret':
        raise Unknown("initialisation: %s" % (o[1:],))
    if B.ev(o[1]) != 0:
        raise Unknown("initialisation fails")
    if B.solver is None:
        raise Unknown("no solver")


def op(p, B, name, args):
    t = B.ptrf.get((B.solver, name))
    if t is None or t[0] != 'fn':
        raise Unknown("operation %s not found" % name)
    tree = summary(p, t[1], [('q', B.solver)] + args, {})
    B.events = []
    o = B.run(tree)
    B.commit()
    if o[0] != 'ret':
        raise Unknown("%s: %s" % (t[1], o[1:]))
    return t[1], o


def backend(cfg, what, polishing, vec):
    p = PG.load(cfg)
    res = Result()
    con = "%s%s, %s penalty [%s]" % (what, ' for polishing' if polishing else '', 'vector' if vec else 'scalar', cfg)
    rule = "C26/" + ('solve' if what == 'solve' else 'refresh' if what.startswith('update') else 'system')
    try:
        for seed in range(3):
            pat = Pattern(seed)
            B = Build(p, pat, seed)
            initial(p, B, polishing, vec)
            for w in what.split(', then '):
                examine(p, B, pat, w, polishing, vec, seed)
    except Wrong as w:
        res.fail(rule, con, str(w))
        return res
    except (Unknown, KeyError, RecursionError, TypeError) as e:
        res.undecided(rule, con, "%s %s" % (type(e).__name__, e))
        return res
    res.good(rule, con)
    return res


def penalty(B, pat, polishing, vec):
    if polishing:
        return lambda i: B.delta
    return (lambda i: 1 / pat.rho[i]) if vec else (lambda i: 1 / pat.rho_sc)


def examine(p, B, pat, what, polishing, vec, seed):
    args, where = B.form
    sig = B.delta if polishing else pat.sigma
    if what == 'system':
        if B.target(args[0]) != (('Pm',), B.csc) or B.target(args[1]) != (('Am',), B.csc):
            raise Wrong("the system is not built from the problem's matrices at %s" % where)
        if not near(B.ev(args[3]), sig):
            raise Wrong("the system is built with %g instead of %s on the diagonal of P, at %s" % (B.ev(args[3]), 'delta' if polishing else 'sigma', where))
        pen = penalty(B, pat, polishing, vec)
        a = B.target(args[4])
        for i in range(pat.m):
            v = B.ev(args[5]) if a == ('null',) else B.read(a, i)
            if not near(v, pen(i)):
                raise Wrong("the penalty block of the system is -%g instead of -%g, at %s" % (v, pen(i), where))
        for t, led in B.led:
            for q, v in led.items():
                if B.kkt != B.formed and B.read(t, q) != B.moved[v]:
                    raise Wrong("the map of entry %d does not lead to where the permutation moved it (matrix formed at %s)" % (q, where))
        if not any(e[0] == 'factor' for e in B.events):
            raise Wrong("the system is not factorised by the initialisation")
        return
    maps = None
    if not polishing:
        maps = [B.target(a) for a in args[6:9]]
        if ('null',) in maps:
            raise Wrong("the system is built without the maps its updates need, at %s" % where)
    k = B.kkt
    if k != B.formed and maps:      # the permuted matrix: the maps lead where the permutation moved the entries
        pass
    before = [B.read((k, 'x'), q) for q in range(B.nz)]
    R = B.R
    if what == 'solve':
        b0 = {i: R.uniform(-3, 3) for i in range(B.N)}
        B.vector('b', B.N, dict(b0))
        fn, o = op(p, B, 'solve', [('q', ('b',)), ('c', 5)])
        if B.ev(o[1]) != 0:
            raise Wrong("%s reports an error although the solve succeeded" % fn)
        ev = [e for e in B.events if e[0] == 'solve']
        if len(ev) != 1:
            raise Wrong("%s solves %d systems" % (fn, len(ev)))
        perm = getattr(B, 'perm', list(range(B.N)))
        y = {}
        for q in range(B.N):
            if not near(ev[0][1][q], b0[perm[q]]):
                raise Wrong("the right-hand side handed to the direct solver is not the one given, at %s" % ev[0][3])
            y[perm[q]] = ev[0][2][q]
        pen = penalty(B, pat, polishing, vec)
        for i in range(B.N):
            want = y[i] if polishing or i < pat.n else b0[i] + pen(i - pat.n) * y[i]
            got = B.read((('b',), B.vf[0]), i)
            if not near(got, want):
                raise Wrong("%s returns %g instead of %g in component %d (%s)" % (fn, got, want, i, 'x' if i < pat.n else 'multiplier' if polishing else 'z'))
        return
    expect = dict(enumerate(before))
    if what == 'update_rho_vec':
        new = {i: R.uniform(.1, 2) for i in range(pat.m)}
        sc = R.uniform(.1, 2)
        B.vector('rho2', pat.m, new)
        B.scal['rho_sc'] = sc
        fn, o = op(p, B, 'update_rho_vec', [('q', ('rho2',)) if vec else C0, ('s', 'rho_sc')])
        for i in range(pat.m):
            expect[B.read(maps[2], i)] = -1 / (new[i] if vec else sc)
        pat.rho, pat.rho_sc = new, sc
    else:
        B.mem[((('Pm',), B.csc), 'x')][1].update({q: R.uniform(-3, 3) for q in pat.Px})
        B.mem[((('Am',), B.csc), 'x')][1].update({q: R.uniform(-3, 3) for q in pat.Ax})
        a, done = [], []
        for nm, cnt, mode in (('Pm', len(pat.Px), what.split()[1]), ('Am', len(pat.Ax), what.split()[2])):
            if mode == 'all':
                a += [('q', (nm,)), C0, ('c', cnt)]
                done.append(range(cnt))
            elif mode == 'none':
                a += [('q', (nm,)), C0, ('c', 0)]
                done.append(())
            else:
                ks = R.sample(range(cnt), min(cnt, 1 if mode == 'one' else 7))
                B.mem[('idx', nm)] = (len(ks), dict(enumerate(ks)))
                a += [('q', (nm,)), ('p', ('idx', nm), C0), ('c', len(ks))]
                done.append(ks)
        fn, o = op(p, B, 'update_matrices', a)
        diag = {q for q, i, j in pat.entries(pat.P) if i == j}
        for q in done[0]:
            expect[B.read(maps[0], q)] = B.read(((('Pm',), B.csc), 'x'), q) + (sig if q in diag else 0)
        for q in done[1]:
            expect[B.read(maps[1], q)] = B.read(((('Am',), B.csc), 'x'), q)
    ev = [e for e in B.events if e[0] == 'factor']
    if not ev:
        raise Wrong("%s does not factorise the new system" % fn)
    name = {}
    for t, nm in zip(maps, ('P', 'A', 'rho')):
        for q in range({'P': len(pat.Px), 'A': len(pat.Ax), 'rho': pat.m}[nm]):
            name[B.read(t, q)] = "%s[%d]" % (nm, q)
    for q, v in expect.items():
        if not near(ev[-1][1][q], v):
            raise Wrong("%s factorises a matrix in which the entry of %s is %g instead of %g" % (fn, name.get(q, 'another place'), ev[-1][1][q], v))
    if B.ev(o[1]) != 0:
        raise Wrong("%s reports an error although the factorisation succeeded" % fn)


# ----------------------------------------------------------------------------- the reduced system of the iterative solver
class CG(Build):
    """vectors and matrices are handled through the algebra operations, taken by their definitions (decided by C25 and C37)"""
    def __init__(self, p, pat, seed):
        super().__init__(p, pat, seed)
        self.vec, self.view, self.raw = {}, {}, {}
        self.vec[('rho',)] = [pat.rho[i] for i in range(pat.m)]
        self.steps, self.dcg, self.rci = [], None, 0

    def V(self, t):
        o = self.target(t)
        if o in self.view:
            b, k, n = self.view[o]
            v = self.vec[b]
            if k + n > len(v):
                raise Wrong("a view goes beyond its vector at %s" % self.where)
            return v[k:k + n]
        if o not in self.vec:
            raise Unknown("vector %s" % (o,))
        return list(self.vec[o])

    def setV(self, t, val):
        o = self.target(t)
        if o in self.view:
            b, k, n = self.view[o]
        else:
            b, k, n = o, 0, len(self.vec[o]) if o in self.vec else -1
        if b not in self.vec:
            raise Unknown("vector %s" % (o,))
        if len(val) != n:
            raise Wrong("a vector of length %d receives %d values at %s" % (n, len(val), self.where))
        self.vec[b][k:k + n] = val

    def M(self, t):
        o = self.target(t)
        if o not in (('Pm',), ('Am',)):
            raise Unknown("matrix %s" % (o,))
        cols = self.pat.P if o == ('Pm',) else self.pat.A
        x = self.mem[((o), self.csc), 'x'] if False else self.mem[((o, self.csc), 'x')]
        return [(i, j, x[1][k]) for k, i, j in self.pat.entries(cols)], o == ('Pm',), (self.pat.n if o == ('Pm',) else self.pat.m), self.pat.n

    def axpy(self, a, tr):
        E, sym, m, n = self.M(a[0])
        x, y = self.V(a[1]), self.V(a[2])
        al, be = self.ev(a[3]), self.ev(a[4])
        if tr:
            E, m, n = [(j, i, v) for i, j, v in E], n, m
        if len(x) != n or len(y) != m:
            raise Wrong("a product on vectors of the wrong length at %s" % self.where)
        out = [be * v if be else 0.0 for v in y]
        for i, j, v in E:
            out[i] += al * v * x[j]
            if sym and i != j:
                out[j] += al * v * x[i]
        self.setV(a[2], out)

    def ext(self, n):
        self.where = n[3]
        name, a, r = n[1], n[2], n[4]
        f = CGOPS.get(name)
        if f is None and name in ('dcg', 'dcg_init', 'dcg_check', 'dcg_get'):
            if name == 'dcg':
                self.dcg = n
                self.scal[('out', self.numof(n), 3)] = self.rci
            else:
                for q in range(len(a)):
                    self.scal[('out', self.numof(n), q)] = 0
            return
        if f is None:
            if name.startswith(('OSQPVector', 'OSQPMatrix')) and not name.endswith('free'):
                raise Unknown("operation " + name)
            if r is not None and r[0] == 'q':
                raise Unknown("structure made by " + name)
            inner, self.inner = self.inner, 0
            try:
                return super().ext(n)
            finally:
                self.inner = inner
        v = f(self, a, r)
        if r is not None and v is not None:
            self.scal[r[1]] = v

    def numof(self, n):
        return n[6]

    def new(self, r, n, v=None):
        self.vec[r[1]] = [v if v is not None else self.R.uniform(-9, 9) for _ in range(n)]
        for w in self.vf[1:]:
            self.flds[(r[1], w)] = n

    def loop(self, L):
        try:
            L.shape()
        except Unknown:
            return self.requests(L)
        return super().loop(L)

    def requests(self, L):
        """the loop which serves the requests of the library: every request on its own"""
        if self.dcg is not None or any(True for r in L.init):
            raise Unknown("loop at %s" % L.where)
        keep = {o: list(v) for o, v in self.vec.items()}
        R, n = self.R, self.pat.n
        for rci in (1, 2, 3):
            self.vec = {o: list(v) for o, v in keep.items()}
            self.rci = rci
            t = self.tmp()
            self.vec[t][:] = [R.uniform(5, 9) for _ in self.vec[t]]
            b = {o: list(v) for o, v in self.vec.items()}
            o = self.run(L.body)
            self.check_call()
            self.steps.append((rci, o[0], b, {q: list(v) for q, v in self.vec.items()}, t))
        self.vec = keep
        self.rci = 0
        x = self.xvec
        self.vec[x][:] = [R.uniform(-3, 3) for _ in range(n)]
        b = {o: list(v) for o, v in self.vec.items()}
        o = self.run(L.body)
        if o[0] != 'exit':
            raise Wrong("the loop at %s goes on although the system is solved" % L.where)
        self.at_exit = b
        return o[1]

    def tmp(self):
        for f in [self.ptrf.get(k) for k in self.ptrf]:
            pass
        if self.work is None:
            raise Unknown("workspace of the library")
        return self.work

    work = None

    def check_call(self):
        a = self.dcg[2]
        x, b, t = (self.raw.get(self.target(a[k])) for k in (1, 2, 6))
        self.xvec, self.rhs = x, b
        if t != self.work:
            raise Wrong("the workspace handed to the library is not the one it was initialised with, at %s" % self.dcg[3])


def _data(B, a, r):
    B.raw[r[1]] = B.target(a[0])


def _elem(f):
    def g(B, a, r):
        s = [B.V(x) for x in a[1:]]
        if any(len(x) != len(s[0]) for x in s):
            raise Wrong("vectors of different lengths at %s" % B.where)
        B.setV(a[0], [f(*x) for x in zip(*s)])
    return g


def _view(B, a, r):
    B.view[r[1]] = (B.target(a[0]), B.ev(a[1]), B.ev(a[2]))


def _upd(B, a, r):
    B.view[B.target(a[0])] = (B.target(a[1]), B.ev(a[2]), B.ev(a[3]))


def _diag(B, a, r):
    E, sym, m, n = B.M(a[0])
    d = [0.0] * n
    for i, j, v in E:
        if i == j:
            d[i] = v
    B.setV(a[1], d)


def _atda(B, a, r):
    E, sym, m, n = B.M(a[0])
    D = B.V(a[1])
    d = [0.0] * n
    for i, j, v in E:
        d[j] += v * v * D[i]
    B.setV(a[2], d)


def _fill(B, a, r):
    B.setV(a[0], [B.ev(a[1])] * len(B.V(a[0])))


CGOPS = {
    'OSQPVectorf_malloc': lambda B, a, r: B.new(r, B.ev(a[0])), 'OSQPVectorf_calloc': lambda B, a, r: B.new(r, B.ev(a[0]), 0.0),
    'OSQPVectorf_view': _view, 'OSQPVectorf_view_update': _upd, 'OSQPVectorf_data': _data,
    'OSQPVectorf_length': lambda B, a, r: len(B.V(a[0])),
    'OSQPVectorf_copy': _elem(lambda x: x), 'OSQPVectorf_ew_prod': _elem(lambda x, y: x * y), 'OSQPVectorf_plus': _elem(lambda x, y: x + y),
    'OSQPVectorf_minus': _elem(lambda x, y: x - y), 'OSQPVectorf_ew_reciprocal': _elem(lambda x: arrsum._div(1.0, x)),
    'OSQPVectorf_set_scalar': _fill, 'OSQPVectorf_mult_scalar': lambda B, a, r: B.setV(a[0], [B.ev(a[1]) * x for x in B.V(a[0])]),
    'OSQPVectorf_add_scaled': lambda B, a, r: B.setV(a[0], [B.ev(a[1]) * x + B.ev(a[3]) * y for x, y in zip(B.V(a[2]), B.V(a[4]))]),
    'OSQPVectorf_norm_inf': lambda B, a, r: max([abs(x) for x in B.V(a[0])], default=0.0),
    'OSQPMatrix_Axpy': lambda B, a, r: B.axpy(a, False), 'OSQPMatrix_Atxpy': lambda B, a, r: B.axpy(a, True),
    'OSQPMatrix_extract_diag': _diag, 'OSQPMatrix_AtDA_extract_diag': _atda,
    'OSQPMatrix_get_m': lambda B, a, r: B.M(a[0])[2], 'OSQPMatrix_get_n': lambda B, a, r: B.M(a[0])[3],
}


def cgsum(p, name, args, const):
    X = KX(p, hold=tuple(n for n in p.funcs if n.startswith(('OSQPVector', 'OSQPMatrix'))), soft=True, limit=60000)
    X.const = const
    return X.function(p.funcs[name], args)


def indirect(cfg, what, polishing, vec, precond):
    p = PG.load(cfg)
    res = Result()
    con = "iterative solver: %s%s, %s penalty, %s preconditioner [%s]" % (what, ' for polishing' if polishing else '', 'vector' if vec else 'scalar', 'diagonal' if precond else 'no', cfg)
    rule = "C26/reduced"
    e, none, dg = (p.enums.get(k) for k in ('OSQP_INDIRECT_SOLVER', 'OSQP_NO_PRECONDITIONER', 'OSQP_DIAGONAL_PRECONDITIONER'))
    f = p.funcs.get('osqp_algebra_init_linsys_solver')
    if None in (e, none, dg, f) or len(f.args) != 8:
        res.undecided(rule, con, "not present")
        return res
    try:
        for seed in range(3):
            pat = Pattern(seed)
            B = CG(p, pat, seed)
            S_ = ('set',)
            B.flds[(S_, 'cg_precond')] = dg if precond else none
            t = cgsum(p, 'osqp_algebra_init_linsys_solver', [('p', ('sp',), C0), ('q', ('Pm',)), ('q', ('Am',)), ('q', ('rho',)) if vec else C0, ('q', S_), ('p', ('res', 1), C0), ('p', ('res', 2), C0),
                      ('c', polishing)], {(S_, 'linsys_solver'): ('c', e)})
            B.mem[('res', 1)] = B.mem[('res', 2)] = (1, {0: .5})
            o = B.run(t)
            B.commit()
            if o[0] != 'ret' or B.ev(o[1]) != 0 or B.solver is None:
                raise Unknown("initialisation: %s" % (o[1:],))
            reduced(p, B, pat, what, polishing, vec, precond)
    except Wrong as w:
        res.fail(rule, con, str(w))
        return res
    except (Unknown, KeyError, RecursionError, TypeError) as e:
        res.undecided(rule, con, "%s %s" % (type(e).__name__, e))
        return res
    res.good(rule, con)
    return res


def cgop(p, B, name, args):
    t = B.ptrf.get((B.solver, name))
    if t is None or t[0] != 'fn':
        raise Unknown("operation %s not found" % name)
    o = B.run(cgsum(p, t[1], [('q', B.solver)] + args, {}))
    B.commit()
    if o[0] != 'ret':
        raise Unknown("%s: %s" % (t[1], o[1:]))
    return t[1], o


def reduced(p, B, pat, what, polishing, vec, precond):
    R, n, m = B.R, pat.n, pat.m
    rho = [1 / B.delta if polishing else pat.rho[i] if vec else pat.rho_sc for i in range(m)]
    sig = B.delta if polishing else pat.sigma
    if what == 'update_rho_vec':
        new = [R.uniform(.1, 2) for i in range(m)]
        B.vec[('rho2',)] = list(new)
        B.scal['rho_sc'] = sc = R.uniform(.1, 2)
        cgop(p, B, what, [('q', ('rho2',)) if vec else C0, ('s', 'rho_sc')])
        B.vec[('rho2',)][:] = new
        rho = new if vec else [sc] * m
    if what == 'update_matrices':
        B.mem[((('Pm',), B.csc), 'x')][1].update({q: R.uniform(-3, 3) for q in pat.Px})
        B.mem[((('Am',), B.csc), 'x')][1].update({q: R.uniform(-3, 3) for q in pat.Ax})
        cgop(p, B, what, [('q', ('Pm',)), C0, ('c', len(pat.Px)), ('q', ('Am',)), C0, ('c', len(pat.Ax))])
    b0 = [R.uniform(-3, 3) for _ in range(n + m)]
    B.vec[('b',)] = list(b0)
    # the workspace is the vector whose data the library is given
    B.work = None
    for o, v in B.vec.items():
        if len(v) == 4 * n and o[0] == 'mat':
            B.work = o
    fn, o = cgop(p, B, 'solve', [('q', ('b',)), ('c', 5)])
    if not B.steps:
        raise Wrong("%s does not serve the requests of the library" % fn)
    E = [(i, j, B.mem[((('Pm',), B.csc), 'x')][1][k]) for k, i, j in pat.entries(pat.P)]
    A = [(i, j, B.mem[((('Am',), B.csc), 'x')][1][k]) for k, i, j in pat.entries(pat.A)]

    def mulA(x):
        y = [0.0] * m
        for i, j, v in A:
            y[i] += v * x[j]
        return y

    def mulAt(y):
        x = [0.0] * n
        for i, j, v in A:
            x[j] += v * y[i]
        return x

    def K(x):
        y = [sig * v for v in x]
        for i, j, v in E:
            y[i] += v * x[j]
            if i != j:
                y[j] += v * x[i]
        return [a + b for a, b in zip(y, mulAt([r * v for r, v in zip(rho, mulA(x))]))]
    diag = [sig] * n
    for i, j, v in E:
        if i == j:
            diag[i] += v
    for i, j, v in A:
        diag[j] += rho[i] * v * v

    def eq(a, b, text):
        for q, (x, y) in enumerate(zip(a, b)):
            if not (near(x, y) or x == y):
                raise Wrong("%s: %s is %g instead of %g in component %d" % (fn, text, x, y, q))
    w = B.work
    for rci, kind, before, after, t in B.steps:
        x, y = before[t], after[t]
        if rci == 1:
            eq(y[n:2 * n], K(x[:n]), "the product with the reduced matrix")
            y[n:2 * n] = x[n:2 * n]
        if rci == 3 and precond:
            eq(y[3 * n:], [v / d for v, d in zip(x[2 * n:3 * n], diag)], "the preconditioned residual")
        if rci == 3:
            y[3 * n:] = x[3 * n:]
        eq(y, x, "the library's workspace outside the answer to request %d" % rci)
        eq(after[B.xvec], before[B.xvec], "the iterate, changed by request %d," % rci)
        bb = B.view.get(B.rhs)
        rhs = after[bb[0]][bb[1]:bb[1] + bb[2]] if bb else after[B.rhs]
        eq(rhs, [a + c for a, c in zip(b0[:n], mulAt([r * v for r, v in zip(rho, b0[n:])]))], "the right-hand side")
    xs = B.at_exit[B.xvec]
    got = B.vec[('b',)]
    eq(got[:n], xs, "the solution")
    z = mulA(xs)
    eq(got[n:], z if not polishing else [r * (v - b) for r, v, b in zip(rho, z, b0[n:])], "the second part of the solution")


def jobs():
    J = [(assembly, (c, f, v, m)) for c in ('mkl', 'builtin') for f in (0, 1) for v in (0, 1) for m in (0, 1)]
    for c in ('mkl', 'builtin'):
        J += [(backend, (c, 'system', 0, 1)), (backend, (c, 'system', 0, 0)), (backend, (c, 'system', 1, 0))]
        J += [(backend, (c, 'solve', 0, 1)), (backend, (c, 'solve', 0, 0)), (backend, (c, 'solve', 1, 0))]
        J += [(backend, (c, 'update_rho_vec', 0, v)) for v in (0, 1)]
        J += [(backend, (c, 'update_matrices %s %s' % w, 0, 1)) for w in (('all', 'all'), ('some', 'none'), ('none', 'some'), ('some', 'some'), ('all', 'none'), ('none', 'all'), ('one', 'one'), ('all', 'one'))]
        J += [(backend, (c, 'update_rho_vec, then update_matrices some all, then update_rho_vec, then solve, then update_matrices all some, then solve', 0, v)) for v in (0, 1)]
    for v, pc in ((1, 1), (0, 1), (1, 0)):
        J += [(indirect, ('mkl', w, 0, v, pc)) for w in ('solve', 'update_rho_vec', 'update_matrices')]
    J.append((indirect, ('mkl', 'solve', 1, 0, 1)))
    return J


def run(f, a):
    return f(*a)


def collect(pid, tier):
    return parallel(run, jobs())
