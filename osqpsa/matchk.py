"""C37: every operation of the sparse matrix layer computes its definition for every sparsity pattern

The function (with what it calls) is summarised (arrsum): every loop must be counted, its bounds affine in the dimensions and the column
pointers.  No loop is executed: the summary is evaluated on one generic entry (row, column, position symbolic up to their order), each loop being
replaced by the iterations that can touch it, and compared with what the definition lets that entry contribute; a law checked on the body of each
loop (sums and maxima, no iteration reading what another accumulates) extends that to all entries."""
import random, math
from .lib import *
from . import prog as PG, arrsum
from .arrsum import Unknown, Wrong, Ev, C0, strip

NAN = float('nan')


JUNK = 'junk'


class Gen:
    """meaning of a summary for one generic entry

    The matrix has one tracked entry (row I, column J, position K); every loop is reduced to the iterations which touch a tracked position, found
    from the affine form of the indices.  Cells at other positions hold arbitrary numbers.  What a loop does with its other iterations is covered by
    the accumulation law: what an iteration adds to a cell shared by several iterations depends on no such cell."""
    def __init__(self, R, dims, pos, arrays, flds, scal, law=True):
        self.R, self.dims, self.pos = R, dims, pos          # pos: object -> set of tracked positions
        self.arrays, self.flds, self.scal = arrays, flds, scal      # object -> (length, {position: value}, rule for other positions)
        self.lv, self.phi, self.where = {}, {}, None
        self.law, self.steps = law, 0
        self.log = None         # (object, position, index term) of the writes of an iteration

    # --- cells
    def index(self, obj, idx):
        a = self.arrays.get(obj)
        if a is None:
            raise Unknown("array %s" % (obj,))
        i = self.ev(idx)
        if i is JUNK:
            return a, JUNK
        if not isinstance(i, int):
            raise Unknown("index")
        if not 0 <= i < a[0]:
            raise Wrong("entry %d of an array of length %d is accessed%s" % (i, a[0], " at " + self.where if self.where else ""))
        return a, i

    def read(self, obj, idx):
        a, i = self.index(obj, idx)
        if i in a[1]:
            return a[1][i]
        return a[2](i)

    def write(self, obj, idx, v):
        a, i = self.index(obj, idx)
        if self.log is not None:
            self.log.append((obj, i, idx))
        if i in a[1]:
            a[1][i] = v

    # --- terms
    def atom(self, t):
        h = t[0]
        if h == 's':
            return self.scal[t[1]]
        if h == 'fld':
            if t[1:] in self.flds:
                return self.flds[t[1:]]
            raise Unknown("member %s" % t[2])
        if h == 'phi':
            return self.phi[t]
        if h == 'lv':
            if t[1] in self.lv:
                return self.lv[t[1]]
            raise Unknown("value of an iteration used outside")
        if h == 'ld':
            return self.read(t[1], t[2])
        if h == 'cell':
            return self.ev(t[1])
        if h == 'p':
            return 1 if t[1] in self.arrays else self.bad(t)
        if h == 'undef':
            return JUNK
        if h == 'red' and t[1] == 'dot':
            raise Unknown("reduction")
        raise Unknown("value " + h)

    def bad(self, t):
        raise Unknown("pointer %s" % (t[1],))

    def ev(self, t):
        try:
            return Ev(self.atom)(t)
        except TypeError:
            return JUNK

    # --- control
    def run(self, n):
        while True:
            self.steps += 1
            if self.steps > 20000:
                raise Unknown("too long")
            h = n[0]
            if h == 'let':
                self.where = n[3]
                self.lv[n[1]] = self.read(n[2][1], n[2][2])
                n = n[4]
            elif h == 'br':
                c = self.ev(n[1])
                if c is JUNK:
                    raise Unknown("decision on another entry")
                n = n[2] if c else n[3]
            elif h == 'st':
                self.where = n[4]
                if n[1][0] == 'field':
                    raise Wrong("a member of the structure is overwritten")
                self.write(n[1], n[2], self.ev(n[3]))
                n = n[5]
            elif h == 'loop':
                n = n[2][self.loop(n[1])]
            elif h == 'op':
                self.library(n[1], n[2])
                n = n[4]
            elif h in ('ret', 'latch', 'exit'):
                return n
            else:
                raise Unknown(h)

    def affv(self, a):
        v = a[0]
        for k, c in a[1].items():
            v += c * self.ev(k)
        return v

    def loop(self, L):
        trip, once, exits, inds = L.shape()
        init = {r: self.ev(t[2] if t[0] == 'p' else t) for r, t in L.init.items()}
        for r, v in init.items():
            self.phi[('phi', L.id, r)] = v
        T = self.affv(trip)
        if once and T < 1:
            raise Wrong("the loop at %s runs although its range is empty" % L.where)
        T = max(T, 0)
        acc = [r for r in L.init if r not in inds]
        P = lambda r: ('phi', L.id, r)

        def at(t):
            for r in inds:
                self.phi[P(r)] = init[r] + inds[r] * t if inds[r] else init[r]
        # iterations which touch a tracked position
        ts = set()
        for obj, idx in accesses(L.body):
            try:
                al, be = L.sub(idx, inds)
            except Unknown:
                continue
            if be in (1, -1) and obj in self.pos:
                try:
                    base = self.affv(al)
                except Unknown:
                    continue
                for x in self.pos[obj]:
                    t = (x - base) * be
                    if 0 <= t < T:
                        ts.add(t)
        if nested(L.body):      # neighbouring columns must not reach the tracked entry
            ts |= {t + d for t in ts for d in (-1, 1) if 0 <= t + d < T}
        # every iteration stays inside its arrays
        for t in {0, T - 1}:
            if 0 <= t < T and t not in ts:
                keep = self.snapshot()
                at(t)
                self.run(L.body)
                self.restore(keep)
        for t in sorted(ts):
            at(t)
            if self.law:
                self.check_law(L, acc, inds, at, t)
            o = self.run(L.body)
            if o[0] == 'latch':
                for r, v in {r: self.ev(o[1][r]) for r in acc}.items():
                    self.phi[P(r)] = v
            elif o[0] != 'exit' or o[1] not in exits:
                raise Unknown("loop left early")
        if not once:
            at(T)
            o = self.run(L.body) if False else None
        elif T - 1 not in ts:
            if acc:
                raise Unknown("accumulator of a loop with its test at the end")
            at(T - 1)
        if len(exits) != 1 or len(L.exits) != 1:
            raise Unknown("loop left in several ways")
        return next(iter(exits))

    def snapshot(self):
        return ({o: dict(a[1]) for o, a in self.arrays.items()}, dict(self.phi), dict(self.lv))

    def restore(self, s):
        for o, c in s[0].items():
            self.arrays[o][1].clear()
            self.arrays[o][1].update(c)
        self.phi, self.lv = dict(s[1]), dict(s[2])

    def once(self, L, acc):
        o = self.run(L.body)
        new = {}
        for r in acc:
            new[('phi', L.id, r)] = self.ev(o[1][r]) if o[0] == 'latch' else self.phi[('phi', L.id, r)]
        for ob, a in self.arrays.items():
            for x, v in a[1].items():
                new[(ob, x)] = v
        return new

    def check_law(self, L, acc, inds, at, t):
        """registers and shared cells are only accumulated into"""
        keep = self.snapshot()
        law, self.law, log, self.log = self.law, False, self.log, []
        try:
            first = self.once(L, acc)
            shared = [('phi', L.id, r) for r in acc]
            for obj, i, idx in self.log:
                if i is JUNK or i not in self.arrays[obj][1] or (obj, i) in self.dims['entry']:
                    continue
                try:
                    al, be = L.sub(idx, inds)
                except Unknown:
                    be = 0
                if be == 0:
                    shared.append((obj, i))
            self.restore(keep)
            for c in dict.fromkeys(shared):
                old = self.phi[c] if c[0] == 'phi' else self.arrays[c[0]][1][c[1]]
                if old is JUNK or not isinstance(old, (int, float)) or old != old:
                    continue
                vals = []
                for d in (0.0, .37, -1.9, 41.0, -77.0):
                    if c[0] == 'phi':
                        self.phi[c] = old + d
                    else:
                        self.arrays[c[0]][1][c[1]] = old + d
                    at(t)
                    vals.append((old + d, self.once(L, acc)))
                    self.restore(keep)
                for k in first:
                    if k == c:
                        continue
                    if any(differ(v[k], first[k]) for _, v in vals):
                        raise Unknown("an iteration at %s reads what others accumulate" % L.where)
                new = [(o, v[c]) for o, v in vals]
                add = all(not differ(v - o, new[0][1] - new[0][0]) for o, v in new)
                g = max(v for o, v in new if o == min(o2 for o2, _ in new))
                mx = all(not differ(v, max(o, g)) for o, v in new)
                if add or mx:
                    continue
                if all(not differ(v, new[0][1]) for o, v in new) and self.unique(c):
                    continue
                raise Wrong("what the loop at %s leaves in a cell shared by several entries is not a sum or a maximum over them" % L.where)
        finally:
            self.law, self.log = law, log
            self.restore(keep)

    def unique(self, c):
        return c[0] != 'phi' and c in self.dims['unique']

    def library(self, name, a):
        if name.startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove', 'memmove', 'llvm.memset', 'memset')):
            size = self.ev(a[2])
            if size is JUNK or size % 8:
                raise Wrong("a copy ends inside an entry")
            cnt = size // 8
            if cnt == 0:
                return
            arr, o = self.index(a[0][1], a[0][2])
            if o + cnt > arr[0]:
                raise Wrong("a copy goes beyond an array")
            for x in list(arr[1]):
                if o <= x < o + cnt:
                    arr[1][x] = 0.0 if 'memset' in name else self.read(a[1][1], ('add', a[1][2], ('c', x - o)))
            return
        if name in ('mkl_sparse_d_mv', 'mkl_sparse_s_mv'):
            return self.spmv(a)
        raise Unknown("library call " + name)

    def spmv(self, a):
        """y = alpha op(A) x + beta y of the library, on the generic entry"""
        op, alpha, A, x, beta, y = a[0], self.ev(a[1]), a[2], a[-3], self.ev(a[-2]), a[-1]
        d = dict(a[3][1]) if a[3][0] == 'bytes' else {}
        d = [self.ev(d[k]) for k in (('type', 'mode', 'diag') if 'type' in d else sorted(d)) if k in d]
        if len(d) < 3 or A[0] != 'p' or A[1][0] != ('A',):
            raise Unknown("description of a matrix")
        sym, low, unit = d[0] == 21, d[1] == 40, d[2] == 51
        if d[0] not in (20, 21) or op[1] not in (10, 11):
            raise Unknown("kind of a product")
        tr = op[1] == 11 and not sym
        m, n = self.dims['mn']
        rows, cols = (n, m) if tr else (m, n)
        (ay, oy), (ax, ox) = self.index0(y), self.index0(x)
        if oy or ox or ay[0] < rows or ax[0] < cols:
            raise Wrong("the product is computed on vectors of the wrong length")
        old = dict(ax[1])
        for r in list(ay[1]):
            ay[1][r] = beta * ay[1][r] if beta != 0 else 0.0
        e = self.dims['mat']
        if e is not None:
            i, j, v = (e[1], e[0], e[2]) if tr else e
            v = self.arrays[self.dims['xk'][0]][1][self.dims['xk'][1]]
            if sym and (e[0] > e[1]) != low and e[0] != e[1]:
                return
            if unit and i == j:
                v = 1.0
            ay[1][i] += alpha * v * old[j]
            if sym and i != j:
                ay[1][j] += alpha * v * old[i]

    def index0(self, p):
        if p[0] != 'p' or p[1] not in self.arrays:
            raise Unknown("vector")
        return self.arrays[p[1]], self.ev(p[2])


def accesses(n):
    """(object, index) of the accesses of a loop's body, the loops inside included"""
    h = n[0]
    if h == 'let':
        yield n[2][1], n[2][2]
        yield from accesses(n[4])
    elif h == 'st':
        yield n[1], n[2]
        yield from accesses(n[5])
    elif h == 'op':
        yield from accesses(n[4])
    elif h == 'br':
        yield from accesses(n[2])
        yield from accesses(n[3])
    elif h == 'loop':
        for t in n[1].init.values():
            pass
        yield from accesses(n[1].body)
        for m in n[2]:
            yield from accesses(m)


def nested(n):
    if n[0] == 'br':
        return nested(n[2]) or nested(n[3])
    return n[0] == 'loop' or n[0] in ('let', 'st', 'op') and nested(n[-1])


def differ(a, b):
    if a is JUNK or b is JUNK:
        return a is not b
    if a != a or b != b:
        return not (a != a and b != b)
    return not (a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)))


class Case:
    """a generic matrix entry: row i, column j, position k, value x (None: no tracked entry)"""
    def __init__(self, m, n, triu, i, j, k, x, per):
        self.m, self.n, self.triu, self.i, self.j, self.k, self.x, self.per = m, n, triu, i, j, k, x, per
        self.rows = [r for r in dict.fromkeys((i, j)) if 0 <= r < m]
        self.cols = [r for r in dict.fromkeys((i, j)) if 0 <= r < n]


class Spec:
    """args: A matrix (M), vectors (v: reads, w: written, with dimension 'm' or 'n'), scalars; want(case, vec, s) -> {slot: {position: value}}"""
    def __init__(self, args, want, kinds=(False, True), scal=None):
        self.args, self.want, self.kinds, self.scal = args, want, kinds, scal


def axpy(M, v, s, tr):
    b = s[4]
    out = {r: (b * v[2][r] if b else 0.0) for r in (M.cols if tr else M.rows)}
    i, j = (M.j, M.i) if tr else (M.i, M.j)
    out[i] += s[3] * M.x * v[1][j]
    if M.triu and i != j:
        out[j] += s[3] * M.x * v[1][i]
    return {2: out}


def norms(M, rows):
    out = {r: 0.0 for r in (M.rows if rows else M.cols)}
    i, j = (M.i, M.j) if rows else (M.j, M.i)
    out[i] = abs(M.x)
    if M.triu and rows:
        out[j] = abs(M.x)
    return out


def at(M, dom, i, v):
    out = {r: 0.0 for r in dom}
    out[i] = v
    return out


AB = {3: (-1.0, 0.0, 1.0, 2.5, 1.0, -.5), 4: (0.0, 1.0, -1.0, .5, 0.0)}
SPECS = {
    'OSQPMatrix_mult_scalar': Spec(['M', 's'], lambda M, v, s: {'x': M.x * s[1]}),
    'OSQPMatrix_lmult_diag': Spec(['M', 'vm'], lambda M, v, s: {'x': M.x * v[1][M.i]}),
    'OSQPMatrix_rmult_diag': Spec(['M', 'vn'], lambda M, v, s: {'x': M.x * v[1][M.j]}),
    'OSQPMatrix_AtDA_extract_diag': Spec(['M', 'vm', 'wn'], lambda M, v, s: {2: at(M, M.cols, M.j, M.x ** 2 * v[1][M.i])}, (False,)),
    'OSQPMatrix_extract_diag': Spec(['M', 'wn'], lambda M, v, s: {1: at(M, M.cols, M.j, M.x if M.i == M.j else 0.0)}),
    'OSQPMatrix_Axpy': Spec(['M', 'vn', 'wm', 's', 's'], lambda M, v, s: axpy(M, v, s, False), scal=AB),
    'OSQPMatrix_Atxpy': Spec(['M', 'vm', 'wn', 's', 's'], lambda M, v, s: axpy(M, v, s, True), scal=AB),
    'OSQPMatrix_col_norm_inf': Spec(['M', 'wn'], lambda M, v, s: {1: norms(M, False)}, (False,)),
    'OSQPMatrix_row_norm_inf': Spec(['M', 'wm'], lambda M, v, s: {1: norms(M, True)}),
    'OSQPMatrix_update_values': Spec(['M', 'rx', 'ri', 'k'], lambda M, v, s: {'x': v[1]}),
    'OSQPMatrix_update_values (all)': Spec(['M', 'rx', '0', 'k'], lambda M, v, s: {'x': v[1]}),
}


def cscname(p):
    for k, v in p.fields.items():
        if {'p', 'i', 'x', 'm', 'n'} <= set(v) and 'CscMatrix' in k:
            return v
    raise Broken("OSQPCscMatrix not found")


def examine(p, name, spec):
    f = p.funcs.get(name.split()[0])
    if f is None:
        return None, "not present"
    args = []
    for i, a in enumerate(spec.args):
        args.append(('q', ('A',)) if a == 'M' else ('q', ('v', i)) if a[0] in 'vw' else ('p', ('raw', i), C0) if a[0] == 'r' else C0 if a == '0' else ('s', i))
    if len(f.args) != len(args):
        return None, "signature"
    X = arrsum.Extract(p, {}, depth=60, lets=True)
    try:
        tree = X.function(f, args)
        for L in X.loops:
            L.shape()
    except (Unknown, KeyError, RecursionError) as e:
        return None, str(e) or type(e).__name__
    csc = csc_field(p)
    symf = next((n for k, v in p.fields.items() if k.split('.')[-1] in ('OSQPMatrix', 'OSQPMatrix_') for n in v if 'symm' in n), 'symmetry')
    vf = next((v for k, v in p.fields.items() if k.split('.')[-1] in ('OSQPVectorf', 'OSQPVectorf_')), ['values', 'length'])
    tri = p.enums.get('TRIU')
    non = p.enums.get('NONE')
    good, unk = 0, None
    C = (('A',), csc)
    for q in range(360):
        R = random.Random(900 + q)
        tr = spec.kinds[q % len(spec.kinds)]
        empty = q % 20 == 19            # no entry at all
        per = R.choice((9, 14))             # entries in each column
        n = R.choice((40, 53))
        m = n if tr else R.choice((40, 53, 67))
        if empty:
            if R.random() < .5:
                n, m = (0, 0) if tr else R.choice(((0, 0), (0, 5), (5, 0)))
            per = 0
        j = R.choice((0, n - 1, R.randrange(2, 38))) if n else -9
        i = R.choice((0, m - 1, R.randrange(2, 38), j, j, max(j - 1, 0), min(j + 1, m - 1))) if m else -9
        if tr and i > j:
            i, j = j, i
        if not tr and i >= m:
            i = 3
        if empty and n and m and not tr and R.random() < .5:
            i = m - 1
        k = j * per + R.choice((0, per - 1, 4)) if not empty else -9
        M = Case(m, n, tr, i, j, k, R.choice((R.uniform(-3, 3), R.uniform(-3, 3), -2.0, 0.0)), per)
        nnz = n * per
        other = next(r for r in (20, 21, 22) if r not in (i, j))
        junk = lambda p: R.uniform(-3, 3)
        row = lambda p: other
        arrays = {(C, 'p'): (n + 1, {}, lambda p: JUNK if p is JUNK else p * per), (C, 'i'): (nnz, {} if empty else {k: i}, row),
                  (C, 'x'): (nnz, {} if empty else {k: M.x}, junk)}
        slack = R.choice((0, 2))
        flds = {(C, 'm'): m, (C, 'n'): n, (C, 'nzmax'): max(nnz, 1) + slack, (C, 'nz'): -1, (('A',), symf): (tri if tri is not None else 1) if tr else (non if non is not None else 0)}
        pos = {(C, 'p'): set(M.cols), (C, 'i'): {k} - {-9}, (C, 'x'): {k} - {-9}}
        vec, scal, before = {}, {}, {}
        for t, a in enumerate(spec.args):
            o = (('v', t), vf[0])
            if a[0] in 'vw':
                d = m if a[1] == 'm' else n
                vec[t] = {r: R.choice((R.uniform(-3, 3), R.uniform(-3, 3), 0.0)) for r in (M.rows if a[1] == 'm' else M.cols)}
                arrays[o] = (d, dict(vec[t]), junk)
                pos[o] = set(vec[t])
                for w in vf[1:]:
                    flds[(('v', t), w)] = d
            elif a == 's':
                scal[t] = R.choice((spec.scal or {}).get(t, (-1.0, 0.0, 1.0, 2.5, .3)))
            elif a == 'k':
                some = 'ri' in spec.args
                cnt = 0 if empty else R.randint(12, 30) if some else nnz
                scal[t] = cnt
                T = k if not some else R.choice((0, cnt - 1, 7))
                vec[1] = R.uniform(-3, 3)
                arrays[('raw', 1)] = (cnt, {} if empty else {T: vec[1]}, junk)
                pos[('raw', 1)] = set() if empty else {T}
                if some:
                    arrays[('raw', 2)] = (cnt, {} if empty else {T: k}, lambda p: 0 if k else 1)
                    pos[('raw', 2)] = pos[('raw', 1)]
        if (spec.scal is AB and scal.get(4) == 0.0) or spec.scal is not AB:
            for t, a in enumerate(spec.args):
                if a[0] == 'w':     # what the result held before does not matter
                    c = arrays[(('v', t), vf[0])][1]
                    for r in c:
                        c[r] = NAN
        before = {o: dict(a[1]) for o, a in arrays.items()}
        unique = {((C, 'x'), k)} | ({(o, j) for o in arrays} if i == j else set())
        try:
            if empty:
                want = {t: {r: 0.0 for r in vec[t]} for t, a in enumerate(spec.args) if a[0] == 'w'}
                if spec.scal is AB:
                    want = {2: {r: (scal[4] * v if scal[4] else 0.0) for r, v in vec[2].items()}}
            else:
                want = spec.want(M, vec, scal)
            G = Gen(R, {'unique': unique, 'entry': {((C, 'x'), k)}, 'mn': (m, n), 'mat': None if empty else (i, j, M.x), 'xk': ((C, 'x'), k)}, pos, arrays, flds, scal)
            o = G.run(tree)
            if o[0] != 'ret':
                raise Unknown(o[0])
        except Wrong as w:
            return False, str(w)
        except (Unknown, KeyError) as u:
            unk = str(u)
            continue
        for slot, val in want.items():
            o = (C, 'x') if slot == 'x' else (('v', slot), vf[0])
            got = arrays.pop(o)[1]
            for t, b in (val.items() if slot != 'x' else [(k, val)] if not empty else []):
                a = got.get(t)
                if not isinstance(a, (int, float)) or differ(a, b):
                    return False, "entry %d of the result is %s where the definition gives %g (%d x %d %s matrix, %s, scalars %s)" % (
                        t, a, b, m, n, 'upper triangular' if tr else 'general',
                        "empty" if empty else "contribution of the entry in row %d and column %d" % (i, j), [scal[t] for t in sorted(scal)])
        for o, a in arrays.items():
            if any(differ(v, before[o][x]) for x, v in a[1].items()):
                return False, "an operand is modified"
        good += 1
    if good >= 250 and unk is None:
        return True, good
    return None, unk or "%d" % good


def csc_field(p):
    for k, v in p.fields.items():
        if k.split('.')[-1] in ('OSQPMatrix', 'OSQPMatrix_'):
            if 'csc' in v:
                return 'csc'
            return v[0]
    return 'csc'


def job(cfg, name):
    p = PG.load(cfg)
    res = Result()
    r, why = examine(p, name, SPECS[name])
    con = "%s [%s]" % (name, cfg)
    if r is None:
        res.undecided("C37/definition", con, why)
    else:
        res.check(r, "C37/definition", con, str(why))
    return res


def collect(pid, tier):
    return parallel(job, [(c, n) for c in ('mkl', 'builtin') for n in SPECS])
