"""C18: malformed problem data is rejected before it is used

The public entry point is summarised (arrsum) up to the first call that leaves the library (an allocation).  On every kind of malformed problem the
summary must return the data-validation error before that point, on well-formed ones it must not return it.  Loops are not executed: they are
reduced to the iterations that can meet the tracked entry (matchk.Gen)."""
import random
from .lib import *
from . import prog as PG, arrsum, matchk, apichk as A
from .arrsum import Unknown, Wrong, C0

INF = float('inf')


class Eval(matchk.Gen):
    def __init__(self, pos, arrays, flds, scal):
        super().__init__(random.Random(1), {'unique': set(), 'entry': set()}, pos, arrays, flds, scal, law=False)

    def atom(self, t):
        if t[0] == 'q' or t[0] == 'p':
            return 1
        if t[0] in ('str', 'fn'):
            return 1
        return super().atom(t)

    def run(self, n):
        while True:
            self.steps += 1
            if self.steps > 20000:
                raise Unknown("too long")
            if isinstance(n, arrsum.Lazy):
                n = n.force()
            h = n[0]
            if h == 'let':
                self.where = n[3]
                self.lv[n[1]] = self.read(n[2][1], n[2][2])
                n = n[4]
            elif h == 'br':
                c = self.ev(n[1])
                if c is matchk.JUNK:
                    raise Unknown("decision on another entry")
                n = n[2] if c else n[3]
            elif h == 'st':
                n = n[5]
            elif h == 'loop':
                r = self.loop(n[1])
                n = n[2][r]
            elif h in ('ret', 'latch', 'exit', 'unk', 'abort', 'op'):
                return n
            else:
                raise Unknown(h)

    def loop(self, L):
        trip, once, exits, inds = L.shape()
        init = {r: self.ev(t[2] if t[0] == 'p' else t) for r, t in L.init.items()}
        P = lambda r: ('phi', L.id, r)
        for r, v in init.items():
            self.phi[P(r)] = v
        T = self.affv(trip)
        if once and T < 1:
            raise Wrong("the loop at %s runs although its range is empty" % L.where)
        T = max(T, 0)
        acc = [r for r in L.init if r not in inds]

        def at(t):
            for r in inds:
                self.phi[P(r)] = init[r] + inds[r] * t if inds[r] else init[r]
        ts = set()
        for obj, idx in matchk.accesses(L.body):
            try:
                al, be = L.sub(idx, inds)
                if be not in (1, -1) or obj not in self.pos:
                    continue
                base = self.affv(al)
            except (Unknown, KeyError):
                continue
            if True:
                ts |= {(x - base) * be for x in self.pos[obj] if 0 <= (x - base) * be < T}
        if matchk.nested(L.body):
            ts |= {t + d for t in ts for d in (-1, 1) if 0 <= t + d < T}
        for t in {0, T - 1} | ts:
            if 0 <= t < T and t not in ts:
                keep = self.snapshot()
                at(t)
                self.run(L.body)
                self.restore(keep)
        cnt = next(iter(exits))
        for t in sorted(ts):
            at(t)
            o = self.run(L.body)
            if o[0] == 'latch':
                for r, v in {r: self.ev(o[1][r]) for r in acc}.items():
                    self.phi[P(r)] = v
            elif o[0] == 'exit':
                return o[1]
            else:
                raise Unknown("leaves from inside a loop")
        if not once:
            at(T)
        elif T - 1 not in ts:
            at(T - 1)
        return cnt


def defaults(p):
    """values of the settings after osqp_set_default_settings"""
    f = p.funcs.get('osqp_set_default_settings')
    out = {}
    if f is None:
        return out
    X = arrsum.Extract(p, {}, depth=30, soft=True)
    n = X.function(f, [('q', ('set',))])
    while True:
        if isinstance(n, arrsum.Lazy):
            n = n.force()
        if n[0] == 'st':
            if n[1][0] == 'field' and n[1][1] == ('set',) and n[3][0] == 'c':
                out[(('set',), n[1][2])] = n[3][1]
            n = n[5]
        elif n[0] == 'br':
            n = n[3]
        elif n[0] == 'let':
            n = n[4]
        else:
            return out


ARGS = ('solverp', 'P', 'q', 'A', 'l', 'u', 'm', 'n', 'settings')


def summary(p, null):
    f = p.funcs.get('osqp_setup')
    if f is None or len(f.args) != 9:
        raise Broken("osqp_setup not found")
    args = [('p', ('solverp',), C0)]
    for i, a in list(enumerate(ARGS))[1:]:
        if a in null:
            args.append(C0)
        elif a in 'PA':
            args.append(('q', (a,)))
        elif a in 'qlu':
            args.append(('p', ('raw', a), C0))
        elif a == 'settings':
            args.append(('q', ('set',)))
        else:
            args.append(('s', i))
    X = arrsum.Extract(p, {}, depth=60, lets=True, soft=True, limit=20000)
    return X.function(f, args)


def problem(R, m, n, perP, perA):
    """a well-formed generic problem: tracked entry of P, tracked bound, all others arbitrary but well formed"""
    arrays, flds, pos = {}, {}, {}
    flds.update({(('P',), 'm'): n, (('P',), 'n'): n, (('A',), 'm'): m, (('A',), 'n'): n})
    for w, c in (('P', perP), ('A', perA)):
        o = (w,)
        flds[(o, 'nzmax')] = max(1, n * c)
        flds[(o, 'nz')] = -1
        arrays[(o, 'p')] = (n + 1, {}, lambda p, c=c: p * c)
        arrays[(o, 'i')] = (n * c, {}, (lambda p: 0))
        arrays[(o, 'x')] = (n * c, {}, lambda p: R.uniform(-3, 3))
    arrays[('raw', 'q')] = (n, {}, lambda p: R.uniform(-3, 3))
    arrays[('raw', 'l')] = (m, {}, lambda p: R.choice((-1.0, -INF, -1e30)))
    arrays[('raw', 'u')] = (m, {}, lambda p: R.choice((1.0, INF, 1e30)))
    arrays[('solverp',)] = (1, {}, lambda p: 0)
    for o in arrays:
        pos[o] = set()
    return arrays, flds, pos


def scenarios(k):
    """(name, malformed, null arguments, maker)"""
    R = random.Random(70 + k)
    n = R.choice((1, 9, 40))
    m = R.choice((0, 1, 12, 40)) if k % 4 else 12
    perP, perA = R.choice((0, 3, 5)), R.choice((0, 4))
    if k % 5 == 0:
        perP = 3

    def base():
        return problem(R, m, n, perP, perA)
    out = []

    def add(name, bad, edit=None, null=(), mm=None, nn=None):
        arrays, flds, pos = base()
        scal = {6: m if mm is None else mm, 7: n if nn is None else nn}
        if edit:
            if edit(arrays, flds, pos, scal) is False:
                return
        out.append((name, bad, frozenset(null), arrays, flds, pos, scal))

    def entry(delta):
        def e(arrays, flds, pos, scal):
            if not perP or n < 3:
                return False
            j = R.choice((0, n - 1, n // 2)) if delta <= 0 else R.choice((0, n - 2, n // 2))
            kk_ = j * perP + R.choice((0, perP - 1, 1))
            row = j + delta
            if not 0 <= row < n:
                return False
            arrays[(('P',), 'i')][1][kk_] = row
            # a later, well-formed entry is met too
            last = n * perP - 1
            if last != kk_:
                arrays[(('P',), 'i')][1][last] = 0
            pos[(('P',), 'i')] |= set(arrays[(('P',), 'i')][1])
            pos[(('P',), 'p')] |= {j}
        return e

    def bound(lo, up):
        def e(arrays, flds, pos, scal):
            if m < 1:
                return False
            r = R.choice((0, m - 1, m // 2))
            for w, v in (('l', lo), ('u', up)):
                c = arrays[('raw', w)][1]
                c[r] = v
                for x in (0, m - 1):
                    if x != r:
                        c[x] = -1.0 if w == 'l' else 1.0
                pos[('raw', w)] |= set(c)
        return e

    def dim(o, f, d):
        def e(arrays, flds, pos, scal):
            v = flds[((o,), f)] + d
            if v < 0:
                return False
            flds[((o,), f)] = v
            if f == 'n':
                for w in 'pix':
                    a = arrays[((o,), w)]
                    c = perP if o == 'P' else perA
                    arrays[((o,), w)] = (v + 1 if w == 'p' else v * c, a[1], a[2])
        return e

    def both(d):
        def e(arrays, flds, pos, scal):
            return dim('P', 'm', d)(arrays, flds, pos, scal) is not False and dim('P', 'n', d)(arrays, flds, pos, scal)
        return e

    def sparse(arrays, flds, pos, scal):
        return None
    add("well-formed problem", False)
    add("well-formed problem, diagonal entry of P", False, entry(0))
    add("well-formed problem, entry next to the diagonal of P", False, entry(-1))
    for lo, up in ((.5, .5), (0.0, 1e-9), (-INF, INF), (-1e30, 2.0), (0.0, 0.0), (-2.5, -2.5)):
        add("well-formed problem, bounds %g <= %g" % (lo, up), False, bound(lo, up))
    add("P has an entry just below its diagonal", True, entry(1))
    add("P has an entry below its diagonal", True, entry(2))
    for lo, up in ((.5, .25), (1e-9, 0.0), (-1.0, -1.0000001), (INF, -INF), (3.0, -1e30), (1e30, 1.0), (5.0, 0.0), (0.0, -5.0)):
        add("a lower bound above the upper bound", True, bound(lo, up))
    for a in ('P', 'q', 'A'):
        add("%s is missing" % a, True, None, (a,))
    if m:
        add("l is missing", True, None, ('l',))
        add("u is missing", True, None, ('u',))
    for o in 'PA':
        for f in 'mn':
            for d in (1, -1):
                add("%s has %d %s too %s" % (o, 1, 'row' if f == 'm' else 'column', 'many' if d > 0 else 'few'), True, dim(o, f, d))
    add("P is larger than q", True, both(1))
    add("P is smaller than q", True, both(-1))

    def zero(arrays, flds, pos, scal):
        for o in 'PA':
            for f in 'mn':
                if not (o == 'A' and f == 'm'):
                    flds[((o,), f)] = scal[7]
            arrays[((o,), 'p')] = (1, {}, lambda p: 0)
    add("no variables", True, zero, nn=0)
    add("negative number of variables", True, zero, nn=-1)

    def neg(arrays, flds, pos, scal):
        flds[(('A',), 'm')] = scal[6]
    add("negative number of constraints", True, neg, mm=-1)
    return out


def job(cfg, lo, hi):
    p = PG.load(cfg)
    res = Result()
    code = p.enums.get('OSQP_DATA_VALIDATION_ERROR')
    if code is None:
        raise Broken("OSQP_DATA_VALIDATION_ERROR not found")
    sett = defaults(p)
    trees = {}
    for k in range(lo, hi):
        for name, bad, null, arrays, flds, pos, scal in scenarios(k):
            con = "osqp_setup [%s]: %s" % (cfg, name)
            if null not in trees:
                try:
                    trees[null] = summary(p, null)
                except (Unknown, KeyError, RecursionError) as e:
                    trees[null] = e
            t = trees[null]
            if not isinstance(t, tuple):
                res.undecided("C18/setup", con, str(t))
                continue
            for a in null:
                arrays.pop(('raw', a), None)
            try:
                o = Eval(pos, arrays, {**flds, **sett}, scal).run(t)
            except Wrong as w:
                res.fail("C18/setup", con, "data are read outside their arrays before they are rejected: %s" % w)
                continue
            except (Unknown, KeyError, TypeError, OverflowError) as u:
                res.undecided("C18/setup", con, "%s %s" % (type(u).__name__, u))
                continue
            if o[0] == 'unk' and o[2] == 'null':
                res.fail("C18/setup", con, "a missing argument is read (%s)" % o[1])
            elif o[0] == 'unk' and o[2] != 'call':
                res.undecided("C18/setup", con, o[1])
            elif o[0] == 'ret':
                try:
                    v = Eval(pos, arrays, {**flds, **sett}, scal).ev(o[1])
                except Unknown as u:
                    res.undecided("C18/setup", con, str(u))
                    continue
                if bad:
                    res.check(v == code, "C18/setup", con, "osqp_setup returns %s, not the data-validation error" % v)
                else:
                    res.check(v != code, "C18/setup", con, "the problem is rejected as malformed")
            else:
                res.check(not bad, "C18/setup", con, "the problem is not rejected before %s" % (o[1] if o[0] in ('unk', 'op') else o[0]))
    return res


def counts(case, which, over):
    """osqp_update_data_mat with a count outside 0..nnz, or a partial update without index"""
    p = PG.load('mkl')
    res = Result()
    ft = A.fieldtypes(p)
    f = A.fn(p, 'osqp_update_data_mat')
    nm = [a[1] for a in f.args]
    vals, idx, cnt = (nm[1], nm[2], nm[3]) if which == 'P' else (nm[4], nm[5], nm[6])
    I = A.interp(p, A.Calls(), A.callkey)
    st = case_state(I, case)
    nz = {w: IN(('init', A.member(A.DATA, w), ('$get_nz',))) for w in 'PA'}
    null = [idx] if over == 'noindex' else []
    st = A.assume_args(I, st, null, [a for a in (nm[1], nm[2], nm[4], nm[5]) if a not in null])
    for w in 'PA':
        st = I.assume(st, c_lt(K0, nz[w]), True)
    n = A.ARG(cnt)
    if over == 'many':
        st = I.assume(st, c_lt(nz[which], n), True)
    elif over == 'negative':
        st = I.assume(st, c_lt(n, K0), True)
    else:
        st = I.assume(st, c_lt(K0, n), True)
        st = I.assume(st, c_lt(n, nz[which]), True)
    if which == 'A':
        st = I.assume(st, c_eq(A.ARG(nm[3]), nz['P']), True)
    tag = "osqp_update_data_mat, %s of %s scaling=%s" % ({'many': 'more new values than entries', 'negative': 'negative count', 'noindex': 'partial update without index'}[over], which, case['scaling'])
    got = 0
    if st is None:
        res.undecided("C18/counts", tag, "assumption contradictory")
        return res
    for rv, s in I.run(f, [A.SOLVER] + [A.ARG(a) for a in nm[1:]], st):
        ok, err = A.final(I, s, rv)
        got += 1
        if ok is not None:
            z = evalc(ok, c_lt(nz[which], n)) if over == 'many' else True
            if z is False:
                continue
            res.fail("C18/counts", tag, "the call succeeds")
        elif err is not None:
            res.good("C18/counts", tag)
    if not got:
        res.undecided("C18/counts", tag, "no exit")
    account(res, I)
    return res


def runjob(f, *a):
    return globals()[f](*a)


def collect(pid, tier):
    PG.load('mkl')
    res = A.collect(pid, tier)
    N = 24 if tier != 'thorough' else 96
    J = [('job', c, q, q + 6) for c in ('mkl', 'builtin') for q in range(0, N, 6)]
    J += [('counts', {'scaling': s}, w, o) for s in (0, '+') for w in 'PA' for o in ('many', 'negative', 'noindex')]
    res.merge(parallel(runjob, J))
    return res
