"""Effects of the API functions (setup, updates, warm/cold start, rho update): abstract interpretation of each entry point over
its argument cases; the exit states are compared with the documented effect as functions of the initial state."""
import random
from .solve import *
from . import solve as SV

RHO_MIN, RHO_MAX, EQF = 1e-6, 1e6, 1e3
ARGV = lambda n: T.v_atom(IN(('init', ARG(n), ('$v',))))


# ---------------------------------------------------------------- data relations that hold through the scaling loop
class DRel:
    def __init__(self, name, kind, val, ops, spec):
        self.name, self.kind, self.val, self.ops, self.spec = name, kind, val, ops, spec


def getter(root, kind, *path):
    def g(I, st):
        p = root(I, st)
        try:
            for n in path[:-1]:
                p = I.load(st, mkptr(p, (n,)))
            q = I.load(st, mkptr(p, (path[-1],)))
            if kind == 'num':
                return q
            return I.vec(st, q) if kind == 'vec' else I.mat(st, q)
        except (KeyError, TypeError, IndexError, AttributeError):
            return None
    g.kind = kind
    return g


def evalterm(ev, kind, t, S, dim=None):
    if t is None:
        raise Undecided("no value")
    if kind == 'num':
        return ev.num(t)
    if kind == 'mat':
        return ev.matterm(t)
    v = ev.vec(t)
    if isinstance(v, Const):
        return [v.c] * dim if dim is not None else v
    return v


def flat(x):
    if isinstance(x, list) and x and isinstance(x[0], list):
        return [a for r in x for a in r]
    return x


def same(a, b):
    a, b = flat(a), flat(b)
    if isinstance(b, list) and isinstance(a, Const):
        a = [a.c] * len(b)
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list) and len(a) != len(b):
        return False
    return close(a, b)


_E = frozenset()


class DataRelations:
    """P = c D P0 D, A = E A0 D, q = c D q0 of the data block under work (or being set up)"""

    def __init__(self, root, orig, ft, scaled=True, nsamp=3, m0=False, over=None):
        self.ft = ft
        self.root = root
        self.orig = orig            # function(ev) -> (P0, q0, A0, l0, u0)
        c, D, E = getter(root, 'num', 'scaling', 'c'), getter(root, 'vec', 'scaling', 'D'), getter(root, 'vec', 'scaling', 'E')
        self.c, self.D, self.E = c, D, E
        self.rels = [
            DRel('P', 'mat', getter(root, 'mat', 'data', 'P'), (c, D),
                 lambda o, c, D: [[c * D[i] * o[0][i][j] * D[j] for j in range(len(D))] for i in range(len(D))]),
            DRel('A', 'mat', getter(root, 'mat', 'data', 'A'), (D, E),
                 lambda o, D, E: [[E[i] * o[2][i][j] * D[j] for j in range(len(D))] for i in range(len(E))]),
            DRel('q', 'vec', getter(root, 'vec', 'data', 'q'), (c, D), lambda o, c, D: [c * D[i] * o[1][i] for i in range(len(D))]),
        ] if scaled else []
        self.byname = {r.name: r for r in self.rels}
        self.cache = {}
        sizes = [(2, 0)] if m0 else [(2, 3), (3, 2), (2, 4)]
        self.samples = [Sample(700 + k, *sizes[k % len(sizes)], scaling=scaled, fieldtype=ft) for k in range(nsamp)]
        for S in self.samples:
            for k, v in (over or {}).items():
                S.over[k] = v

    def opval(self, ev, g, t):
        S = ev.S
        dim = None
        if g.kind == 'vec':
            dim = S.n if g is self.D else S.m
        v = evalterm(ev, g.kind, t, S, dim)
        if dim is not None and len(v) != dim:
            raise Undecided("vector length")
        return v

    def terms(self, I, st, r):
        return (r.val(I, st),) + tuple(g(I, st) for g in r.ops)

    def preset(self, ev, st):
        """interpret matrices and vectors known (by induction) to satisfy their relation accordingly"""
        for name, t in sorted(st.ts.get('hyp', ()), key=lambda x: x[0]):
            r = self.byname[name]
            v = t[0]
            if r.kind == 'mat':
                key = ('M', v[3])
            else:
                key = ('v', v[1][0][0][0][0])
            if key in ev.m:
                continue
            try:
                ev.m[key] = r.spec(self.orig(ev), *[self.opval(ev, g, x) for g, x in zip(r.ops, t[1:])])
            except (Undecided, IndexError):
                pass

    def symbol(self, r, v):
        """is the term a bare symbol of a join?"""
        if v is None:
            return False
        if r.kind == 'mat':
            return v[0] == 'mat' and not v[2] and not v[4] and v[1] == K1 and v[3][0] == 'phi'
        return v[0] == 'vec' and len(v[1]) == 1 and v[1][0][1] == K1 and len(v[1][0][0]) == 1 and v[1][0][0][0][1] == 1 and v[1][0][0][0][0][0] == 'phi'

    def verdict(self, I, st, r):
        t = self.terms(I, st, r)
        e = st.ts.get(('drel', r.name))
        if e is not None and e[0] == t:
            return e[1]
        if any(x is None for x in t):
            v = '?'
        else:
            k = (r.name, t, st.ts.get('hyp', ()))
            v = self.cache.get(k)
            if v is None:
                v = self.cache[k] = self._eval(st, r, t)
        st.ts[('drel', r.name)] = (t, v)
        return v

    def _eval(self, st, r, t):
        seen = set()
        for S in self.samples:
            try:
                def f(ev):
                    self.preset(ev, st)
                    a = evalterm(ev, r.kind, t[0], S, S.n)
                    b = r.spec(self.orig(ev), *[self.opval(ev, g, x) for g, x in zip(r.ops, t[1:])])
                    return same(a, b)
                for ev, ok in runs(S, st, f, 40, trunc=True):
                    seen.add(ok)
            except (Undecided, IndexError):
                return '?'
        return '?' if not seen else 'ok' if seen == {True} else 'no' if seen == {False} else 'mix'

    def refresh(self, I, st):
        for r in self.rels:
            self.verdict(I, st, r)

    def decided(self, I, st, name):
        r = self.byname.get(name)
        if r is None:
            return None
        return {'ok': True, 'no': False, 'mix': 'mix'}.get(self.verdict(I, st, r))

    def on_join(self, I, s1, s2, o):
        self.refresh(I, s1)
        self.refresh(I, s2)
        hyp = s1.ts.get('hyp', _E) & s2.ts.get('hyp', _E)
        if I.jwiden:
            hyp = frozenset(h for h in hyp if not any(p[1] == I.jsite[0] and p[2] == I.jsite[1] for x in h[1] if x is not None for p in x.ph))
        new = set()
        for r in self.rels:
            k = ('drel', r.name)
            t = self.terms(I, o, r)
            o.ts[k] = (t, Relations.comb(s1.ts[k][1], s2.ts[k][1]))
            if o.ts[k][1] == 'ok' and self.symbol(r, t[0]):
                new.add((r.name, t))
        o.ts['hyp'] = hyp | new


class Factors:
    """C27: each factor the equilibration applies lies in the documented range, whatever the magnitude of the data"""

    def __init__(self, DR, res, orig, scaled):
        self.DR, self.res = DR, res
        self.samples = []
        if not scaled:
            return
        for k in range(6):
            S = Sample(900 + k, *[(2, 3), (3, 2), (2, 2)][k % 3], scaling=True, fieldtype=DR.ft)
            e = (-12, 12, -12, 12, -3, 3)[k]
            if k in (0, 1, 4, 5):
                S.A[0] = [x * 10. ** e for x in S.A[0]]
            if k in (2, 3):
                for row in S.A:
                    row[0] *= 10. ** e
                S.P = [[x * (10. ** e if 0 in (i, j) else 1) * (10. ** e if i == j == 0 else 1) for j, x in enumerate(row)] for i, row in enumerate(S.P)]
            if k in (1, 4):
                S.P = [[x * 10. ** -e for x in row] for row in S.P]
                S.q = [x * 10. ** -e for x in S.q]
            if k in (3, 5):
                S.q = [x * 10. ** e for x in S.q]
            self.samples.append(S)

    def ptr(self, I, st, w):
        try:
            sc = I.load(st, mkptr(self.DR.root(I, st) if callable(self.DR.root) else self.DR.root, ('scaling',)))
            p = mkptr(sc, (w,))
            return p if w == 'c' else I.load(st, p)
        except (KeyError, TypeError, IndexError, AttributeError):
            return None

    def stored(self, I, st, w, old, new, kind, inst, ctx):
        if not self.samples:
            return
        bounds = (1e-4, 1e4) if kind == 'num' else (1e-2, 1e2)
        inr = lambda x: bounds[0] * .999999 <= x <= bounds[1] * 1.000001
        worst = []

        def f(ev):
            self.DR.preset(ev, st)
            d = ev.S.m if w == 'E' else ev.S.n
            b = evalterm(ev, kind, new, ev.S, d)
            if all(inr(x) for x in flat([b]) if not isinstance(x, list)) and kind == 'num':
                return True
            a = evalterm(ev, kind, old, ev.S, d)
            a, b = ([a], [b]) if kind == 'num' else (a, b)
            if len(a) != len(b):
                raise Undecided("vector length")
            return all(inr(y) or (x != 0 and inr(y / x)) for x, y in zip(a, b))
        r = agree(self.samples, st, f)
        note(self.res, "C27/factor-range", "%s in %s" % (w, I.where(inst, ctx).split(' called')[0]), r,
             "the scaling factor applied to %s is not limited to its documented range (zero or huge data give a zero, infinite or extreme factor)" % w)

    def on_setvec(self, I, st, p, v, inst, ctx):
        for w in ('D', 'E'):
            if self.samples and self.ptr(I, st, w) is p:
                self.stored(I, st, w, I.vec(st, p), v, 'vec', inst, ctx)

    def on_store(self, I, st, p, v, inst, ctx):
        if self.samples and self.ptr(I, st, 'c') is p:
            self.stored(I, st, 'c', I.load(st, p), v, 'num', inst, ctx)


LAST = ['']


def agree(samples, st, f, limit=40, preset=None):
    """does f(ev) (a boolean) hold in every interpretation of the state? True / False / 'mix' / None (not interpretable)"""
    seen = set()
    for S in samples:
        try:
            def g(ev):
                if preset:
                    preset(ev, st)
                return f(ev)
            for ev, ok in runs(S, st, g, limit, trunc=True):
                seen.add(bool(ok))
        except (Undecided, IndexError) as e:
            LAST[0] = str(e)
            return None
    if not seen:
        LAST[0] = "no interpretation"
        return None
    return True if seen == {True} else False if seen == {False} else 'mix'


def note(res, rule, construct, r, msg, why=""):
    if r is None:
        res.undecided(rule, construct, "not interpretable: " + (why or LAST[0]))
    elif r is True:
        res.good(rule, construct)
    else:
        res.fail(rule, construct, msg + (" (on some paths)" if r == 'mix' else ""))


class Calls:
    """records calls through the linear-system function table (and other models) with their arguments on the path"""

    def __init__(self, rel=None, factors=None):
        self.rel = rel
        if factors is not None:
            self.on_setvec, self.on_store = factors.on_setvec, factors.on_store

    def on_join(self, I, a, b, o):
        if self.rel:
            self.rel.on_join(I, a, b, o)
        la, lb = a.ts.get('calls', ()), b.ts.get('calls', ())
        if la == lb:
            o.ts['calls'] = la
        else:
            # keep the common suffix/prefix only; record that paths differ
            o.ts['calls'] = tuple(x for x in la if x in lb)
            o.ts['calls_some'] = tuple(set(a.ts.get('calls_some', ())) | set(b.ts.get('calls_some', ())) | (set(la) ^ set(lb)))
            return
        o.ts['calls_some'] = tuple(set(a.ts.get('calls_some', ())) | set(b.ts.get('calls_some', ())))


def record(st, name, *info):
    st.ts['calls'] = st.ts.get('calls', ()) + ((name,) + info,)


# settings a linear-system backend may use
LINSET = ('cg_max_iter', 'cg_tol_reduction', 'cg_tol_fraction', 'cg_precond', 'sigma', 'rho', 'rho_is_vec', 'alpha')


def lin_models(m):
    """linear-system entry points recorded on the path with the contents of their arguments"""
    def rec(name, fn, ret=True):
        def g(I, st, inst, a, ctx):
            record(st, name, *fn(I, st, a))
            if ret:
                return I.unknown(st, inst, a, ctx, name, havoc=False)
            return VOID
        return g
    m['*update_rho_vec'] = rec('update_rho_vec', lambda I, st, a: (a[1], I.vec(st, a[1]), a[2]))
    m['*update_matrices'] = rec('update_matrices', lambda I, st, a: (a[1], I.mat(st, a[1]), a[2], a[3], a[4], I.mat(st, a[4]), a[5], a[6]))
    m['*warm_start'] = rec('warm_start', lambda I, st, a: (I.vec(st, a[1]),), ret=False)
    m['*update_settings'] = rec('update_settings', lambda I, st, a: (a[1], tuple((f, I.load(st, mkptr(a[1], (f,)))) for f in LINSET)), ret=False)
    return m


def interp(p, hooks, keyfn=None, models=None):
    m = models or lin_models(base_models())
    I = absint.Interp(p, m, hooks, keyfn=keyfn)
    return I


def fn(p, name):
    f = p.funcs.get(name)
    if f is None:
        raise Broken(name + " not found")
    return f


def assume_args(I, st, null, nonnull_):
    for a in null:
        st = I.assume(st, c_eq(ARG(a), K0), True)
    for a in nonnull_:
        st = I.assume(st, c_eq(ARG(a), K0), False)
    return st


def stdsamples(case, ft, k=3, seed=300, dims=None):
    out = []
    sizes = [(2, 3), (3, 2), (2, 4)]
    for i in range(k):
        S = Sample(seed + i, *sizes[i % 3], scaling=case.get('scaling', 0) != 0, fieldtype=ft)
        for f, v in case.items():
            if f not in ('m', 'n'):
                S.over[('settings', f)] = 0.0 if v == 0 else (4.0 if v == '+' else float(v))
        S.dims = dict(dims or {})
        out.append(S)
    return out


WROOT = lambda I, st: I.load(st, mkptr(SOLVER, ('work',)))


class Stop(Exception):
    pass


def vals_of(ev, t, dim):
    return evalterm(ev, 'vec', t, ev.S, dim)


def callkey(I, s):
    return tuple(c[0] for c in s.ts.get('calls', ())), status_key(I, s)


def final(I, s, rv):
    """split an exit into (success-state or None, error-state or None)"""
    if rv is None or rv is VOID:
        return s, None
    if rv[0] == 'k':
        return (s, None) if rv[1] == 0 else (None, s)
    a = I.assume(s.copy(), c_eq(rv, K0), True)
    b = I.assume(s.copy(), c_eq(rv, K0), False)
    return a, b


# ---------------------------------------------------------------- warm / cold start
def job_start(case, xn, yn):
    p = PG.load('mkl')
    res = Result()
    ft = fieldtypes(p)
    f = fn(p, 'osqp_warm_start')
    ax, ay = f.args[1][1], f.args[2][1]
    I = interp(p, Calls(), callkey)
    st = case_state(I, case)
    st = assume_args(I, st, [a for a, nl in ((ax, xn), (ay, yn)) if nl], [a for a, nl in ((ax, xn), (ay, yn)) if not nl])
    tag = "osqp_warm_start(%s, %s) scaling=%s" % ("NULL" if xn else "x", "NULL" if yn else "y", case['scaling'])
    S3 = stdsamples(case, ft, dims={ARG(ax): 'n', ARG(ay): 'm'})
    got = 0
    for rv, s in I.run(f, [SOLVER, ARG(ax), ARG(ay)], st):
        ok, err = final(I, s, rv)
        if ok is None:
            continue
        s = ok
        got += 1
        X, Y, Z = (I.vec(s, at(s, I, WORK, w)) for w in ('x', 'y', 'z'))
        i0 = {w: T.v_atom(IN(('init', member(WORK, w), ('$v',)))) for w in ('x', 'y', 'z')}

        def xs(ev):
            S = ev.S
            return vals_of(ev, i0['x'], S.n) if xn else [a / d for a, d in zip(vals_of(ev, ARGV(ax), S.n), S.D)]

        def ys(ev):
            S = ev.S
            return vals_of(ev, i0['y'], S.m) if yn else [S.c * a / e for a, e in zip(vals_of(ev, ARGV(ay), S.m), S.E)]

        def zs(ev):
            S = ev.S
            return vals_of(ev, i0['z'], S.m) if xn else mvp(S.mats[('data', 'A')], xs(ev))
        for nm, t, sp, d in (('x', X, xs, 'n'), ('y', Y, ys, 'm'), ('z', Z, zs, 'm')):
            r = agree(S3, s, lambda ev: same(vals_of(ev, t, ev.S.n if d == 'n' else ev.S.m), sp(ev)))
            what = {'x': 'the given x in internal units', 'y': 'the given y in internal units', 'z': 'A x'}[nm]
            if (nm in 'xz' and xn) or (nm == 'y' and yn):
                what = 'unchanged'
            note(res, "C28/start-iterate", "work->%s after %s" % (nm, tag), r, "iterate %s is not %s" % (nm, what))
            if case['scaling'] != 0 and nm != 'z' and not (xn if nm == 'x' else yn):
                note(res, "C03/input-units", "work->%s after %s" % (nm, tag), r, "the given %s is not converted with the scaling in force" % nm)
        ws = [c for c in s.ts.get('calls', ()) if c[0] == 'warm_start']
        if not xn:
            if not ws:
                res.fail("C28/linsys-start", tag, "the linear-system solver is not given the new starting point")
            else:
                r = agree(S3, s, lambda ev: same(vals_of(ev, ws[-1][1], ev.S.n), xs(ev)))
                note(res, "C28/linsys-start", tag, r, "the linear-system solver starts from another point than the one given")
        w = at(s, I, SETT, 'warm_starting')
        z = evalc(s, c_eq(w, K0))
        if z is None:
            res.undecided("C28/enabled", tag, "setting not determined")
        else:
            res.check(not z, "C28/enabled", tag, "warm starting stays disabled, so the next solve ignores the starting point")
    if not got:
        res.fail("C28/start-iterate", tag, "never succeeds")
    account(res, I)
    return res


def job_cold(case):
    p = PG.load('mkl')
    res = Result()
    f = fn(p, 'osqp_cold_start')
    I = interp(p, Calls(), callkey)
    st = case_state(I, case)
    for rv, s in I.run(f, [SOLVER], st):
        if s.mem.get((SOLVER, IN(('work',)))) is not None and False:
            continue
        for w in ('x', 'y', 'z'):
            t = I.vec(s, at(s, I, WORK, w))
            res.check(t == T.V({}) or (t[0] == 'vec' and not t[1]), "C28/cold", "work->%s after osqp_cold_start" % w,
                      "iterate %s is not zero after a cold start" % w)
        ws = [c for c in s.ts.get('calls', ()) if c[0] == 'warm_start']
        res.check(bool(ws) and ws[-1][1] == I.vec(s, at(s, I, WORK, 'x')), "C28/cold", "linear-system solver after osqp_cold_start",
                  "the linear-system solver is not restarted from zero")
    account(res, I)
    return res


def job_first(case):
    """right-hand side of the first linear system of a solve"""
    p = PG.load('mkl')
    res = Result()
    ft = fieldtypes(p)
    m = lin_models(base_models())
    I = interp(p, None, None, m)
    st = case_state(I, case)
    tag = "first linear system of osqp_solve, warm_starting=%s rho_is_vec=%s scaling=%s" % (case['warm_starting'], case['rho_is_vec'], case['scaling'])
    S3 = stdsamples(case, ft)
    n = [0]

    def solve(I, st, inst, a, ctx):
        n[0] += 1
        rx, rz = I.vec(st, at(st, I, WORK, 'xtilde_view')), I.vec(st, at(st, I, WORK, 'ztilde_view'))

        def want(ev):
            S = ev.S
            q = S.vecs[('data', 'q')]
            z = lambda w, d: vals_of(ev, T.v_atom(IN(('init', member(WORK, w), ('$v',)))), d)
            if case['warm_starting'] == 0:
                x, zz, y = [0.] * S.n, [0.] * S.m, [0.] * S.m
            else:
                x, zz, y = z('x', S.n), z('z', S.m), z('y', S.m)
            sg = ev.num(setting('sigma'))
            ri = z('rho_inv_vec', S.m) if case['rho_is_vec'] else [ev.num(member(WORK, 'rho_inv'))] * S.m
            return [sg * a - b for a, b in zip(x, q)], [a - r * b for a, r, b in zip(zz, ri, y)]
        r = agree(S3, st, lambda ev: same(vals_of(ev, rx, ev.S.n), want(ev)[0]) and same(vals_of(ev, rz, ev.S.m), want(ev)[1]))
        note(res, "C28/first-step", tag, r, "the first linear system is not built from %s" %
             ("zero iterates" if case['warm_starting'] == 0 else "the iterates left by the warm start"))
        raise Stop()
    m['*solve'] = solve
    try:
        I.run(fn(p, 'osqp_solve'), [SOLVER], st)
    except Stop:
        pass
    if not n[0]:
        raise Broken("osqp_solve never solves a linear system")
    account(res, I)
    return res


# ---------------------------------------------------------------- vector data updates
def rho_consistent(res, I, s, case, S3, tag, pre=None, changed=None, rho=None):
    """C07 at an exit: settings, vector, inverses and linear system hold the same clamped rho"""
    v = at(s, I, SETT, 'rho')
    isvec = case.get('rho_is_vec')
    R = rho or (lambda ev: min(max(ev.num(setting('rho')), RHO_MIN), RHO_MAX))

    def rvec(ev):
        S = ev.S
        ct = vals_of(ev, I.vec(s, at(s, I, WORK, 'constr_type')), S.m)
        r = R(ev)
        return [RHO_MIN if c == -1 else EQF * r if c == 1 else r for c in ct]
    note(res, "C07/settings-rho", tag, agree(S3, s, lambda ev: close(ev.num(v), R(ev)), preset=pre), "settings->rho is not the clamped value")
    if isvec:
        note(res, "C07/rho-vec", tag, agree(S3, s, lambda ev: same(vals_of(ev, I.vec(s, at(s, I, WORK, 'rho_vec')), ev.S.m), rvec(ev)), preset=pre),
             "rho_vec is not the per-constraint value of the clamped rho")
        note(res, "C07/rho-inv", tag, agree(S3, s, lambda ev: same(vals_of(ev, I.vec(s, at(s, I, WORK, 'rho_inv_vec')), ev.S.m),
                                                                   [1 / x for x in rvec(ev)]), preset=pre), "rho_inv_vec is not the reciprocal of rho_vec")
    else:
        note(res, "C07/rho-inv", tag, agree(S3, s, lambda ev: close(ev.num(at(s, I, WORK, 'rho_inv')), 1 / R(ev)), preset=pre),
             "rho_inv is not the reciprocal of rho")
    calls = [c for c in s.ts.get('calls', ()) if c[0] == 'update_rho_vec']
    return calls, R, rvec


def job_vec(case, qn, ln, un):
    p = PG.load('mkl')
    res = Result()
    ft = fieldtypes(p)
    f = fn(p, 'osqp_update_data_vec')
    aq, al, au = [a[1] for a in f.args[1:4]]
    I = interp(p, Calls(), callkey)
    st = case_state(I, case)
    nl = dict(zip((aq, al, au), (qn, ln, un)))
    st = assume_args(I, st, [a for a in nl if nl[a]], [a for a in nl if not nl[a]])
    tag = "osqp_update_data_vec(%s) scaling=%s" % (",".join(a if not nl[a] else "NULL" for a in (aq, al, au)), case['scaling'])
    S3 = stdsamples(case, ft, 6, dims={ARG(aq): 'n', ARG(al): 'm', ARG(au): 'm'})
    scaled = case['scaling'] != 0

    def newl(ev, w):
        S = ev.S
        a, isnull = {'q': (aq, qn), 'l': (al, ln), 'u': (au, un)}[w]
        if isnull:
            return S.vecs[('data', w)]
        v = vals_of(ev, ARGV(a), S.n if w == 'q' else S.m)
        if w == 'q':
            return [S.c * d * x for d, x in zip(S.D, v)]
        return [e * x for e, x in zip(S.E, v)]

    # interpretations with ordered and with crossing bounds
    for i, S in enumerate(S3):
        if not ln:
            S.vectors[IN(('init', ARG(al), ('$v',)))] = [random.Random(i * 7 + k).uniform(-3, 0) for k in range(S.m)]
        if not un:
            S.vectors[IN(('init', ARG(au), ('$v',)))] = [random.Random(i * 9 + k).uniform(1, 3) for k in range(S.m)]
        if i % 2 and S.m and not (ln and un):
            # a violation that is visible in the last component only
            if not ln:
                b = S.u[-1] if un else S.vectors[IN(('init', ARG(au), ('$v',)))][-1]
                S.vectors[IN(('init', ARG(al), ('$v',)))][-1] = b + 0.5
            else:
                S.vectors[IN(('init', ARG(au), ('$v',)))][-1] = S.l[-1] - 0.5
        elif not (ln and un):
            if un:
                S.vectors[IN(('init', ARG(al), ('$v',)))] = [min(x, u - .1) for x, u in zip(S.vectors[IN(('init', ARG(al), ('$v',)))], S.u)]
            elif ln:
                S.vectors[IN(('init', ARG(au), ('$v',)))] = [max(x, l + .1) for x, l in zip(S.vectors[IN(('init', ARG(au), ('$v',)))], S.l)]
    succ = rej = 0
    for rv, s in I.run(f, [SOLVER, ARG(aq), ARG(al), ARG(au)], st):
        ok, err = final(I, s, rv)
        if ok is not None:
            succ += 1
            for w in ('q', 'l', 'u'):
                t = I.vec(ok, at(ok, I, WORK, 'data', w))
                r = agree(S3, ok, lambda ev: same(vals_of(ev, t, ev.S.n if w == 'q' else ev.S.m), newl(ev, w)))
                c = "data->%s after %s" % (w, tag)
                note(res, "C08/vector-data", c, r, "the internal %s is not %s" % (w, "the new one in internal units" if not nl[{'q': aq, 'l': al, 'u': au}[w]] else "unchanged"))
                if scaled and not nl[{'q': aq, 'l': al, 'u': au}[w]]:
                    note(res, "C03/input-units", c, r, "the new %s is not converted with the scaling in force" % w)
            P0 = I.mat(ok, at(ok, I, WORK, 'data', 'P'))
            sv = at(ok, I, INFO, 'status_val')
            res.check(sv == kk(p.enums['OSQP_UNSOLVED']), "C08/results-reset", tag, "the status of the old problem survives the update")
            if case['rho_is_vec'] and not (ln and un):
                ct = I.vec(ok, at(ok, I, WORK, 'constr_type'))

                def types(ev):
                    S = ev.S
                    out = []
                    for a, b in zip(newl(ev, 'l'), newl(ev, 'u')):
                        out.append(-1. if a < -BIG and b > BIG else 1. if b - a < 1e-4 else 0.)
                    return out
                note(res, "C07/constraint-types", tag, agree(S3, ok, lambda ev: same(vals_of(ev, ct, ev.S.m), types(ev))),
                     "constraint types are not those of the new bounds")
                calls, R, rvec = rho_consistent(res, I, ok, case, S3, tag)
                for c in calls:
                    note(res, "C07/linsys-rho", tag, agree(S3, ok, lambda ev: same(vals_of(ev, c[2], ev.S.m), rvec(ev)) and close(ev.num(c[3]), R(ev))),
                         "the linear system is updated with another rho than the one stored")
                if not calls:
                    # the rho vector may only stay unreported if the constraint types did not change
                    def unchanged(ev):
                        S = ev.S
                        old = vals_of(ev, T.v_atom(IN(('init', member(WORK, 'constr_type'), ('$v',)))), S.m)
                        return not holds(ev, ok.facts) or old == types(ev)
                    note(res, "C07/linsys-rho", tag + " (not updated)", agree(S3, ok, unchanged),
                         "the constraint types can change without the linear system being given the new rho")
            if not (ln and un):
                def okb(ev):
                    return not holds(ev, ok.facts) or all(a <= b for a, b in zip(newl(ev, 'l'), newl(ev, 'u')))
                note(res, "C18/bounds-ordered", tag, agree(S3, ok, okb), "bounds with l > u are accepted")
        if err is not None and rv[0] == 'k':
            rej += 1
            res.good("C09/rejections", tag)
            unchanged_state(res, I, err, tag, S3)
            if not (ln and un):
                def badb(ev):
                    return not holds(ev, err.facts) or not all(a <= b for a, b in zip(newl(ev, 'l'), newl(ev, 'u')))
                note(res, "C18/bounds-ordered", tag + " rejected", agree(S3, err, badb), "ordered bounds are rejected")
    if not succ:
        res.fail("C08/vector-data", tag, "never succeeds")
    account(res, I)
    return res


# fields of the solver object that no later call reads before writing them (scratch), and timers
SCRATCH = {'z_prev', 'x_prev', 'xz_tilde', 'xtilde_view', 'ztilde_view', 'Atdelta_y', 'Pdelta_x', 'Adelta_x', 'D_temp', 'D_temp_A', 'E_temp',
           'timer', 'update_time', 'clear_update_time', 'summary_printed', 'Ax', 'Px', 'Aty'}


def unchanged_state(res, I, s, tag, S3, rule="C09/state-unchanged"):
    """every location reachable from the solver holds its initial value"""
    for (b, path), v in s.mem.items():
        t = b
        # base reachable from solver through initial pointers?
        names = []
        while t[0] == 'init':
            names = list(fields(t[2])) + names
            t = t[1]
        if t is not SOLVER:
            continue
        fs = [x for x in list(names) + list(fields(path)) if x not in ('$v', '$m')]
        if any(x in SCRATCH for x in fs):
            continue
        init = IN(('init', b, path))
        if path and path[-1] == '$v':
            init = T.v_atom(init)
        elif path and path[-1] == '$m':
            init = T.m_atom(init)
        c = "%s in %s" % ("->".join(fs), tag)
        if v == init:
            res.good(rule, c)
            continue
        if path and path[-1] in ('$v',) and v[0] == 'vec':
            r = agree(S3, s, lambda ev: same(evalterm(ev, 'vec', v, ev.S, ev.S.m), evalterm(ev, 'vec', init, ev.S, ev.S.m)))
            if r is True:
                res.good(rule, c)
                continue
            if r is None:
                res.undecided(rule, c, "not interpretable")
                continue
        elif v[0] in ('phi', 'sum', 'f', 'k', 'init') and not (path and path[-1] in ('$m', '$str')):
            try:
                r = agree(S3, s, lambda ev: close(ev.num(v), ev.num(init)))
            except Exception:
                r = None
            if r is True:
                res.good(rule, c)
                continue
            if r is None:
                res.undecided(rule, c, "not interpretable")
                continue
        res.fail(rule, c, "%s is changed although the call is rejected" % "->".join(fs))


# ---------------------------------------------------------------- matrix data updates
def job_mat(case, Pn, An, Pi, Ai):
    """Pn/An: new values NULL; Pi/Ai: index vectors NULL"""
    p = PG.load('mkl')
    res = Result()
    ft = fieldtypes(p)
    f = fn(p, 'osqp_update_data_mat')
    nm = [a[1] for a in f.args]
    scaled = case['scaling'] != 0
    tag = "osqp_update_data_mat(%s,%s,..,%s,%s,..) scaling=%s" % tuple(["NULL" if x else y for x, y in ((Pn, 'Px'), (Pi, 'idx'), (An, 'Ax'), (Ai, 'idx'))] + [case['scaling']])

    def upd(ev, M0, a, i):
        return ev.mat(IN(('upd', T.m_atom(IN(('$orig', a))), ARG(a), ARG(i), K0))) if False else overwritten(ev.S, M0, a, i)

    def overwritten(S, M0, a, i):
        R = S.hashrand("upd" + T.show(ARG(a)) + T.show(K0 if {nm[2]: Pi, nm[5]: Ai}[i] else ARG(i)))
        return [[(R.uniform(-3, 3) if R.random() < .5 else x) for x in row] for row in M0]

    def orig(ev):
        S = ev.S
        P0 = S.P if Pn else overwritten(S, S.P, nm[1], nm[2])
        A0 = S.A if An else overwritten(S, S.A, nm[4], nm[5])
        return P0, S.q, A0, S.l, S.u
    DR = DataRelations(WROOT, orig, ft, scaled)
    for S in DR.samples:
        S.over[('settings', 'scaling')] = 4.0 if scaled else 0.0
    FA = Factors(DR, res, orig, scaled)
    for S in FA.samples:
        S.over[('settings', 'scaling')] = 4.0
    H = Calls(DR, FA)
    I = interp(p, H, callkey)
    st = case_state(I, case)
    nul = [a for a, x in ((nm[1], Pn), (nm[2], Pi), (nm[4], An), (nm[5], Ai)) if x]
    non = [a for a, x in ((nm[1], Pn), (nm[2], Pi), (nm[4], An), (nm[5], Ai)) if not x]
    st = assume_args(I, st, nul, non)
    nP, nA = IN(('init', member(DATA, 'P'), ('$get_nz',))), IN(('init', member(DATA, 'A'), ('$get_nz',)))
    st = I.assume(st, c_lt(nP, K0), False)
    st = I.assume(st, c_lt(nA, K0), False)
    succ = 0
    for rv, s in I.run(f, [SOLVER] + [ARG(a) for a in nm[1:]], st):
        ok, err = final(I, s, rv)
        if rv[0] == 'k' and err is not None:
            res.good("C09/rejections", tag)
            unchanged_state(res, I, err, tag, DR.samples)
            if any(c[0] == 'update_matrices' for c in err.ts.get('calls', ())):
                res.fail("C09/state-unchanged", "linear system in " + tag, "the linear system is touched although the call is rejected")
            continue
        if ok is None:
            continue
        succ += 1
        s = ok
        pre = DR.preset
        DR.refresh(I, s)
        calls = [c for c in s.ts.get('calls', ()) if c[0] == 'update_matrices']
        o = [getter(WROOT, k, 'data', w)(I, s) for k, w in (('mat', 'P'), ('mat', 'A'), ('vec', 'q'), ('vec', 'l'), ('vec', 'u'))]
        sc = lambda ev: (DR.opval(ev, DR.c, DR.c(I, s)), DR.opval(ev, DR.D, DR.D(I, s)), DR.opval(ev, DR.E, DR.E(I, s))) if scaled else \
            (1.0, [1.0] * ev.S.n, [1.0] * ev.S.m)

        def full(ev):
            c, D, E = sc(ev)
            P0, q0, A0, l0, u0 = orig(ev)
            n, m = len(D), len(E)
            return ([[c * D[i] * P0[i][j] * D[j] for j in range(n)] for i in range(n)], [[E[i] * A0[i][j] * D[j] for j in range(n)] for i in range(m)],
                    [c * D[i] * q0[i] for i in range(n)], [E[i] * l0[i] for i in range(m)], [E[i] * u0[i] for i in range(m)])
        for k, w in enumerate(('P', 'A', 'q', 'l', 'u')):
            def f_(ev, k=k):
                want = full(ev)[k]
                return same(evalterm(ev, 'mat' if k < 2 else 'vec', o[k], ev.S, ev.S.n if k == 2 else ev.S.m), want)
            r = DR.decided(I, s, w)
            if r is None:
                r = agree(DR.samples, s, f_, preset=pre)
            c = "data->%s after %s" % (w, tag)
            note(res, "C08/matrix-data", c, r, "the internal %s is not the new problem's %s under the current scaling" % (w, w))
            if scaled:
                note(res, "C03/input-units", c, r, "the internal %s does not match the scaling in force" % w)
                note(res, "C27/scaling-relation", c, r, "%s is not the original %s times the stored scaling factors" % (w, w))
        if scaled:
            inverses(res, I, s, WROOT, DR, tag)
        if not calls:
            res.fail("C08/linsys-matrices", tag, "the linear system is not given the new matrices")
        else:
            c = calls[-1]
            res.check(c[1] is at(s, I, WORK, 'data', 'P') and c[5] is at(s, I, WORK, 'data', 'A'), "C08/linsys-matrices", tag + ": matrices",
                      "the linear system is updated with other matrices than the problem's")
            res.check(c[2] == o[0] and c[6] == o[1], "C08/linsys-matrices", tag + ": contents",
                      "the matrices change after the linear system was updated")
            for w, idx, cnt, a, na, nz, nulli in (('P', c[3], c[4], nm[2], nm[3], nP, Pi), ('A', c[7], c[8], nm[5], nm[6], nA, Ai)):
                if scaled:
                    isnull = evalc(s, c_eq(idx, K0))
                    good = isnull is True and evalc(s, c_eq(cnt, nz)) is True
                    if good or isnull is False or evalc(s, c_eq(cnt, nz)) is False:
                        res.check(good, "C08/linsys-extent", "%s in %s" % (w, tag),
                                  "after rescaling every entry of %s changes, but only part of them is passed to the linear system" % w)
                    else:
                        res.undecided("C08/linsys-extent", "%s in %s" % (w, tag), "index or count not determined")
                else:
                    full_ = evalc(s, c_eq(idx, K0)) is True and evalc(s, c_eq(cnt, nz)) is True
                    part = idx is ARG(a) or (nulli and idx is K0) or idx == ARG(a)
                    cok = full_ or all(cnt_ok(s, x, na, nz) for x in s.vals.get(cnt, (cnt,)))
                    res.check((part or full_) and cok, "C08/linsys-extent", "%s in %s" % (w, tag),
                              "the entries of %s given to the linear system are not the ones that changed" % w)
        res.check(at(s, I, INFO, 'status_val') == kk(p.enums['OSQP_UNSOLVED']), "C08/results-reset", tag, "the status of the old problem survives the update")
    if not succ and not ((not Pn and False)):
        res.undecided("C08/matrix-data", tag, "no successful exit")
    account(res, I)
    return res


def cnt_ok(s, x, na, nz):
    return x is ARG(na) or x is nz or x == nz or x[0] == 'phi'


def inverses(res, I, s, root, DR, tag):
    pre = DR.preset
    Di, Ei, ci = getter(root, 'vec', 'scaling', 'Dinv'), getter(root, 'vec', 'scaling', 'Einv'), getter(root, 'num', 'scaling', 'cinv')
    for nm, a, b, d in (('Dinv', Di, DR.D, 'n'), ('Einv', Ei, DR.E, 'm'), ('cinv', ci, DR.c, None)):
        def f(ev):
            x = evalterm(ev, a.kind, a(I, s), ev.S, None if d is None else getattr(ev.S, d))
            y = DR.opval(ev, b, b(I, s))
            return close(x, 1 / y) if d is None else same(x, [1 / v for v in y])
        note(res, "C27/inverses", "scaling->%s after %s" % (nm, tag), agree(DR.samples, s, f, preset=pre), "%s is not the reciprocal of the stored factor" % nm)


# ---------------------------------------------------------------- rho update
def job_rho(case):
    p = PG.load('mkl')
    res = Result()
    ft = fieldtypes(p)
    f = fn(p, 'osqp_update_rho')
    ar = f.args[1][1]
    I = interp(p, Calls(), callkey)
    st = case_state(I, case)
    tag = "osqp_update_rho rho_is_vec=%s" % case['rho_is_vec']
    S3 = stdsamples(case, ft, 9)
    for i, S in enumerate(S3):
        S.over[('settings', 'rho')] = 0.3
        S.scalars[ARG(ar)] = (1e-9, 0.1, 7.5, 1e9, 1e-6, 3e3, -1.0, 0.0, -1e-12)[i]
    succ = 0
    for rv, s in I.run(f, [SOLVER, ARG(ar)], st):
        ok, err = final(I, s, rv)
        if rv[0] == 'k' and err is not None:
            res.good("C09/rejections", tag)
            unchanged_state(res, I, err, tag, S3)
            res.check(not any(c[0] == 'update_rho_vec' for c in err.ts.get('calls', ())), "C09/state-unchanged", "linear system in " + tag,
                      "the linear system is touched although the call is rejected")
            note(res, "C15/rho-range", tag + " rejected", agree(S3, err, lambda ev: not holds(ev, err.facts) or ev.num(ARG(ar)) <= 0), "a positive rho is rejected")
            continue
        if ok is None:
            continue
        succ += 1
        s = ok
        note(res, "C15/rho-range", tag, agree(S3, s, lambda ev: not holds(ev, s.facts) or ev.num(ARG(ar)) > 0), "a non-positive rho is accepted")
        R = lambda ev: min(max(ev.num(ARG(ar)), RHO_MIN), RHO_MAX)
        calls, R, rvec = rho_consistent(res, I, s, case, S3[:6], tag, rho=R)
        if not calls:
            res.fail("C07/linsys-rho", tag, "the linear system is not given the new rho")
        else:
            c = calls[-1]
            note(res, "C07/linsys-rho", tag, agree(S3[:6], s, lambda ev: close(ev.num(c[3]), R(ev)) and
                                                   (not case['rho_is_vec'] or same(vals_of(ev, c[2], ev.S.m), rvec(ev)))),
                 "the linear system is given another rho than the one stored")
    if not succ:
        res.fail("C07/linsys-rho", tag, "never succeeds")
    account(res, I)
    return res


# ---------------------------------------------------------------- setup
def job_setup(scaling, rho_is_vec):
    p = PG.load('mkl')
    res = Result()
    ft = fieldtypes(p)
    f = fn(p, 'osqp_setup')
    nm = [a[1] for a in f.args]           # solverp P q A l u m n settings
    sp, aP, aq, aA, al, au, am, an, ase = nm[:9]
    root = lambda I, st: I.load(st, mkptr(I.load(st, ARG(sp)), ('work',)))
    scaled = scaling != 0
    tag = "osqp_setup scaling=%s rho_is_vec=%s" % (scaling, rho_is_vec)

    def orig(ev):
        S = ev.S
        return S.P, S.q, S.A, S.l, S.u
    DR = DataRelations(root, orig, ft, scaled)
    FA = Factors(DR, res, orig, scaled)
    for k, S in enumerate(DR.samples + FA.samples):
        S.over[('csc', ARG(aP))] = S.P
        S.over[('csc', ARG(aA))] = S.A
        S.dims = {ARG(aq): 'n', ARG(al): 'm', ARG(au): 'm'}
        for a, v in ((aq, S.q), (al, S.l), (au, S.u)):
            S.vectors[IN(('init', ARG(a), ('$v',)))] = v
        S.scalars[ARG(an)], S.scalars[ARG(am)] = float(S.n), float(S.m)
        S.over[('rho',)] = (1e-9, 0.3, 1e9)[k % 3]
        S.scalars[IN(('init', ARG(ase), ('rho',)))] = (1e-9, 0.3, 1e9)[k % 3]
        S.scalars[IN(('init', ARG(ase), ('scaling',)))] = 4.0 if scaled else 0.0
    m = lin_models(base_models())

    def init(I, st, inst, a, ctx):
        record(st, 'init_linsys', a[1], I.mat(st, a[1]), a[2], I.mat(st, a[2]), a[3], I.vec(st, a[3]) if a[3] is not K0 else None, a[4])
        I.store(st, a[0], ARG('$linsys'))
        return K0
    m['osqp_algebra_init_linsys_solver'] = init
    I = interp(p, Calls(DR, FA), None, m)
    st = absint.State()
    for a in (sp, aP, aq, aA, al, au, ase):
        st = I.assume(st, c_eq(ARG(a), K0), False)
    sfield = lambda x: IN(('init', ARG(ase), (x,)))
    st = I.assume(st, c_lt(K0, sfield('scaling')) if scaled else c_eq(sfield('scaling'), K0), True)
    st = I.assume(st, c_eq(sfield('rho_is_vec'), kk(rho_is_vec)), True)
    st = I.assume(st, c_eq(sfield('verbose'), K0), True)
    st = I.assume(st, c_lt(K0, ARG(am)), True)
    st = I.assume(st, c_lt(K0, ARG(an)), True)
    succ = 0
    for rv, s in I.run(f, [ARG(a) for a in nm], st):
        if rv is not K0:
            continue
        succ += 1
        pre = DR.preset
        DR.refresh(I, s)
        W = root(I, s)
        o = [getter(root, k, 'data', w)(I, s) for k, w in (('mat', 'P'), ('mat', 'A'), ('vec', 'q'), ('vec', 'l'), ('vec', 'u'))]
        sc = lambda ev: (DR.opval(ev, DR.c, DR.c(I, s)), DR.opval(ev, DR.D, DR.D(I, s)), DR.opval(ev, DR.E, DR.E(I, s))) if scaled else \
            (1.0, [1.0] * ev.S.n, [1.0] * ev.S.m)

        def full(ev):
            c, D, E = sc(ev)
            P0, q0, A0, l0, u0 = orig(ev)
            n, mm = len(D), len(E)
            return ([[c * D[i] * P0[i][j] * D[j] for j in range(n)] for i in range(n)], [[E[i] * A0[i][j] * D[j] for j in range(n)] for i in range(mm)],
                    [c * D[i] * q0[i] for i in range(n)], [E[i] * l0[i] for i in range(mm)], [E[i] * u0[i] for i in range(mm)])
        for k, w in enumerate(('P', 'A', 'q', 'l', 'u')):
            def f_(ev, k=k):
                return same(evalterm(ev, 'mat' if k < 2 else 'vec', o[k], ev.S, ev.S.n if k == 2 else ev.S.m), full(ev)[k])
            r = DR.decided(I, s, w)
            if r is None:
                r = agree(DR.samples, s, f_, preset=pre)
            c = "data->%s after %s" % (w, tag)
            note(res, "C03/input-units", c, r, "the internal %s is not the given %s in internal units" % (w, w))
            if scaled:
                note(res, "C27/scaling-relation", c, r, "%s is not the original %s times the stored scaling factors" % (w, w))
        if scaled:
            inverses(res, I, s, root, DR, tag)
        # rho
        SE = I.load(s, mkptr(I.load(s, ARG(sp)), ('settings',)))
        rho = I.load(s, mkptr(SE, ('rho',)))
        R = lambda ev: min(max(ev.num(sfield('rho')), RHO_MIN), RHO_MAX)
        note(res, "C07/settings-rho", tag, agree(DR.samples, s, lambda ev: close(ev.num(rho), R(ev)), preset=pre), "settings->rho is not the clamped value")
        g = lambda w, k='vec': getter(root, k, w)(I, s)

        def types(ev):
            l, u = full(ev)[3], full(ev)[4]
            return [-1. if a < -BIG and b > BIG else 1. if b - a < 1e-4 else 0. for a, b in zip(l, u)]
        rv_ = lambda ev: [RHO_MIN if c == -1 else EQF * R(ev) if c == 1 else R(ev) for c in types(ev)]
        li = [c for c in s.ts.get('calls', ()) if c[0] == 'init_linsys']
        if rho_is_vec:
            note(res, "C07/constraint-types", tag, agree(DR.samples, s, lambda ev: same(vals_of(ev, g('constr_type'), ev.S.m), types(ev)), preset=pre),
                 "constraint types are not those of the bounds")
            note(res, "C07/rho-vec", tag, agree(DR.samples, s, lambda ev: same(vals_of(ev, g('rho_vec'), ev.S.m), rv_(ev)), preset=pre),
                 "rho_vec is not the per-constraint value of the clamped rho")
            note(res, "C07/rho-inv", tag, agree(DR.samples, s, lambda ev: same(vals_of(ev, g('rho_inv_vec'), ev.S.m), [1 / x for x in rv_(ev)]), preset=pre),
                 "rho_inv_vec is not the reciprocal of rho_vec")
        else:
            note(res, "C07/rho-inv", tag, agree(DR.samples, s, lambda ev: close(ev.num(g('rho_inv', 'num')), 1 / R(ev)), preset=pre), "rho_inv is not the reciprocal of rho")
        if not li:
            res.fail("C07/linsys-rho", tag, "no linear system is initialised")
        else:
            c = li[-1]
            res.check(c[1] is I.load(s, mkptr(I.load(s, mkptr(W, ('data',))), ('P',))) and c[3] is I.load(s, mkptr(I.load(s, mkptr(W, ('data',))), ('A',))) and
                      c[2] == o[0] and c[4] == o[1], "C08/linsys-matrices", tag, "the linear system is built from other matrices than the scaled problem's")
            res.check(c[7] is SE, "C07/linsys-rho", tag + ": settings", "the linear system is built from other settings than the solver's (rho unclamped)")
            if rho_is_vec:
                res.check(c[6] is not None and c[6] == g('rho_vec'), "C07/linsys-rho", tag, "the linear system is built with another rho than the one stored")
        for w in ('x', 'y', 'z'):
            t = g(w)
            res.check(t is not None and t[0] == 'vec' and not t[1], "C28/initial", "work->%s after %s" % (w, tag), "iterate %s is not zero after setup" % w)
    if not succ:
        raise Broken("osqp_setup never succeeds")
    account(res, I)
    return res


def jobs(pid, tier):
    J = []
    sc = (0, '+')
    if pid in ('C28', 'C03'):
        for s_ in sc:
            for xn in (0, 1):
                for yn in (0, 1):
                    J.append((job_start, {'scaling': s_, 'warm_starting': 0}, xn, yn))
                    J.append((job_start, {'scaling': s_, 'warm_starting': 1}, xn, yn))
    if pid == 'C28':
        J += [(job_cold, {'scaling': s_}) for s_ in sc]
        J += [(job_first, dict(scaling=s_, warm_starting=ws, rho_is_vec=rv, verbose=0)) for s_ in sc for ws in (0, 1) for rv in (0, 1)]
    if pid in ('C03', 'C07', 'C08', 'C09', 'C18'):
        J += [(job_vec, {'scaling': s_, 'rho_is_vec': rv}, k & 1, k >> 1 & 1, k >> 2 & 1) for s_ in sc for rv in (0, 1) for k in range(8)]
    if pid in ('C03', 'C08', 'C09', 'C27'):
        J += [(job_mat, {'scaling': s_}, a, b, c, d) for s_ in sc for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)]
    if pid in ('C07', 'C09', 'C15'):
        J += [(job_rho, {'rho_is_vec': rv, 'scaling': s_}) for rv in (0, 1) for s_ in sc]
    if pid in ('C03', 'C07', 'C27', 'C28', 'C08'):
        J += [(job_setup, s_, rv) for s_ in sc for rv in (0, 1)]
    return J


def runjob(f, *a):
    return globals()[f](*a)


def collect(pid, tier):
    PG.load('mkl')
    return parallel(runjob, [(j[0].__name__,) + j[1:] for j in jobs(pid, tier)])
