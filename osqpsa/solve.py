"""osqp_solve analysed as a whole: relational invariants between what is reported and the iterates, acceptance conditions
dominating each status, the transfer function of one iteration, and the exit states."""
import math
from . import terms as T, absint
from .absint import IN, K0, K1, split, mkptr, evalc, is_cond
from .reval import Sample, Eval, Undecided, Infeasible, Const, close, runs, chain, fields
from .lib import *

INFV = 1e30
BIG = 1e26

# ---------------------------------------------------------------- specification, in original units
def mvp(M, x):
    return [sum(r[j] * x[j] for j in range(len(x))) for r in M]


def mtv(M, y, n):
    return [sum(M[i][j] * y[i] for i in range(len(M))) for j in range(n)]


def ninf(v):
    return max([abs(x) for x in v], default=0.0)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


class Spec:
    """mathematical definitions for one interpretation; unit 'o' = original problem, 's' = scaled problem"""

    def __init__(self, S):
        self.S = S
        n, m = S.n, S.m
        self.d = {
            'o': (S.P, S.q, S.A, S.l, S.u),
            's': (S.mats[('data', 'P')], S.vecs[('data', 'q')], S.mats[('data', 'A')], S.vecs[('data', 'l')], S.vecs[('data', 'u')]),
        }

    def conv(self, unit, x=None, y=None, z=None):
        S = self.S
        if unit == 's':
            return x, y, z
        return (None if x is None else [a * d for a, d in zip(x, S.D)],
                None if y is None else [a * e / S.c for a, e in zip(y, S.E)],
                None if z is None else [a / e for a, e in zip(z, S.E)])

    def Ax(self, unit, x):
        return mvp(self.d[unit][2], self.conv(unit, x=x)[0])

    def Px(self, unit, x):
        return mvp(self.d[unit][0], self.conv(unit, x=x)[0])

    def Aty(self, unit, y):
        return mtv(self.d[unit][2], self.conv(unit, y=y)[1], self.S.n)

    def prim_res(self, unit, x, z):
        if self.S.m == 0:
            return 0.0
        return ninf([a - b for a, b in zip(self.Ax(unit, x), self.conv(unit, z=z)[2])])

    def dual_res(self, unit, x, y):
        return ninf([a + b + c for a, b, c in zip(self.Px(unit, x), self.d[unit][1], self.Aty(unit, y))])

    def xpx(self, unit, x):
        return dot(self.Px(unit, x), self.conv(unit, x=x)[0])

    def qx(self, unit, x):
        return dot(self.d[unit][1], self.conv(unit, x=x)[0])

    def sc(self, unit, y):
        """support function of [l,u] at the projection of y onto the polar of the recession cone"""
        S = self.S
        ls, us = self.d['s'][3], self.d['s'][4]
        l, u = self.d[unit][3], self.d[unit][4]
        yo = self.conv(unit, y=y)[1]
        s = 0.0
        for i in range(S.m):
            v = yo[i]
            if us[i] > BIG:
                v = 0.0 if ls[i] < -BIG else min(v, 0.0)
            elif ls[i] < -BIG:
                v = max(v, 0.0)
            s += u[i] * max(v, 0.0) + l[i] * min(v, 0.0) if v else 0.0
        return s

    def obj(self, unit, x):
        return .5 * self.xpx(unit, x) + self.qx(unit, x)

    def dual_obj(self, unit, x, y):
        return -.5 * self.xpx(unit, x) - self.sc(unit, y)

    def gap(self, unit, x, y):
        return self.obj(unit, x) - self.dual_obj(unit, x, y)

    def prim_tol(self, unit, ea, er, x, z):
        return ea + er * max(ninf(self.Ax(unit, x)), ninf(self.conv(unit, z=z)[2]))

    def dual_tol(self, unit, ea, er, x, y):
        return ea + er * max(ninf(self.Px(unit, x)), ninf(self.Aty(unit, y)), ninf(self.d[unit][1]))

    def gap_tol(self, unit, ea, er, x, y):
        return ea + er * max(abs(self.xpx(unit, x)), abs(self.qx(unit, x)), abs(self.sc(unit, y)))


def unit_of(case):
    """units in which residuals and tolerances are to be compared"""
    return 's' if case.get('scaling') != 0 and case.get('scaled_termination') else 'o'


# ---------------------------------------------------------------- relational invariants
class Rel:
    def __init__(self, name, val, ops, spec, vec=False):
        self.name, self.val, self.ops, self.spec, self.vec = name, val, ops, spec, vec


def wvec(name):
    return lambda I, st: I.vec(st, at(st, I, WORK, name))


def polvec(name):
    return lambda I, st: I.vec(st, at(st, I, WORK, 'pol', name))


def wnum(name):
    return lambda I, st: at(st, I, WORK, name)


def inum(name):
    return lambda I, st: at(st, I, INFO, name)


def polnum(name):
    return lambda I, st: at(st, I, WORK, 'pol', name)


def relations(case, pol=False):
    u = unit_of(case)
    X, Y, Z = (polvec('x'), polvec('y'), polvec('z')) if pol else (wvec('x'), wvec('y'), wvec('z'))
    X.dim, Y.dim, Z.dim = 'n', 'm', 'm'
    num = polnum if pol else inum
    pre = 'pol.' if pol else ''
    R = [
        Rel(pre + 'prim_res', num('prim_res'), (X, Z), lambda sp, x, z: sp.prim_res(u, x, z)),
        Rel(pre + 'dual_res', num('dual_res'), (X, Y), lambda sp, x, y: sp.dual_res(u, x, y)),
        Rel(pre + 'obj_val', num('obj_val'), (X,), lambda sp, x: sp.obj('o', x)),
        Rel(pre + 'dual_obj_val', num('dual_obj_val'), (X, Y), lambda sp, x, y: sp.dual_obj('o', x, y)),
        Rel(pre + 'duality_gap', num('duality_gap'), (X, Y), lambda sp, x, y: sp.gap('o', x, y)),
    ]
    if not pol:
        R += [
            Rel('$Ax', wvec('Ax'), (X,), lambda sp, x: sp.Ax('s', x), True),
            Rel('$Px', wvec('Px'), (X,), lambda sp, x: sp.Px('s', x), True),
            Rel('$Aty', wvec('Aty'), (Y,), lambda sp, y: sp.Aty('s', y), True),
            Rel('$xtPx', wnum('xtPx'), (X,), lambda sp, x: sp.xpx('s', x)),
            Rel('$qtx', wnum('qtx'), (X,), lambda sp, x: sp.qx('s', x)),
            Rel('$SC', wnum('SC'), (Y,), lambda sp, y: sp.sc('s', y)),
            Rel('$sgap', wnum('scaled_dual_gap'), (X, Y), lambda sp, x, y: sp.gap('s', x, y)),
            Rel('$spr', wnum('scaled_prim_res'), (X, Z), lambda sp, x, z: sp.prim_res('s', x, z)),
            Rel('$sdr', wnum('scaled_dual_res'), (X, Y), lambda sp, x, y: sp.dual_res('s', x, y)),
        ]
    return R


def vval(ev, t, want):
    v = ev.vec(t)
    if isinstance(v, Const):
        return [v.c] * want
    return v


class Relations:
    """tracks, per state, whether each reported quantity equals its definition at the current iterates:
    'ok' / 'no' / 'mix' (differs between the joined paths) / '?' (not interpretable)"""

    def __init__(self, case, ft, pol=False, nsamp=3):
        self.case, self.ft = case, ft
        self.rels = relations(case)
        self.byname = {r.name: r for r in self.rels}
        self.cache = {}
        scaled = case.get('scaling') != 0
        sizes = [(2, 0)] if case.get('m') == 0 else [(2, 3), (3, 2), (2, 4)]
        self.nsamp = nsamp
        self.samples = [Sample(900 + k, *sizes[k % len(sizes)], scaling=scaled, fieldtype=ft) for k in range(nsamp + 9)]
        for k, S in enumerate(self.samples):
            S.over[('settings', 'max_iter')] = (1.0, 50.0, 2.0)[k % 3]
            for f, v in case.items():
                if f != 'm':
                    S.over[('settings', f)] = 0.0 if v == 0 else (4.0 if v == '+' else float(v))
        self.evals = 0

    def terms(self, I, st, r):
        return (r.val(I, st),) + tuple(o(I, st) for o in r.ops)

    def preset(self, ev, st, skip=()):
        """interpret the symbols whose relation is known to hold by their definition"""
        sp = Spec(ev.S)
        for r in self.rels:
            e = st.ts.get(('rel', r.name))
            if e is None or e[1] != 'ok' or r.name in skip:
                continue
            t = e[0]
            v = t[0]
            if r.vec:
                if v[0] != 'vec' or len(v[1]) != 1 or v[1][0][1] is not K1 and v[1][0][1] != K1:
                    continue
                m = v[1][0][0]
                if len(m) != 1 or m[0][1] != 1:
                    continue
                a = m[0][0]
                if a[0] not in ('phi', 'ret', 'init') or ('v', a) in ev.m:
                    continue
                try:
                    ev.m[('v', a)] = r.spec(sp, *self.opvals(ev, r, t))
                except Undecided:
                    pass
            else:
                if v[0] not in ('phi', 'ret', 'init') or v in ev.m:
                    continue
                try:
                    ev.m[v] = r.spec(sp, *self.opvals(ev, r, t))
                except Undecided:
                    pass

    def opvals(self, ev, r, t):
        out = []
        for o, x in zip(r.ops, t[1:]):
            v = ev.vec(x)
            d = ev.S.n if o.dim == 'n' else ev.S.m
            if isinstance(v, Const):
                v = [v.c] * d
            if len(v) != d:
                raise Undecided("vector length")
            out.append(v)
        return out

    def verdict(self, I, st, r):
        t = self.terms(I, st, r)
        e = st.ts.get(('rel', r.name))
        if e is not None and e[0] == t:
            return e[1]
        # relations the value may have been computed from
        deps = tuple((q.name, st.ts.get(('rel', q.name))) for q in self.rels if q.name[0] == '$' and q is not r)
        k = (r.name, t, deps, tuple((p, st.vals.get(p)) for x in t for p in x.ph if p in st.vals))
        v = self.cache.get(k)
        if v is None:
            v = self._decide(I, st, r, t)
            self.cache[k] = v
        st.ts[('rel', r.name)] = (t, v)
        return v

    def _decide(self, I, st, r, t):
        v = t[0]
        if v[0] in ('init', 'k'):
            return 'no' if self.case.get('m') != 0 or v[0] == 'init' else self._eval(st, r, t)
        return self._eval(st, r, t)

    def _eval(self, st, r, t):
        self.evals += 1
        seen = set()
        for k, S in enumerate(self.samples):
            if k >= self.nsamp and seen:
                break
            sp = Spec(S)
            try:
                def f(ev):
                    self.preset(ev, st, (r.name,))
                    a = vval(ev, t[0], 0) if r.vec else ev.num(t[0])
                    b = r.spec(sp, *self.opvals(ev, r, t))
                    if r.vec and isinstance(a, Const):
                        a = [a.c] * len(b)
                    return close(a, b)
                for ev, ok in runs(S, st, f, 40, trunc=True):
                    seen.add(ok)
            except Undecided:
                return '?'
        if not seen:
            return '?'
        if seen == {True}:
            return 'ok'
        if seen == {False}:
            return 'no'
        return 'mix'

    def refresh(self, I, st):
        # cached quantities first: reported ones are computed from them
        for r in self.rels:
            if r.name[0] == '$':
                self.verdict(I, st, r)
        for r in self.rels:
            if r.name[0] != '$':
                self.verdict(I, st, r)

    @staticmethod
    def comb(a, b):
        if a == b:
            return a
        if '?' in (a, b):
            return '?' if 'no' not in (a, b) and 'mix' not in (a, b) else 'mix'
        return 'mix'

    def on_join(self, I, s1, s2, o):
        self.refresh(I, s1)
        self.refresh(I, s2)
        for r in self.rels:
            k = ('rel', r.name)
            o.ts[k] = (self.terms(I, o, r), self.comb(s1.ts[k][1], s2.ts[k][1]))

    def key(self, I, s):
        return tuple(self.verdict(I, s, self.byname[n]) for n in ('prim_res', 'dual_res'))


# ---------------------------------------------------------------- acceptance conditions
class Fact:
    """a path condition a < b (or a <= b) as the function b - a"""

    def __init__(self, a, b):
        self.a, self.b = a, b


def facts_lt(st):
    out = []
    for c, v in st.facts.items():
        if c[0] == 'lt':
            out.append(Fact(c[1], c[2]) if v else Fact(c[2], c[1]))
    return out


def proportional(fs, gs):
    """do the two sample vectors agree up to one positive constant?"""
    k = None
    for f, g in zip(fs, gs):
        if abs(g) < 1e-9:
            if abs(f) > 1e-6:
                return False
            continue
        q = f / g
        if q <= 0:
            return False
        if k is None:
            k = q
        elif abs(q - k) > 1e-6 * max(abs(q), abs(k)):
            return False
    return k is not None
