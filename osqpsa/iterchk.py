"""C06: the iteration map of osqp_solve.  The interpretation keeps the current iterate symbolic; at every solve of the linear system the
right-hand side must be the documented one for the current iterate, and the contents of x, z, y and of their differences when the iteration is
over must be the documented images"""
from .lib import *
from .reval import *
from . import prog as PG, absint, terms as T
from .terms import *
from .apichk import lin_models
from .solve import status_key
from .solvechk import cfgname


def vecs(I, s, *names):
    return tuple(I.vec(s, at(s, I, WORK, n)) for n in names)


def atoms(t, out=None):
    out = set() if out is None else out
    if t[0] == 'vec':
        for m, c in t[1]:
            for a, e in m:
                out.add(a)
    return out


class Iter:
    def __init__(self, p, case, res):
        self.p, self.case, self.res = p, case, res
        self.ft = fieldtypes(p)
        self.tag = cfgname(case)
        self.pairs = {}
        self.failed = False

    def key(self, I, s):
        """called whenever a state flows into a block: a finished iteration is recognised (and the iterate taken anew from the contents);
        states in the middle of one are kept apart by what they must become"""
        if 'cur' not in s.ts:
            return ('lost',)
        if not s.ts.get('d'):
            now = vecs(I, s, 'x', 'z', 'y')
            for a, b, d in zip(now, s.ts['cur'], ('n', 'm', 'm')):
                if a is not b and not (d == 'm' and self.case.get('m') == 0) and not self.same(s, a, b, d):
                    return ('changed', s.ts['cur']) + now
            return ('done',)
        if self.complete(I, s):
            return ('done',)
        return ('mid', s.ts['cur']) + vecs(I, s, 'x', 'z', 'y', 'delta_x', 'delta_y')

    def complete(self, I, s):
        X, Z, Y = s.ts['cur']
        x, z, y = vecs(I, s, 'x', 'z', 'y')
        dx, dy = vecs(I, s, 'delta_x', 'delta_y')
        m0 = self.case.get('m') == 0
        for a, b, d in ((x, X, 'n'), (dx, s.ts['d'][0], 'n')) + (() if m0 else ((z, Z, 'm'), (y, Y, 'm'), (dy, s.ts['d'][1], 'm'))):
            if not self.same(s, a, b, d):
                return False
        for r, c in (("C06/iterate", "x"), ("C06/iterate", "z"), ("C06/iterate", "y"), ("C06/difference", "delta_x"), ("C06/difference", "delta_y")):
            if not (m0 and c in ('z', 'y', 'delta_y')):
                self.res.good(r, "%s [%s]" % (c, self.tag))
        s.ts['cur'] = (x, z, y)
        s.ts['d'] = None
        return True

    def join_ts(self, a, b):
        return {k: v for k, v in a.items() if b.get(k) == v}

    # ------------------------------------------------------------ comparison
    def same(self, s, a, b, dim):
        if a == b:
            return True
        k = (a, b)
        if k in self.pairs:
            return self.pairs[k]
        r = None
        if not [x for x in atoms(a) | atoms(b) if x[0] in ('havoc', 'undef', 'ret', 'sub', 'unk')]:
            n = 0
            for seed in range(8):
                S = Sample(seed, *((2, 3), (3, 2))[seed % 2], scaling=bool(self.case.get('scaling')), fieldtype=self.ft, infs=0.0)
                d = S.n if dim == 'n' else S.m

                def f(ev):
                    x, y = vv(ev, a, d), vv(ev, b, d)
                    return close(x, y)
                try:
                    for ev, q in runs(S, s, f, 8, trunc=True):
                        n += 1
                        if not q:
                            r = False
                            break
                except Undecided as e:
                    continue
                if r is False:
                    break
            if r is None and n >= 3:
                r = True
        self.pairs[k] = r
        return r

    def verdict(self, I, s, rule, con, got, want, dim, msg):
        if self.case.get('m') == 0 and dim == 'm':
            return
        r = self.same(s, got, want, dim)
        con = "%s [%s]" % (con, self.tag)
        if r:
            self.res.good(rule, con)
        elif r is None:
            self.res.undecided(rule, con, "value not in the vector algebra")
        else:
            self.failed = True
            self.res.fail(rule, con, "%s: found %s, expected %s" % (msg, T.show(got)[:300], T.show(want)[:300]))

    # ------------------------------------------------------------ events
    def spec(self, I, s, rx, rz):
        X, Z, Y = s.ts['cur']
        al = at(s, I, SETT, 'alpha')
        if self.case['rho_is_vec']:
            R, Ri = vecs(I, s, 'rho_vec', 'rho_inv_vec')
        else:
            R, Ri = T.v_const(at(s, I, SETT, 'rho')), T.v_const(at(s, I, WORK, 'rho_inv'))
        lx, lz = T.vf('linx', rx, rz), T.vf('linz', rx, rz)
        be = T.s_sub(K1, al)
        Xn = T.v_add(lx, X, al, be)
        w = T.v_add(lz, Z, al, be)
        t = T.v_add(w, T.v_mul(Ri, Y))
        l, u = (I.vec(s, at(s, I, DATA, 'l')), I.vec(s, at(s, I, DATA, 'u')))
        Zn = T.vf('proj', t, l, u)
        dY = T.v_mul(R, T.v_add(w, Zn, K1, T.MONE))
        return (Xn, Zn, T.v_add(Y, dY)), (T.v_add(Xn, X, K1, T.MONE), dY), Ri

    def on_call(self, I, s, name, args, inst, ctx):
        if name != '*solve' or 'cur' not in s.ts:
            if name == '*solve' and len(args) > 1 and args[1] is at(s, I, WORK, 'xz_tilde'):
                self.res.undecided("C06/right-hand-side", self.tag, "the iterate was lost in a join")
            return
        if args[1] is not at(s, I, WORK, 'xz_tilde'):
            s.ts.pop('cur', None)
            return
        if s.ts.get('d'):
            self.over(I, s, "before the next solve")
            if 'cur' not in s.ts:
                return
        w = I.where(inst, ctx).split(' called')[0]
        X, Z, Y = s.ts['cur']
        rx, rz = vecs(I, s, 'xtilde_view', 'ztilde_view')
        new, d, Ri = self.spec(I, s, rx, rz)
        q = I.vec(s, at(s, I, DATA, 'q'))
        sg = at(s, I, SETT, 'sigma')
        self.verdict(I, s, "C06/right-hand-side", "first part at %s" % w, rx, T.v_add(T.v_scale(sg, X), q, K1, T.MONE), 'n', "right-hand side of the linear system")
        self.verdict(I, s, "C06/right-hand-side", "second part at %s" % w, rz, T.v_add(Z, T.v_mul(Ri, Y), K1, T.MONE), 'm', "right-hand side of the linear system")
        if self.failed:
            raise absint.Abort("violation found")
        s.ts['cur'] = new
        s.ts['d'] = d

    def over(self, I, s, when):
        """the iteration is over: contents as specified?"""
        X, Z, Y = s.ts['cur']
        x, z, y = vecs(I, s, 'x', 'z', 'y')
        self.verdict(I, s, "C06/iterate", "x", x, X, 'n', "x after the iteration")
        self.verdict(I, s, "C06/iterate", "z", z, Z, 'm', "z after the iteration")
        self.verdict(I, s, "C06/iterate", "y", y, Y, 'm', "y after the iteration")
        if s.ts.get('d'):
            dx, dy = vecs(I, s, 'delta_x', 'delta_y')
            self.verdict(I, s, "C06/difference", "delta_x", dx, s.ts['d'][0], 'n', "x+ - x after the iteration")
            self.verdict(I, s, "C06/difference", "delta_y", dy, s.ts['d'][1], 'm', "y+ - y after the iteration")
        if self.failed:
            raise absint.Abort("violation found")
        s.ts['cur'] = (x, z, y)
        s.ts['d'] = None

    def on_join(self, I, a, b, o):
        ca, cb = a.ts.get('cur'), b.ts.get('cur')
        if ca is None or cb is None:
            return
        if a.ts.get('d') or b.ts.get('d'):
            if ca != cb or a.ts.get('d') != b.ts.get('d'):
                o.ts.pop('cur', None)
                o.ts.pop('d', None)
            return
        if self.key(I, a)[0] == 'changed':
            return
        o.ts['cur'] = vecs(I, o, 'x', 'z', 'y')
        o.ts['d'] = None


def vv(ev, t, d):
    v = ev.vec(t)
    return [v.c] * d if isinstance(v, Const) else v


def job_iter(cfg, case):
    p = PG.load(cfg)
    res = Result()
    H = Iter(p, case, res)
    I = absint.Interp(p, lin_models(base_models()), H, keyfn=lambda I, s: (status_key(I, s), H.key(I, s)))
    I.peel = 0
    st = case_state(I, case)
    f = p.funcs.get('osqp_solve')
    if f is None:
        raise Broken("osqp_solve not found")
    st.ts['cur'] = vecs(I, st, 'x', 'z', 'y')
    if case.get('warm_starting') == 0:
        z = T.v_const(K0)
        st.ts['cur'] = (z, z, z)
    try:
        for rv, s in I.run(f, [SOLVER], st):
            pass
    except absint.Abort as e:
        if not H.failed:
            res.undecided("C06/iterate", H.tag, str(e))
    account(res, I)
    return res


CASES = [dict(c, **d) for c in ({'scaling': 0}, {'scaling': '+', 'scaled_termination': 0})
         for d in ({'rho_is_vec': 1, 'warm_starting': 1, 'polishing': 0, 'adaptive_rho': 1}, {'rho_is_vec': 0, 'warm_starting': 0, 'polishing': 0, 'adaptive_rho': 1})] + [
    {'scaling': 0, 'rho_is_vec': 1, 'warm_starting': 1, 'polishing': 1, 'adaptive_rho': 3, 'check_dualgap': 1},
    {'scaling': '+', 'scaled_termination': 1, 'rho_is_vec': 1, 'warm_starting': 1, 'polishing': 0, 'adaptive_rho': 2, 'check_dualgap': 1},
    {'scaling': 0, 'rho_is_vec': 1, 'warm_starting': 1, 'polishing': 0, 'adaptive_rho': 1, 'm': 0}]


def collect(tier):
    cases = CASES
    if tier != 'quick':
        cases = [dict({'scaling': s, 'rho_is_vec': v, 'warm_starting': w, 'polishing': 0, 'adaptive_rho': a, 'check_dualgap': g}, **t)
                 for s, t in ((0, {}), ('+', {'scaled_termination': 0}), ('+', {'scaled_termination': 1}))
                 for v in (0, 1) for w in (0, 1) for a in (0, 1, 2, 3) for g in (0, 1)] + CASES[4:]
    jobs = []
    for c in ('mkl', 'builtin') + (() if tier == 'quick' else ('mklprof', 'prof')):
        jobs += [(c, k) for k in cases]
    return parallel(job_iter, jobs)
