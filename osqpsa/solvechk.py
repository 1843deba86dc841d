"""One abstract interpretation of osqp_solve per configuration; obligations of C01-C06, C21, C33, C34 are attached to it.

Rules are named <property>/<rule>; a check keeps the ones of its own property."""
import random
from .solve import *
from .solve import Spec
from . import solve as SV

DEBUG = None
NANV = 2143289344          # OSQP_NAN of osqp_api_constants.h
SOLVED, SOLVED_INACC, PINF, PINF_INACC, DINF, DINF_INACC, MAXIT, TLIM, NONCVX, SIGINT, UNSOLVED = range(1, 12)
STAT = ('OSQP_SOLVED', 'OSQP_SOLVED_INACCURATE', 'OSQP_PRIMAL_INFEASIBLE', 'OSQP_PRIMAL_INFEASIBLE_INACCURATE', 'OSQP_DUAL_INFEASIBLE',
        'OSQP_DUAL_INFEASIBLE_INACCURATE', 'OSQP_MAX_ITER_REACHED', 'OSQP_TIME_LIMIT_REACHED', 'OSQP_NON_CVX', 'OSQP_SIGINT', 'OSQP_UNSOLVED')


GHOST = ARG('$accepted_certificate')


class StatusMap:
    def __init__(self, p):
        self.byval = {}
        for i, n in enumerate(STAT):
            if n not in p.enums:
                raise Broken(n + " not found")
            self.byval[p.enums[n]] = i + 1

    def get(self, v):
        return self.byval.get(int(v[1])) if v[0] == 'k' else None


def name(k):
    return STAT[k - 1][5:] if k else '?'


def cfgname(case):
    return ",".join("%s=%s" % kv for kv in sorted(case.items()) if kv[0] not in ('verbose',) or kv[1])


# ------------------------------------------------------------------ acceptance criteria: functions that must be positive
def inf_small(v):
    return abs(v) >= 1e26


def crit_solved(case, f):
    u = unit_of(case)

    fa, fr = f if isinstance(f, tuple) else (f, f)

    def ea(S):
        return fa * S.over[('settings', 'eps_abs')], fr * S.over[('settings', 'eps_rel')]
    C = [('primal residual', lambda sp, ops: sp.prim_tol(u, *ea(sp.S), ops['x'], ops['z']) - sp.prim_res(u, ops['x'], ops['z'])),
         ('dual residual', lambda sp, ops: sp.dual_tol(u, *ea(sp.S), ops['x'], ops['y']) - sp.dual_res(u, ops['x'], ops['y']))]
    if case.get('m') == 0:
        C = C[1:]
    if case.get('check_dualgap'):
        # the gap is compared in the units its tolerance is expressed in
        C.append(('duality gap', lambda sp, ops: sp.gap_tol(u, *ea(sp.S), ops['x'], ops['y']) - abs(sp.gap(u, ops['x'], ops['y']))))
    return C


def projrec(sp, dy):
    ls, us = sp.d['s'][3], sp.d['s'][4]
    out = []
    for i, v in enumerate(dy):
        if us[i] > BIG:
            v = 0.0 if ls[i] < -BIG else min(v, 0.0)
        elif ls[i] < -BIG:
            v = max(v, 0.0)
        out.append(v)
    return out


def crit_pinf(case, f):
    u = unit_of(case)

    def t1(sp, ops):
        S = sp.S
        dy = projrec(sp, ops['dy'])
        n = ninf(sp.conv(u, y=dy)[1])
        return f * S.over[('settings', 'eps_prim_inf')] * n - ninf(sp.Aty(u, dy))

    def t2(sp, ops):
        dy = projrec(sp, ops['dy'])
        yo = sp.conv(u, y=dy)[1]
        l, uu = sp.d[u][3], sp.d[u][4]
        return -sum((uu[i] * max(v, 0) + l[i] * min(v, 0)) if v else 0.0 for i, v in enumerate(yo))
    return [("norm of A'dy", t1), ('support function of [l,u] at dy', t2)]


def crit_dinf(case, f):
    u = unit_of(case)

    def dx(sp, ops):
        return sp.conv(u, x=ops['dx'])[0]

    def t1(sp, ops):
        return f * sp.S.over[('settings', 'eps_dual_inf')] * ninf(dx(sp, ops)) - ninf(sp.Px(u, ops['dx']))

    def t2(sp, ops):
        return -dot(sp.d[u][1], dx(sp, ops))

    def t3(sp, ops):
        e = f * sp.S.over[('settings', 'eps_dual_inf')] * ninf(dx(sp, ops))
        ls, us = sp.d['s'][3], sp.d['s'][4]
        g = math.inf
        for i, v in enumerate(sp.Ax(u, ops['dx'])):
            if us[i] < BIG:
                g = min(g, e - v)
            if ls[i] > -BIG:
                g = min(g, e + v)
        return g
    c = [('norm of P dx', t1), ("q'dx", t2)]
    if case.get('m') != 0:
        c.append(('A dx in the recession cone of [l,u]', t3))
    return c


CRITERIA = {SOLVED: (crit_solved, 1.0), SOLVED_INACC: (crit_solved, 10.0), PINF: (crit_pinf, 1.0), PINF_INACC: (crit_pinf, 10.0),
            DINF: (crit_dinf, 1.0), DINF_INACC: (crit_dinf, 10.0)}

OPS = {'x': ('x', 'n'), 'y': ('y', 'm'), 'z': ('z', 'm'), 'dx': ('delta_x', 'n'), 'dy': ('delta_y', 'm')}


class Pass:
    """hooks of the interpretation of osqp_solve in one configuration"""

    def __init__(self, p, case, res, want):
        self.p, self.case, self.res, self.want = p, case, res, want
        self.ft = fieldtypes(p)
        self.R = Relations(case, self.ft)
        self.sm = StatusMap(p)
        self.seen = {}
        self.tag = cfgname(case)
        self.lost = 0

    # -------------------------------------------------------------- partitioning
    def key(self, I, s):
        k = status_key(I, s)
        if len(I.cur) <= 2:
            k = (k,) + self.R.key(I, s)
            if 'C03' in self.want:
                # the certificate accepted, so that it is not confused with another one
                k += (s.mem.get((GHOST, IN(('$v',)))),)
        return k

    def on_join(self, I, a, b, o):
        self.R.on_join(I, a, b, o)
        for k in ('iterops',):
            if a.ts.get(k) is not None and a.ts.get(k) == b.ts.get(k):
                o.ts[k] = a.ts[k]
            elif k in o.ts:
                del o.ts[k]

    # -------------------------------------------------------------- hooks
    def on_store(self, I, s, ptr, v, inst, ctx):
        b, pa = split(ptr)
        if b is INFO and pa == IN(('status_val',)):
            self.status_store(I, s, v, inst, ctx)

    def on_branch(self, I, s, c, inst, ctx):
        if 'C01' in self.want:
            for t in leaves(c):
                if t[0] == 'init' and t[1] is INFO and t[2] and t[2][-1] in STALE:
                    self.res.fail("C01/stale-decision", "%s in %s" % (t[2][-1], I.where(inst, ctx).split(' called')[0]),
                                  "a branch of osqp_solve depends on info->%s as left by an earlier call (%s) [%s]" % (t[2][-1], I.where(inst, ctx), self.tag))
                    return
            self.res.good("C01/stale-decision", I.line(inst))

    # -------------------------------------------------------------- status
    def status_store(self, I, s, v, inst, ctx):
        k = self.sm.get(v)
        where = I.where(inst, ctx)
        site = "%s at %s" % (name(k), caller(where))
        res = self.res
        if k is None:
            if v[0] == 'k':
                res.fail("C01/status-value", site, "status value %s is none of the documented ones [%s]" % (T.show(v), self.tag))
            else:
                res.undecided("C01/status-value", site, "status value not constant at the store")
            return
        if k in CRITERIA and ('C02' in self.want or 'C05' in self.want or 'C03' in self.want):
            self.accept(I, s, k, site, where)
        if k in (PINF, PINF_INACC, DINF, DINF_INACC) and 'C03' in self.want:
            # the certificate accepted, kept in a ghost cell
            I.setvec(s, GHOST, I.vec(s, at(s, I, WORK, 'delta_y' if k in (PINF, PINF_INACC) else 'delta_x')))
        if k in (SOLVED, SOLVED_INACC, MAXIT) and ('C05' in self.want or 'C03' in self.want or 'C02' in self.want):
            self.R.refresh(I, s)
            for r in ('prim_res', 'dual_res'):
                if self.case.get('m') == 0 and r == 'prim_res':
                    continue
                self.relverdict(s, r, "%s %s" % (r, site), ('C02', 'C05', 'C03'))
        if 'C01' in self.want:
            self.cause(I, s, k, site)

    def relverdict(self, s, r, construct, props):
        e = s.ts[('rel', r)][1]
        for pid in props:
            if pid not in self.want or (pid == 'C03' and self.case.get('scaling') == 0):
                continue
            rule = pid + "/reported-value"
            if e == 'ok':
                self.res.good(rule, construct)
            elif e in ('no', 'mix'):
                self.res.fail(rule, construct, "info->%s differs from its definition at the iterate returned (on %s paths) [%s]" %
                              (r, 'all' if e == 'no' else 'some', self.tag))
            else:
                self.res.undecided(rule, construct, "not interpretable")

    def cause(self, I, s, k, site):
        """interrupt, time-limit and iteration-limit statuses need their cause in this very call"""
        res = self.res
        if k == SIGINT:
            ok = any(c_has(c, lambda t: t[0] == 'ret' and str(t[2]).startswith('interrupted')) for c, v in s.facts.items())
            res.check(ok, "C01/cause", site, "interrupted status without an interrupt test on the path [%s]" % self.tag)
        elif k == TLIM:
            ok = any(c_has(c, lambda t: t is setting('time_limit')) for c, v in s.facts.items())
            if ok:
                res.good("C01/cause", site)
            else:
                res.undecided("C01/cause", site, "no fact about the time limit on the path")

    def accept(self, I, s, k, site, where):
        """the acceptance criteria of status k hold on every path to this store"""
        fn, f = CRITERIA[k]
        crit = fn(self.case, f)
        ops = {o: (I.vec(s, at(s, I, WORK, w)), d) for o, (w, d) in OPS.items()}
        ck = (k, site, tuple(o[0] for o in ops.values()), frozenset(s.facts.items()))
        if ck in self.seen:
            return
        self.seen[ck] = 1
        lts = [(c, v) for c, v in s.facts.items() if not simple_fact(c)]
        self.R.refresh(I, s)
        match = {i: None for i in range(len(crit))}
        nsm = 0
        vals = []
        why = None
        rej = 0
        counter = [None] * len(crit)
        nsat = 0
        open_ = list(range(len(crit)))
        for seed in range(500):
            if seed >= 60 and seed % 20 == 0:
                open_ = [i for i in range(len(crit)) if counter[i] is None and not self.matched(vals[:60], i, len(lts))]
                if not open_ or nsat >= 24:
                    break
            S = self.sample(seed)
            keep_ = dict(S.over)
            if seed >= 60 and seed % 3:
                # aim at a violation of one criterion by a small margin: its tolerance is moved just below the quantity tested
                i = open_[seed % len(open_)]
                try:
                    ev, sp, o = self.interp(s, S, seed, ops)
                    for nm in (('settings', 'eps_abs'), ('settings', 'eps_prim_inf'), ('settings', 'eps_dual_inf')):
                        S.over[nm] = 0.0
                        g0 = crit[i][1](sp, o)
                        S.over[nm] = 1.0
                        g1 = crit[i][1](sp, o)
                        S.over[nm] = keep_[nm]
                        if g0 < 0 and g1 > g0 and math.isfinite(g1):
                            S.over[nm] = -g0 / (g1 - g0) * (0.9 if seed % 2 else 0.5)
                            break
                except (Infeasible, Undecided, KeyError):
                    pass
            try:
                ev, sp, o = self.interp(s, S, seed, ops)
                g = [c(sp, o) for _, c in crit]
                facts = []
                for c, v in lts:
                    try:
                        if c[0] == 'lt':
                            d = ev.num(c[2]) - ev.num(c[1])
                            facts.append(d if v else -d)
                        else:
                            facts.append(ev.cond(c) == v)
                    except Undecided:
                        facts.append(None)
                sat = True
                for c, v in s.facts.items():
                    try:
                        if ev.cond(c) != v:
                            sat = False
                            if DEBUG is not None:
                                DEBUG[(k, T.show(c)[:150], v)] = DEBUG.get((k, T.show(c)[:150], v), 0) + 1
                            break
                    except Undecided:
                        if any(t[0] != 'init' for t in leaves_all(c)):
                            sat = None
                            if DEBUG is not None:
                                DEBUG[(k, 'UNDECIDED', T.show(c)[:150])] = 1
                            break
            except Infeasible:
                rej += 1
                continue
            except (Undecided, KeyError) as e:
                why = str(e)
                continue
            finally:
                S.over = keep_
            vals.append((g, facts, S.c, sp, o))
            if sat:
                nsat += 1
                for i, x in enumerate(g):
                    if x < -1e-7 and counter[i] is None:
                        counter[i] = seed
            if len(vals) >= 12 and seed >= 12 and all(self.matched(vals, i, len(lts)) for i in range(len(crit))):
                break
        for i, (cn, _) in enumerate(crit):
            c = "%s: %s" % (site, cn)
            ok = len(vals) >= 4 and self.matched(vals, i, len(lts))
            ps = [q for q in ('C02', 'C05', 'C03') if q in self.want and (q != 'C05' or k in (SOLVED, SOLVED_INACC)) and
                  (q != 'C03' or self.case.get('scaling') != 0)]
            for q in ps:
                rule = q + "/acceptance"
                if ok:
                    self.res.good(rule, c)
                elif counter[i] is not None:
                    self.res.fail(rule, c, "%s can be set at %s although the %s criterion (tolerances x%g) is not satisfied: interpretation %d "
                                  "satisfies every condition on the path and violates the criterion [%s]" % (STAT[k - 1], where, cn, f, counter[i], self.tag))
                elif self.otherfactor(fn, f, vals, i, len(lts)) is not None:
                    self.res.fail(rule, c, "%s at %s: the %s criterion is tested with tolerances x%s instead of x%g [%s]" %
                                  (STAT[k - 1], where, cn, self.otherfactor(fn, f, vals, i, len(lts)), f, self.tag))
                elif nsat >= 10:
                    self.res.good(rule, c)
                else:
                    self.res.undecided(rule, c, "no path condition identified with the criterion (%d interpretations, %d on the path, %s) [%s]" % (len(vals), nsat, why, self.tag))

    def interp(self, s, S, seed, ops):
        """one interpretation of a state: evaluator, specification, operands"""
        ev = Eval(S, s, [])
        ev.script = RandScript(seed)
        self.R.preset(ev, s)
        o = {}
        for n, (t, d) in ops.items():
            try:
                vv = ev.vec(t)
                dim = S.n if d == 'n' else S.m
                if isinstance(vv, Const):
                    vv = [vv.c] * dim
                o[n] = vv
            except Undecided:
                pass
        return ev, Spec(S), o

    def otherfactor(self, fn, f, vals, i, nf):
        fs = [1.0, 2.0, 5.0, 10.0, 20.0, 50.0, 100.0, 0.1]
        if fn is crit_solved:
            fs += [(1.0, 10.0), (10.0, 1.0), (1.0, 0.0), (0.0, 1.0), (10.0, 0.0), (0.0, 10.0), (100.0, 10.0), (10.0, 100.0)]
        for f2 in fs:
            if f2 != f:
                cr = fn(self.case, f2)
                try:
                    if self.matched([([c(v[3], v[4]) for _, c in cr],) + v[1:] for v in vals[:24]], i, nf):
                        return f2
                except KeyError:
                    pass
        return None

    def matched(self, vals, i, nf):
        if len(vals) < 4:
            return False
        for j in range(nf):
            xs = [(fa[j], g[i]) for g, fa, *_ in vals]
            if any(a is None for a, _ in xs):
                continue
            if isinstance(xs[0][0], bool):
                # a predicate: must agree with the criterion in every interpretation, and both outcomes must occur
                if len(xs) >= 12 and all(a == (b > 0) or abs(b) < 1e-9 for a, b in xs) and len({a for a, _ in xs}) == 2:
                    return True
                continue
            if all((a > 0) == (b > 0) or abs(b) < 1e-9 for a, b in xs):
                # equal up to a positive constant, possibly the cost scaling
                for e in (0, 1, -1):
                    if proportional([a for a, _ in xs], [b * v[2] ** e for (_, b), v in zip(xs, vals)]):
                        return True
        return False

    def sample(self, seed):
        if not hasattr(self, '_smp'):
            self._smp = {}
        if seed in self._smp:
            S = self._smp[seed]
            S.scalars.clear() if False else None
            return S
        sizes = [(2, 0)] if self.case.get('m') == 0 else [(2, 3), (3, 2), (2, 4)]
        S = Sample(5000 + seed, *sizes[seed % len(sizes)], scaling=self.case.get('scaling') != 0, fieldtype=self.ft, infs=0.15 if seed % 2 else 0.5,
                   wild=seed >= 60 and seed % 3 > 0)
        R = random.Random(seed)
        for n, lo, hi in (('eps_abs', -3, 4), ('eps_rel', -4, 2), ('eps_prim_inf', -3, 5), ('eps_dual_inf', -3, 5)):
            S.over[('settings', n)] = math.exp(R.uniform(lo, hi))
        S.over[('settings', 'max_iter')] = (1.0, 50.0, 2.0)[seed % 3]
        S.over[('settings', 'check_termination')] = 0.0 if seed % 5 == 4 else 1.0
        S.over[('settings', 'time_limit')] = 0.01 if seed % 5 == 3 else 1e3
        for f, v in self.case.items():
            if f not in ('m', 'n'):
                S.over[('settings', f)] = 0.0 if v == 0 else (4.0 if v == '+' else float(v))
        if S.m == 0:
            # zeroed at setup and never written without constraints
            for w in ('Aty', 'Atdelta_y'):
                S.over[('work', w)] = [0.0] * S.n
        self._smp[seed] = S
        return S


class RandScript(list):
    """pseudo-random resolution of nondeterministic symbols"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def __len__(self):
        return 1 << 30

    def __getitem__(self, i):
        return self.r.randrange(1 << 20)


STALE = ('status_val', 'status_polish', 'obj_val', 'dual_obj_val', 'prim_res', 'dual_res', 'duality_gap', 'iter', 'rho_estimate', 'run_time',
         'solve_time', 'polish_time', 'primdual_int', 'rel_kkt_error')


def leaves(c, out=None):
    """initial-value leaves of a scalar/condition term (not through definitions of symbols)"""
    out = [] if out is None else out
    if not isinstance(c, tuple) or not c:
        return out
    if c[0] == 'init':
        out.append(c)
        return out
    for x in c:
        if isinstance(x, tuple):
            leaves(x, out)
    return out


def leaves_all(c, out=None):
    out = [] if out is None else out
    if not isinstance(c, tuple) or not c:
        return out
    if c[0] in ('init', 'phi', 'ret', 'elem', 'alloc', 'undef'):
        out.append(c)
        return out
    for x in c:
        if isinstance(x, tuple):
            leaves_all(x, out)
    return out


def c_has(c, pred):
    if isinstance(c, tuple):
        if c and isinstance(c[0], str) and pred(c):
            return True
        return any(c_has(x, pred) for x in c if isinstance(x, tuple))
    return False


def caller(where):
    """call chain without line numbers: the construct's identity"""
    import re
    return " <- ".join(re.findall(r"\(([A-Za-z_0-9.$]+)\)", where))


def run(case, want):
    p = PG.load('mkl')
    res = Result()
    P = Pass(p, case, res, want)
    I, out = run_solve(p, case, P, keyfn=P.key)
    exits(P, I, out)
    account(res, I)
    return res


def exits(P, I, out):
    res, case, sm = P.res, P.case, P.sm
    for rv, s in out:
        sv = at(s, I, INFO, 'status_val')
        k = sm.get(sv)
        ok = rv is K0
        c = "osqp_solve exit %s" % name(k)
        if 'C01' in P.want:
            if sv is IN(('init', INFO, ('status_val',))):
                res.fail("C01/fresh-status", "osqp_solve", "an exit reports the status of an earlier call [%s]" % P.tag)
            elif k is None:
                res.undecided("C01/fresh-status", c, "status not constant")
            elif k == UNSOLVED and ok:
                res.fail("C01/fresh-status", c, "successful return with status OSQP_UNSOLVED [%s]" % P.tag)
            else:
                res.good("C01/fresh-status", c)
        if not ok or k is None:
            continue
        if k in (SOLVED, SOLVED_INACC, MAXIT, TLIM):
            P.R.refresh(I, s)
            for r in ('prim_res', 'dual_res', 'obj_val', 'dual_obj_val', 'duality_gap'):
                if case.get('m') == 0 and r == 'prim_res':
                    continue
                if case.get('polishing') and r in ('prim_res', 'dual_res', 'obj_val', 'dual_obj_val', 'duality_gap'):
                    continue
                P.relverdict(s, r, "%s %s" % (r, c), ('C05', 'C03'))
        outputs(P, I, s, k, c)


def same_terms(P, s, ta, tb, dim):
    """are two vector terms equal in every sampled interpretation? True/False/None"""
    n = 0
    for seed in range(6):
        S = P.sample(seed)
        for ev, r in runs_pair(S, s, ta, tb, dim):
            n += 1
            if not r:
                return False
        if n >= 6:
            break
    return True if n else None


def all_agree(P, s, both):
    n = 0
    for seed in range(60):
        S = P.sample(seed)
        if not S.m:
            continue
        if n >= 6:
            break
        try:
            for ev, r in runs(S, s, lambda ev: close(*both(ev)), 40, trunc=True):
                n += 1
                if not r:
                    return False
        except Undecided as e:
            if DEBUG is not None:
                print("undecided:", e)
            continue
    return True if n else None


def runs_pair(S, s, ta, tb, dim):
    def f(ev):
        d = S.n if dim == 'n' else S.m
        a, b = vval(ev, ta, d), tb(ev) if callable(tb) else vval(ev, tb, d)
        return close(a, b)
    try:
        for ev, r in runs(S, s, f, 12, trunc=True):
            yield ev, r
    except Undecided:
        return


def outputs(P, I, s, k, c):
    """the four output vectors at a successful exit"""
    if not ({'C03', 'C04'} & P.want):
        return
    res, case = P.res, P.case
    D = {'x': 'n', 'y': 'm', 'prim_inf_cert': 'm', 'dual_inf_cert': 'n'}
    has = {'x': k in (SOLVED, SOLVED_INACC, MAXIT, TLIM, SIGINT), 'y': k in (SOLVED, SOLVED_INACC, MAXIT, TLIM, SIGINT),
           'prim_inf_cert': k in (PINF, PINF_INACC), 'dual_inf_cert': k in (DINF, DINF_INACC)}
    for f, d in D.items():
        t = rawof(I, s, at(s, I, SOLN, f))
        cc = "solution->%s at %s" % (f, c)
        const = vec_const(t)
        if t is T.v_atom(IN(('init', member(SOLN, f), ('$v',)))) or t == T.v_atom(IN(('init', member(SOLN, f), ('$v',)))):
            if 'C04' in P.want:
                res.fail("C04/all-set", cc, "not written on this path [%s]" % P.tag)
            continue
        if 'C04' in P.want:
            res.good("C04/all-set", cc)
            isna = const is not None and const[0] == 'k' and (const[1] == NANV or const[1] != const[1])
            if has[f]:
                res.check(not isna, "C04/content", cc, "holds the not-available value although status %s provides it [%s]" % (STAT[k - 1], P.tag))
            elif isna:
                res.good("C04/content", cc)
            elif const is not None or not maybe_const(s, t) or not any_nan(P, s, t, d):
                res.fail("C04/content", cc, "holds %s instead of the not-available value [%s]" % (T.show(t)[:80], P.tag))
            else:
                res.undecided("C04/content", cc, "joined value")
        if has[f] and const is None:
            w = {'x': 'x', 'y': 'y', 'prim_inf_cert': 'delta_y', 'dual_inf_cert': 'delta_x'}[f]
            src = I.vec(s, at(s, I, WORK, w))

            def want(ev, w=w, src=src, d=d):
                S = ev.S
                v = vval(ev, src, S.n if d == 'n' else S.m)
                sc = case.get('scaling') != 0
                if w == 'x':
                    return [a * b for a, b in zip(v, S.D)]
                if w == 'y':
                    return [a * b / S.c for a, b in zip(v, S.E)]
                return v
            if f not in ('x', 'y') and 'C03' in P.want and case.get('scaling') != 0:
                acc = I.vec(s, GHOST)

                def unit(v):
                    m = max([abs(x) for x in v], default=0.0)
                    return [x / m for x in v] if m else list(v)

                def both(ev, acc=acc, t=t, d=d):
                    S = ev.S
                    n = S.n if d == 'n' else S.m
                    return unit(vval(ev, t, n)), unit([a * b for a, b in zip(vval(ev, acc, n), S.D if d == 'n' else S.E)])
                r = all_agree(P, s, both)
                if r is None:
                    res.undecided("C03/unscaled-certificate", cc, "not interpretable")
                else:
                    res.check(r, "C03/unscaled-certificate", cc, "solution->%s is not the accepted certificate in the user's units [%s]" % (f, P.tag))
            if f in ('x', 'y'):
                r = same_terms(P, s, t, want, d)
                for q, ru in (('C03', 'unscaled-output'), ('C04', 'content')):
                    if q in P.want and not (q == 'C03' and case.get('scaling') == 0):
                        if r is None:
                            res.undecided("%s/%s" % (q, ru), cc, "not interpretable")
                        else:
                            res.check(r, "%s/%s" % (q, ru), cc, "solution->%s is not the unscaled final iterate [%s]" % (f, P.tag))


def rawof(I, s, ptr):
    from .algebra import rawvec
    return I.vec(s, ptr)


def vec_const(t):
    """scalar c if the vector term is c*1"""
    if t[0] == 'vec' and len(t[1]) == 1 and len(t[1][0][0]) == 0:
        return t[1][0][1]
    if t[0] == 'vec' and not t[1]:
        return K0
    return None


def any_nan(P, s, t, d):
    """may the (joined) vector be the not-available constant on some path?"""
    n = 0
    for seed in range(4):
        S = P.sample(seed)
        try:
            for ev, v in runs(S, s, lambda ev: vval(ev, t, S.n if d == 'n' else S.m), 40, trunc=True):
                n += 1
                if all(x == NANV or x != x for x in v):
                    return True
        except Undecided:
            return True
    return n == 0


def maybe_const(s, t):
    return t[0] == 'vec' and len(t[1]) == 1 and len(t[1][0][0]) == 1 and t[1][0][0][0][0][0] == 'phi'


BASE = dict(polishing=0, rho_is_vec=1, check_dualgap='+', m='+', verbose=0, warm_starting=1, adaptive_rho=0)


def cases(tier):
    out = []
    for c in SOLVE_CASES:
        out.append(dict(BASE, **c))
        out.append(dict(BASE, adaptive_rho=1, **c))
    out.append(dict(BASE, m=0, **SOLVE_CASES[0]))
    out.append(dict(BASE, check_dualgap=0, **SOLVE_CASES[1]))
    out.append(dict(BASE, verbose='+', **SOLVE_CASES[1]))
    if tier == 'thorough':
        for c in SOLVE_CASES:
            for ar in (2, 3):
                out.append(dict(BASE, adaptive_rho=ar, **c))
            out.append(dict(BASE, m=0, adaptive_rho=1, **c))
            out.append(dict(BASE, warm_starting=0, **c))
            out.append(dict(BASE, rho_is_vec=0, adaptive_rho=1, **c))
            out.append(dict(BASE, verbose='+', check_dualgap=0, adaptive_rho=1, **c))
    return out


def keep(res, pid):
    """restrict a result to one property's rules"""
    for d in (res.ok, res.bad, res.und):
        for k in list(d):
            if "/" in k[0]:
                q, r = k[0].split("/", 1)
                v = d.pop(k)
                if q == pid:
                    d[(r, k[1])] = v
    return res


def check(pid, t0, explanation, floors, _t0=None, assumptions=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    PG.load('mkl')
    res = parallel(run, [(c, {pid}) for c in cases(tier)])
    from . import algobl
    if pid in algobl.ROOTS:
        res.merge(algobl.collect(pid))
    return finish(pid, keep(res, pid), explanation, floors, t0, assumptions)
