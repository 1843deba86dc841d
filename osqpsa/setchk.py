"""C15, C16, C17: validation, update, defaults and copying of the settings"""
from .lib import *
from . import prog as PG, absint
from .terms import *
from .reval import Sample, Undecided, Infeasible
from .apichk import Calls, lin_models, record, fn, final, agree, note, LAST

S_INT, S_REAL = 'int', 'real'
INFTY = float('inf')
# documented range of every setting (docs/interfaces/solver_settings.rst, tests/basic_qp): kind, list of allowed closed/open intervals
BOOL = ('int', 0, 1)
RANGE = {
    'allocate_solution': BOOL, 'verbose': BOOL, 'profiler_level': ('int', 0, 2), 'warm_starting': BOOL, 'scaling': ('int', 0, None), 'polishing': BOOL,
    'rho': ('>', 0, None), 'rho_is_vec': BOOL, 'sigma': ('>', 0, None), 'alpha': ('><', 0, 2),
    'cg_max_iter': ('int', 1, None), 'cg_tol_reduction': ('int', 1, None), 'cg_tol_fraction': ('><', 0, 1), 'cg_precond': ('enum', 'cg_precond'),
    'adaptive_rho': ('int', 0, 3), 'adaptive_rho_interval': ('int', 0, None), 'adaptive_rho_fraction': ('>', 0, None),
    'adaptive_rho_tolerance': ('>=', 1, None), 'max_iter': ('int', 1, None), 'eps_abs': ('>=', 0, None), 'eps_rel': ('>=', 0, None),
    'eps_prim_inf': ('>', 0, None), 'eps_dual_inf': ('>', 0, None), 'scaled_termination': BOOL, 'check_termination': ('int', 0, None),
    'check_dualgap': BOOL, 'time_limit': ('>', 0, None), 'delta': ('>', 0, None), 'polish_refine_iter': ('int', 0, None),
    'linsys_solver': ('enum', 'linsys_solver'), 'device': ('int', 0, None),
}
FIXED = {'device', 'linsys_solver', 'allocate_solution', 'scaling', 'rho', 'rho_is_vec', 'sigma', 'adaptive_rho', 'adaptive_rho_interval',
         'adaptive_rho_fraction', 'adaptive_rho_tolerance'}
ENUMS = {'cg_precond': ('OSQP_NO_PRECONDITIONER', 'OSQP_DIAGONAL_PRECONDITIONER')}
DEFAULT = {
    'device': 0, 'allocate_solution': 1, 'profiler_level': 0, 'verbose': 1, 'warm_starting': 1, 'scaling': 10, 'polishing': 0, 'rho': 0.1, 'rho_is_vec': 1,
    'sigma': 1e-6, 'alpha': 1.6, 'cg_max_iter': 20, 'cg_tol_reduction': 10, 'cg_tol_fraction': 0.15, 'cg_precond': 'OSQP_DIAGONAL_PRECONDITIONER',
    'adaptive_rho_interval': 50, 'adaptive_rho_fraction': 0.4, 'adaptive_rho_tolerance': 5., 'max_iter': 4000, 'eps_abs': 1e-3, 'eps_rel': 1e-3,
    'eps_prim_inf': 1e-4, 'eps_dual_inf': 1e-4, 'scaled_termination': 0, 'check_termination': 25, 'check_dualgap': 1, 'time_limit': 1e10, 'delta': 1e-6,
    'polish_refine_iter': 3, 'linsys_solver': 'OSQP_DIRECT_SOLVER', 'adaptive_rho': 1,
}


def sfields(p):
    return list(p.fields['struct.OSQPSettings'])


def ranges(p, f):
    r = RANGE.get(f)
    if r is None:
        return None
    if r[0] == 'enum':
        if f == 'linsys_solver':
            ok = ['OSQP_DIRECT_SOLVER'] + (['OSQP_INDIRECT_SOLVER'] if p.name.startswith('mkl') else [])
        else:
            ok = ENUMS[f]
        v = sorted(p.enums[x] for x in ok if x in p.enums)
        return ('set', v)
    return r


def regions(p, f):
    """[(description, inside?, [(cond builder)])] partition of the values of field f"""
    r = ranges(p, f)
    if r is None:
        return []
    out = []
    lt = lambda a: (lambda x: (c_lt(x, kk(a)), True))
    gt = lambda a: (lambda x: (c_lt(kk(a), x), True))
    ge = lambda a: (lambda x: (c_lt(x, kk(a)), False))
    le = lambda a: (lambda x: (c_lt(kk(a), x), False))
    eq = lambda a: (lambda x: (c_eq(x, kk(a)), True))
    if r[0] == 'set':
        v = r[1]
        out.append(("< %d" % v[0], False, [lt(v[0])]))
        out.append(("> %d" % v[-1], False, [gt(v[-1])]))
        for k in range(v[0], v[-1] + 1):
            out.append(("= %d" % k, k in v, [eq(k)]))
    elif r[0] == 'int':
        lo, hi = r[1], r[2]
        out.append(("< %d" % lo, False, [lt(lo)]))
        if hi is None:
            out.append((">= %d" % lo, True, [ge(lo)]))
        else:
            out.append(("> %d" % hi, False, [gt(hi)]))
            for k in range(lo, hi + 1):
                out.append(("= %d" % k, True, [eq(k)]))
    else:
        lo, hi = r[1], r[2]
        out.append(("< %g" % lo, False, [lt(lo)]))
        out.append(("= %g" % lo, r[0] == '>=', [eq(lo)]))
        out.append(("> %g" % lo if hi is None else "%g < . < %g" % (lo, hi), True, [gt(lo)] + ([lt(hi)] if hi is not None else [])))
        if hi is not None:
            out.append(("= %g" % hi, False, [eq(hi)]))
            out.append(("> %g" % hi, False, [gt(hi)]))
    return out


def setup_interp(p, hooks=None, m=None):
    m = m or lin_models(base_models())

    def init(I, st, inst, a, ctx):
        record(st, 'init_linsys', a[4])
        I.store(st, a[0], ARG('$linsys'))
        return K0
    m['osqp_algebra_init_linsys_solver'] = init
    I = absint.Interp(p, m, hooks or Calls())
    f = fn(p, 'osqp_setup')
    nm = [a[1] for a in f.args]
    st = absint.State()
    for a in [nm[0]] + nm[1:6] + [nm[8]]:
        st = I.assume(st, c_eq(ARG(a), K0), False)
    st = I.assume(st, c_lt(K0, ARG(nm[6])), True)
    st = I.assume(st, c_lt(K0, ARG(nm[7])), True)
    return I, f, nm, st


def assume_field(I, st, base, f, conds):
    x = IN(('init', base, (f,)))
    if (RANGE[f][0]) in ('int', 'enum'):
        absint.INTS.add(x)
    for c in conds:
        cc, v = c(x)
        if st is not None:
            st = I.assume(st, cc, v)
    return st


def inside(p, I, st, base, skip=(), only=None):
    for f in sfields(p):
        if f in skip or (only is not None and f not in only):
            continue
        r = ranges(p, f)
        if r is None:
            continue
        x = IN(('init', base, (f,)))
        if r[0] in ('set', 'int'):
            absint.INTS.add(x)
        if r[0] == 'set':
            st = I.assume(st, c_lt(x, kk(r[1][0])), False)
            st = I.assume(st, c_lt(kk(r[1][-1]), x), False)
            for k in range(r[1][0], r[1][-1]):
                if k not in r[1]:
                    st = I.assume(st, c_eq(x, kk(k)), False)
        elif r[0] == 'int':
            st = I.assume(st, c_lt(x, kk(r[1])), False)
            if r[2] is not None:
                st = I.assume(st, c_lt(kk(r[2]), x), False)
        else:
            st = I.assume(st, c_lt(x, kk(r[1])) if r[0] == '>=' else c_lt(kk(r[1]), x), r[0] != '>=')
            if r[2] is not None:
                st = I.assume(st, c_lt(x, kk(r[2])), True)
    if 'eps_rel' not in skip and (only is None or 'eps_rel' in only):
        st = I.assume(st, c_lt(K0, IN(('init', base, ('eps_rel',)))), True)
    return st


def entry(p, which):
    """interpreter, function, argument terms, start state and the settings argument"""
    if which == 'setup':
        I, f, nm, st = setup_interp(p)
        base = ARG(nm[8])
        args = [ARG(a) for a in nm]
    else:
        f = fn(p, 'osqp_update_settings')
        nm = [a[1] for a in f.args]
        I = absint.Interp(p, lin_models(base_models()), Calls())
        st = case_state(I, {})
        base = ARG(nm[1])
        st = I.assume(st, c_eq(base, K0), False)
        args = [SOLVER, base]
    return I, f, args, st, base


def codes(I, f, args, st):
    """set of constant return values; None for values that are not constants"""
    out = []
    for rv, s in I.run(f, args, st):
        vs = s.vals.get(rv, (rv,)) if rv is not None else (None,)
        for v in vs:
            out.append((v[1] if v is not None and v[0] == 'k' else None, s))
    return out


def job_range(cfg, which, f):
    p = PG.load(cfg)
    res = Result()
    ERR = p.enums['OSQP_SETTINGS_VALIDATION_ERROR']
    name = {'setup': 'osqp_setup', 'update': 'osqp_update_settings'}[which]
    if f == '*':
        I, fun, args, st, base = entry(p, which)
        st = inside(p, I, st, base, only=None if which == 'setup' else set(sfields(p)) - FIXED)
        cs = codes(I, fun, args, st)
        res.check(not any(c == ERR for c, s in cs), "C15/accepts", "%s, every field in its range [%s]" % (name, cfg), "valid settings are rejected")
        # eps_abs > 0 with eps_rel = 0
        for a, b, ok in (('eps_abs', 'eps_rel', True), ('eps_rel', 'eps_abs', True), (None, None, False)):
            I, fun, args, st, base = entry(p, which)
            st = inside(p, I, st, base, skip=('eps_abs', 'eps_rel'), only=None if which == 'setup' else set(sfields(p)) - FIXED)
            for x in ('eps_abs', 'eps_rel'):
                t = IN(('init', base, (x,)))
                st = I.assume(st, c_lt(K0, t), True) if x == a else I.assume(st, c_eq(t, K0), True)
            cs = codes(I, fun, args, st)
            c = "%s, eps_abs %s 0 and eps_rel %s 0 [%s]" % (name, '>' if a == 'eps_abs' else '=', '>' if a == 'eps_rel' else '=', cfg)
            verdict(res, cs, ok, ERR, c)
        return res
    for d, ok, conds in regions(p, f):
        I, fun, args, st, base = entry(p, which)
        if which == 'update' and f in FIXED:
            continue
        st = inside(p, I, st, base, skip=(f,), only=None if which == 'setup' else set(sfields(p)) - FIXED)
        if f == 'eps_rel':
            st = I.assume(st, c_lt(K0, IN(('init', base, ('eps_abs',)))), True)
        st = assume_field(I, st, base, f, conds)
        if st is None:
            continue
        if which == 'setup' and ok:
            # acceptance of the whole region is the '*' job; here only single points, which are cheap to decide
            pass
        verdict(res, codes(I, fun, args, st), ok, ERR, "%s, %s %s [%s]" % (name, f, d, cfg))
        account(res, I)
    return res


def verdict(res, cs, ok, ERR, c):
    if ok:
        if any(x == ERR for x, s in cs):
            res.fail("C15/accepts", c, "a value inside the documented range is rejected")
        else:
            res.good("C15/accepts", c)
        return
    if any(x == 0 for x, s in cs):
        res.fail("C15/rejects", c, "a value outside the documented range is accepted")
    elif any(x is None for x, s in cs):
        res.undecided("C15/rejects", c, "return value not determined")
    elif not any(x == ERR for x, s in cs):
        res.fail("C15/rejects", c, "rejected with another code than the settings-validation error")
    else:
        res.good("C15/rejects", c)


# ---------------------------------------------------------------- C16
def job_update(cfg):
    p = PG.load(cfg)
    res = Result()
    I, fun, args, st, base = entry(p, 'update')
    n = 0
    for rv, s in I.run(fun, args, st):
        if rv is not K0:
            # rejected: nothing changes
            from .apichk import unchanged_state
            ok, err = final(I, s, rv)
            if err is not None:
                res.good("C09/rejections", "osqp_update_settings")
                unchanged_state(res, I, err, "osqp_update_settings", None)
                res.check(not any(c[0] == 'update_settings' for c in err.ts.get('calls', ())), "C09/state-unchanged",
                          "linear system in osqp_update_settings", "the linear system is given the settings of a rejected call")
            continue
        n += 1
        for f in sfields(p):
            now, old, new = at(s, I, SETT, f), setting(f), IN(('init', base, (f,)))
            d = "settings->%s after osqp_update_settings" % f
            alts = s.vals.get(now, (now,))
            if f in FIXED:
                if all(x == old for x in alts):
                    res.good("C16/fixed", d)
                elif any(x == new for x in alts):
                    res.fail("C16/fixed", d, "a setting that is fixed after setup is overwritten")
                else:
                    judge(res, I, s, p, "C16/fixed", d, now, old, "a setting that is fixed after setup changes", f, base)
            else:
                if all(x == new for x in alts):
                    res.good("C16/updated", d)
                else:
                    judge(res, I, s, p, "C16/updated", d, now, new, "the new value of an updatable setting is not stored", f, base)
        calls = [c for c in s.ts.get('calls', ()) if c[0] == 'update_settings']
        if not calls:
            res.fail("C16/forwarded", "linear system in osqp_update_settings", "the linear-system solver is not given the new settings")
        else:
            c = calls[-1]
            vals = dict(c[2])
            bad = [f for f in sfields(p) if vals.get(f) is not None and f in LINSYS and vals[f] != at(s, I, SETT, f)]
            res.check(not bad, "C16/forwarded", "linear system in osqp_update_settings", "the linear-system solver is given old values of %s" % ", ".join(bad))
    if not n:
        raise Broken("osqp_update_settings never succeeds")
    account(res, I)
    return res


LINSYS = {'cg_max_iter', 'cg_tol_reduction', 'cg_tol_fraction', 'cg_precond', 'sigma', 'rho', 'rho_is_vec', 'alpha'}


def points(p, f, extra=()):
    """values of setting f inside its documented range"""
    r = ranges(p, f)
    if r is None:
        return [0.0, 1.0, 2.0]
    if r[0] == 'set':
        return [float(x) for x in r[1]]
    lo, hi = r[1], r[2]
    if r[0] == 'int':
        c = list(range(lo, hi + 1)) if hi is not None and hi - lo < 10 else [lo, lo + 1, lo + 2, lo + 4, lo + 19, 1000, 10 ** 6]
        for x in extra:
            c += [x - 1, x, x + 1]
        c = [int(x) for x in c]
    else:
        c = [lo, lo + 1e-12, lo + 1e-8, lo + 1e-4, lo + .03, lo + .7, lo + 1.3, lo + 40, 1e4, 1e8, 1e12]
        for x in extra:
            c += [x * .5, x, x * 2]
    ok = [float(x) for x in c if (x >= lo if r[0] in ('int', '>=') else x > lo) and
          (hi is None or (x <= hi if r[0] == 'int' else x < hi))]
    return sorted(set(ok))


def consts(ts):
    """constants occurring in terms"""
    out, seen, todo = set(), set(), list(ts)
    while todo:
        t = todo.pop()
        if isinstance(t, (tuple, list, frozenset)):
            if id(t) in seen:
                continue
            seen.add(id(t))
            if isinstance(t, N) and t[0] == 'k':
                out.add(float(t[1]))
                continue
            todo += list(t)
    return {x for x in out if abs(x) < 1e15}


def judge(res, I, s, p, rule, d, a, b, msg, f=None, base=None):
    """a and b equal in every interpretation, in particular for every pair of old and new value of setting f?"""
    ft = fieldtypes(p)
    ss = [Sample(40 + k, 2, 3, fieldtype=ft) for k in range(4)]
    r = agree(ss, s, lambda ev: abs(ev.num(a) - ev.num(b)) <= 1e-12 * (1 + abs(ev.num(b))))
    if f is not None and r is not False and r != 'mix':
        new, old = IN(('init', base, (f,))), setting(f)
        inv = [c for c in s.facts if mentions(c, (new, old))]
        gates = [c for k, g in s.gates.items() for c, v in g if mentions(c, (new, old))]
        pts = points(p, f, consts([a] + list(s.vals.get(a, ())) + inv + gates))
        inr = lambda t, v: t not in s.rng or ((s.rng[t][0] < v or s.rng[t][0] == v and not s.rng[t][1]) and
                                              (v < s.rng[t][2] or s.rng[t][2] == v and not s.rng[t][3]))
        seen, und = set(), False
        for v in pts:
            for o in pts:
                if not inr(new, v) or not inr(old, o):
                    continue
                S = Sample(77, 2, 3, fieldtype=ft)
                S.scalars[new], S.scalars[old] = v, o

                def ok(ev):
                    for c in inv:
                        if ev.cond(c) != s.facts[c]:
                            raise Infeasible()
                    return ev.num(a) == ev.num(b)
                x = agree([S], s, ok)
                if x is None:
                    und = und or LAST[0] != "no interpretation"
                else:
                    seen.add(x)
        if seen - {True}:
            r = 'mix' if True in seen else False
        elif seen and not und and r is None:
            r = True
    note(res, rule, d, r, msg)


def mentions(t, xs):
    todo, seen = [t], set()
    while todo:
        t = todo.pop()
        if t in xs:
            return True
        if isinstance(t, (tuple, list, frozenset)):
            if id(t) in seen:
                continue
            seen.add(id(t))
            todo += list(t)
    return False


# ---------------------------------------------------------------- C17
def job_defaults(cfg):
    p = PG.load(cfg)
    res = Result()
    f = fn(p, 'osqp_set_default_settings')
    a = f.args[0][1]
    I = absint.Interp(p, base_models(), None)
    st = I.assume(absint.State(), c_eq(ARG(a), K0), False)
    n = 0
    for rv, s in I.run(f, [ARG(a)], st):
        n += 1
        for x in sfields(p):
            d = "%s [%s]" % (x, cfg)
            v = I.load(s, mkptr(ARG(a), (x,)))
            if v == IN(('init', ARG(a), (x,))):
                res.fail("C17/default", d, "osqp_set_default_settings leaves %s unset" % x)
                continue
            want = DEFAULT.get(x)
            if isinstance(want, str):
                want = p.enums[want]
            if v[0] != 'k':
                res.undecided("C17/default", d, "value not constant: %s" % T.show(v)[:60])
            elif want is None:
                res.good("C17/default", d)
            else:
                res.check(abs(v[1] - want) <= 1e-6 * abs(want), "C17/default", d, "default is %r, documented %r" % (v[1], want))
        # the defaults are accepted
        for which in ('setup', 'update'):
            J, fun, args, s0, base = entry(p, which)
            for x in sfields(p):
                v = I.load(s, mkptr(ARG(a), (x,)))
                if v[0] == 'k':
                    s0 = J.assume(s0, c_eq(IN(('init', base, (x,))), v), True)
            ERR = p.enums['OSQP_SETTINGS_VALIDATION_ERROR']
            res.check(not any(c == ERR for c, _ in codes(J, fun, args, s0)), "C15/accepts", "default settings in osqp_%s [%s]" % (which, cfg),
                      "the default settings are rejected")
    if not n:
        raise Broken("osqp_set_default_settings has no exit")
    account(res, I)
    return res


def job_copied(cfg):
    p = PG.load(cfg)
    res = Result()
    I, f, nm, st = setup_interp(p)
    base = ARG(nm[8])
    n = 0
    for rv, s in I.run(f, [ARG(a) for a in nm], st):
        if rv is not K0:
            continue
        n += 1
        SE = I.load(s, mkptr(I.load(s, ARG(nm[0])), ('settings',)))
        if SE == base:
            res.fail("C11/kept", "settings in osqp_setup [%s]" % cfg, "the solver keeps the caller's settings structure")
            continue
        res.good("C11/kept", "settings in osqp_setup [%s]" % cfg)
        for x in sfields(p):
            d = "settings->%s after osqp_setup [%s]" % (x, cfg)
            v, w = I.load(s, mkptr(SE, (x,))), IN(('init', base, (x,)))
            if x == 'rho':
                ft = fieldtypes(p)
                ss = [Sample(40 + k, 2, 3, fieldtype=ft) for k in range(5)]
                for k, S in enumerate(ss):
                    S.scalars[w] = (1e-9, .3, 7., 1e5, 1e9)[k]
                note(res, "C17/copied", d, agree(ss, s, lambda ev: abs(ev.num(v) - min(max(ev.num(w), 1e-6), 1e6)) <= 1e-9 * ev.num(v)), "not the given rho (clamped)")
            elif v == w:
                res.good("C17/copied", d)
            elif x == 'adaptive_rho_interval':
                pts = points(p, x, consts([v] + list(s.vals.get(v, ()))))
                ss = []
                for o in pts:
                    for mode in points(p, 'adaptive_rho'):
                        for chk in (0., 25.):
                            S = Sample(40, 2, 3, fieldtype=fieldtypes(p))
                            S.scalars[w] = o
                            S.scalars[IN(('init', base, ('adaptive_rho',)))] = mode
                            S.scalars[IN(('init', base, ('check_termination',)))] = chk
                            ss.append(S)
                note(res, "C17/copied", d, agree(ss, s, lambda ev: ev.num(w) == 0 or abs(ev.num(v) - ev.num(w)) < 1e-9), "an explicit adaptive_rho_interval is not kept")
            else:
                judge(res, I, s, p, "C17/copied", d, v, w, "osqp_setup does not copy the given %s" % x, x, base)
    if not n:
        raise Broken("osqp_setup never succeeds")
    account(res, I)
    return res


def runjob(f, *a):
    return globals()[f](*a)


def collect(pid, tier):
    J = []
    cfgs = ('mkl', 'builtin')
    for c in cfgs:
        PG.load(c)
    p = PG.load('mkl')
    if pid == 'C15':
        for c in cfgs if tier == 'thorough' else ('mkl',):
            J += [('job_range', c, w, f) for w in ('setup', 'update') for f in ['*'] + sfields(p)]
        J += [('job_defaults', c) for c in cfgs]
    if pid in ('C16', 'C09'):
        J += [('job_update', 'mkl')]
    if pid == 'C17':
        J += [('job_defaults', c) for c in cfgs] + [('job_copied', c) for c in cfgs]
    if pid == 'C11':
        J += [('job_copied', 'mkl')]
    if pid == 'C17':
        J += [('consumed', ('mkl', 'mklprof', 'builtin'))]
        PG.load('mklprof')
    return parallel(runjob, J)


def consumed(cfgs):
    """C17: every setting is read by something else than copying, validating, storing or printing"""
    from .scan import Scan
    res = Result()
    used = {}
    fs = set()
    for c in cfgs:
        p = PG.load(c)
        S = Scan(p)
        fs |= set(sfields(p))
        roots = [f for f in p.allfuncs() if not f.internal and f.name.startswith('osqp_')]
        reach = S.reach(roots)
        per = {}
        for (st, fld), fns in S.loads.items():
            if st == 'struct.OSQPSettings':
                for g in fns:
                    per.setdefault(g, set()).add(fld)
        n = len(sfields(p))
        for g, flds in per.items():
            if g not in reach:
                continue
            if len(flds) > .5 * n:
                # bookkeeping: only values handed to another function of the library count
                for fld in flds & passed(p, S, g):
                    used.setdefault(fld, []).append(g.name)
            else:
                for fld in flds:
                    used.setdefault(fld, []).append(g.name)
        res.count("functions_scanned", len(reach))
    for f in sorted(fs):
        res.check(f in used, "C17/consumed", f, "no computation reads settings->%s" % f)
    return res


def passed(p, S, g):
    out = set()
    geps, ld = {}, {}
    for i in g.insts():
        if i.op == 'gep':
            r = S.field(g, i)
            if r:
                geps[i.res] = r
        elif i.op == 'load' and i.ops[0][0] == 'reg' and i.ops[0][1] in geps:
            ld[i.res] = geps[i.ops[0][1]]
        elif i.op == 'call':
            c = i.x.get("callee")
            if c and c[0] == 'glob' and (p.resolve(c[1], g.module) is not None or 'profiler' in c[1]):
                for t, v in i.x["args"]:
                    if v[0] == 'reg' and v[1] in ld and ld[v[1]][0] == 'struct.OSQPSettings':
                        out.add(ld[v[1]][1])
    return out
