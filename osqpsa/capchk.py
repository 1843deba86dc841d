"""C36: the capabilities reported are those of the build

osqp_capabilities is evaluated from its summary; every bit is compared with what the entry points of the feature do in the same configuration."""
import random
from .lib import *
from . import prog as PG, arrsum, datachk as D
from .arrsum import Unknown, Wrong, C0


def walk(tree, atom):
    """outcome of a summary for given values"""
    E = D.Eval({}, {}, {}, {})
    E.atom = lambda t: atom(t)
    return E.run(tree), E


def returns(p, name, null, stop=()):
    """all outcomes of a function: set of ('ret', value) / ('call', name) / ('null', where)"""
    f = p.funcs.get(name)
    if f is None:
        return None
    args = [C0 if null or t.k != 'ptr' else ('p', ('arg', i), C0) for i, (t, _) in enumerate(f.args)]
    X = arrsum.Extract(p, {}, depth=40, lets=True, soft=True, limit=20000)
    t = X.function(f, args)
    out = set()

    def go(n, d):
        if d > 60 or len(out) > 40:
            out.add(('unk', 'too many paths'))
            return
        while True:
            if isinstance(n, arrsum.Lazy):
                n = n.force()
            h = n[0]
            if h == 'br':
                try:
                    c = arrsum.Ev(lambda t: one(t))(n[1])
                    n = n[2] if c else n[3]
                    continue
                except (Unknown, TypeError):
                    pass
                go(n[2], d + 1)
                go(n[3], d + 1)
                return
            if h in ('st', 'let', 'op'):
                n = n[-1]
                continue
            if h == 'ret':
                try:
                    out.add(('ret', arrsum.Ev(one)(n[1]) if n[1] is not None else None))
                except (Unknown, TypeError):
                    out.add(('ret', '?'))
                return
            if h == 'unk':
                out.add((n[2] or 'unk', n[1]))
                return
            out.add(('unk', h))
            return

    def one(t):
        if t[0] in ('p', 'q'):
            return 1
        raise Unknown("value")
    go(t, 0)
    return out


def implemented(outs, code):
    """does a function with these outcomes work (True), refuse (False) or both ('mix')?"""
    refuse = {o for o in outs if o == ('ret', code)}
    rest = outs - refuse
    if refuse and not rest:
        return False
    if rest and not refuse:
        return True
    return 'mix'


def job(cfg):
    res = Result()
    try:
        p = PG.load(cfg)
    except PG.BuildError as e:
        if not cfg.startswith("embedded"):
            raise
        res.undecided("C36/value", cfg, "configuration not compiled: %s" % str(e)[-200:])
        return res
    caps = {k: v for k, v in p.enums.items() if k.startswith('OSQP_CAPABILITY_')}
    if len(caps) < 5:
        raise Broken("capability bits not found")
    R = lambda r: "C36/" + r
    for a in caps:
        res.check(caps[a] > 0 and caps[a] & (caps[a] - 1) == 0 and all(caps[a] & caps[b] == 0 for b in caps if b != a), R("bits"), "%s [%s]" % (a, cfg), "is not one bit of its own")
    outs = returns(p, 'osqp_capabilities', False)
    if outs is None:
        raise Broken("osqp_capabilities not found")
    vals = {o[1] for o in outs}
    if any(o[0] != 'ret' or not isinstance(o[1], int) for o in outs) or len(vals) != 1:
        res.undecided(R("value"), "osqp_capabilities [%s]" % cfg, "value not determined: %s" % sorted(map(str, outs))[:3])
        return res
    v = vals.pop()
    res.check(v & ~sum(caps.values()) == 0, R("value"), "osqp_capabilities [%s]" % cfg, "bits without a meaning are set: %#x" % v)
    has = lambda n: bool(v & caps['OSQP_CAPABILITY_' + n])
    code = p.enums.get('OSQP_FUNC_NOT_IMPLEMENTED')
    # code generation, derivatives
    for bit, fs in (('CODEGEN', ['osqp_codegen']), ('DERIVATIVES', ['osqp_adjoint_derivative_compute', 'osqp_adjoint_derivative_get_mat', 'osqp_adjoint_derivative_get_vec'])):
        for f in fs:
            for null in (True, False):
                outs = returns(p, f, null)
                con = "%s [%s%s]" % (f, cfg, ", NULL arguments" if null else "")
                if outs is None:
                    res.check(not has(bit), R("feature"), con, "the %s capability is reported but the function does not exist" % bit)
                    continue
                im = implemented(outs, code)
                if im == 'mix':
                    res.fail(R("feature"), con, "returns the not-implemented error for some arguments only")
                else:
                    res.check(im == has(bit), R("feature"), con, "the %s capability is %s but the function %s" % (
                        bit, "reported" if has(bit) else "not reported", "works" if im else "returns the not-implemented error"))
    # matrix updates
    for f in ('osqp_update_data_mat', 'osqp_update_rho'):
        outs = returns(p, f, True)
        con = "%s [%s]" % (f, cfg)
        im = outs is not None and implemented(outs, code)
        if im == 'mix':
            res.fail(R("feature"), con, "returns the not-implemented error for some arguments only")
        else:
            res.check(im == has('UPDATE_MATRICES'), R("feature"), con, "the UPDATE_MATRICES capability is %s but the function is %s" % ("reported" if has('UPDATE_MATRICES') else "not reported", "present" if im else "absent"))
    # linear-system solvers
    if 'osqp_setup' in p.funcs:
        linsys(p, cfg, res, has)
    return res


def settype(p):
    """functions which store the type of a linear-system solver: name -> values"""
    out = {}
    types = {k for k, v in p.fields.items() if v[:1] == ['type'] and 'solve' in v and 'update_rho_vec' in v}
    for n, f in p.funcs.items():
        addr = {}
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'gep' and i.x[0].k == 'struct' and i.x[0].a in types and i.x[1][-1][1] == ('const', 0):
                    addr[i.res] = 1
                if i.op == 'store' and i.ops[1][0] == 'reg' and i.ops[1][1] in addr:
                    out.setdefault(n, set()).add(i.ops[0][1] if i.ops[0][0] == 'const' else '?')
    return out


def linsys(p, cfg, res, has):
    kinds = {'DIRECT': p.enums.get('OSQP_DIRECT_SOLVER'), 'INDIRECT': p.enums.get('OSQP_INDIRECT_SOLVER')}
    if None in kinds.values():
        raise Broken("linear-system solver types not found")
    sett = D.defaults(p)
    bad = p.enums.get('OSQP_SETTINGS_VALIDATION_ERROR')
    tree = D.summary(p, frozenset())
    key = (('set',), 'linsys_solver')
    rule = "C36/linsys"
    if key not in sett:
        res.undecided(rule, "default [%s]" % cfg, "default not found")
    else:
        dn = next((k for k, x in kinds.items() if x == sett[key]), None)
        res.check(dn is not None and has(dn + '_SOLVER'), rule, "default solver [%s]" % cfg, "the default linear-system solver is not among the capabilities")
    vals = {k: x for k, x in kinds.items()}
    for x in (-1, 0, 3, 4, 7):
        if x not in kinds.values():
            vals["value %d" % x] = x
    for k, x in vals.items():
        R = random.Random(3)
        arrays, flds, pos = D.problem(R, 4, 3, 2, 2)
        con = "linsys_solver %s [%s]" % (k, cfg)
        try:
            E = D.Eval(pos, arrays, {**flds, **sett, key: x}, {6: 4, 7: 3})
            o = E.run(tree)
            r = E.ev(o[1]) if o[0] == 'ret' else None
        except (Unknown, Wrong, KeyError, TypeError) as u:
            res.undecided(rule, con, str(u))
            continue
        if o[0] == 'unk' and o[2] != 'call':
            res.undecided(rule, con, o[1])
            continue
        want = has(k + '_SOLVER') if k in kinds else False
        if want:
            res.check(r != bad, rule, con, "the capability is reported but osqp_setup rejects the setting")
        else:
            res.check(r == bad, rule, con, "osqp_setup does not reject the setting although %s" % ("the capability is not reported" if k in kinds else "there is no such solver"))
    # the solver built is of the type asked for
    f = p.funcs.get('osqp_algebra_init_linsys_solver')
    st = settype(p)
    if f is None or not st:
        return
    si = next((i for i, (t, n) in enumerate(f.args) if n == 'settings'), 4)
    args = [('q', ('set',)) if i == si else ('p', ('arg', i), C0) if t.k == 'ptr' else C0 for i, (t, _) in enumerate(f.args)]
    X = arrsum.Extract(p, {}, depth=40, lets=True, soft=True, limit=20000)
    X.stop = set(st)
    t = X.function(f, args)
    for k, x in kinds.items():
        con = "solver built for %s [%s]" % (k, cfg)
        try:
            o = D.Eval({}, {}, {key: x}, {}).run(t)
        except (Unknown, Wrong, KeyError, TypeError) as u:
            res.undecided(rule, con, str(u))
            continue
        n = o[1].split()[-1] if o[0] == 'unk' else None
        if not has(k + '_SOLVER'):
            res.check(st.get(n) != {x}, rule, con, "the solver %s is in the build but the capability is not reported" % n)
            continue
        if n not in st:
            res.undecided(rule, con, str(o[:2]))
            continue
        res.check(st[n] == {x}, rule, con, "the solver initialised (%s) is of type %s" % (n, sorted(st[n], key=str)))


def collect(pid, tier):
    return parallel(job, [(c,) for c in ('mkl', 'builtin', 'embedded1', 'embedded2')])
