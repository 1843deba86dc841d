"""C20: status and error texts match their codes."""
from osqpsa.lib import *

TEXT = {'OSQP_SOLVED': 'solved', 'OSQP_SOLVED_INACCURATE': 'solved inaccurate', 'OSQP_PRIMAL_INFEASIBLE': 'primal infeasible',
        'OSQP_PRIMAL_INFEASIBLE_INACCURATE': 'primal infeasible inaccurate', 'OSQP_DUAL_INFEASIBLE': 'dual infeasible',
        'OSQP_DUAL_INFEASIBLE_INACCURATE': 'dual infeasible inaccurate', 'OSQP_MAX_ITER_REACHED': 'maximum iterations reached',
        'OSQP_TIME_LIMIT_REACHED': 'run time limit reached', 'OSQP_NON_CVX': 'problem non convex', 'OSQP_SIGINT': 'interrupted',
        'OSQP_UNSOLVED': 'unsolved'}
# words that tell what an error is about; a message must contain one of its own code's words
WORDS = {'OSQP_DATA_VALIDATION_ERROR': ('data validation', 'problem data'), 'OSQP_SETTINGS_VALIDATION_ERROR': ('settings',),
         'OSQP_LINSYS_SOLVER_INIT_ERROR': ('linear system',), 'OSQP_NONCVX_ERROR': ('convex',), 'OSQP_MEM_ALLOC_ERROR': ('memory', 'alloc'),
         'OSQP_WORKSPACE_NOT_INIT_ERROR': ('workspace',), 'OSQP_ALGEBRA_LOAD_ERROR': ('algebra',), 'OSQP_FOPEN_ERROR': ('file',),
         'OSQP_CODEGEN_DEFINES_ERROR': ('codegen', 'defines'), 'OSQP_DATA_NOT_INITIALIZED': ('vector', 'matrix'),
         'OSQP_FUNC_NOT_IMPLEMENTED': ('not implemented',)}


def text_of(I, v):
    """constant C string a pointer term denotes, or None"""
    if v is None:
        return None
    if v[0] == 'str':
        return v[1]
    b, path = split(v)
    if b[0] == 'glob' and not path:
        g, m = I.globinit(b)
        if g is not None and g.init is not None and g.init[0] == 'str':
            return g.init[1].split("\0")[0].split("\\00")[0]
        if g is not None and g.init is not None and g.init[0] == 'zero':
            return ""
    return None


class Hooks:
    """indices into constant tables, and error codes reported internally"""

    def __init__(self, res):
        self.res = res

    def table(self, I, p):
        base, path = split(p)
        if base[0] != 'glob' or not path or not isinstance(path[0], tuple):
            return None
        g, m = I.globinit(base)
        if g is None or g.ty.k != 'array' or g.ty.b.k != 'ptr':
            return None
        return g, path[0][1]

    def on_load(self, I, s, ptr, v, inst, ctx):
        t = self.table(I, ptr)
        if t is None:
            return
        g, idx = t
        n = g.ty.a
        where = "%s %s[%s]" % (I.line(inst), g.name, T.show(idx)[:60])
        if idx[0] == 'k':
            self.res.check(0 <= idx[1] < n, "table-index", where, "index %s outside the %d entries of %s" % (idx[1], n, g.name))
            return
        lo = evalc(s, c_lt(idx, K0))
        hi = evalc(s, c_lt(idx, kk(n)))
        # indices are integers: i > -1 is i >= 0, i <= n-1 is i < n
        if (lo is False or evalc(s, c_lt(kk(-1), idx))) and (hi is True or evalc(s, c_lt(kk(n - 1), idx)) is False):
            self.res.good("table-index", where)
        elif lo is True or hi is False:
            self.res.fail("table-index", where, "index always outside the %d entries of %s" % (n, g.name))
        else:
            self.res.undecided("table-index", where, "range of the index not bounded here (decided per argument value)")


def job(kind, arg):
    p = PG.load('mkl')
    res = Result()
    H = Hooks(res)
    bufsize = None
    for m in p.modules:
        st = m.structs.get('struct.OSQPInfo')
        if st:
            k = p.fields['struct.OSQPInfo'].index('status')
            bufsize = st[k].a
            break
    if bufsize is None:
        raise Broken("OSQPInfo.status not found")
    val2name = {p.enums[n]: n for n in TEXT if n in p.enums}
    if kind == 'msg':
        f = p.funcs.get('osqp_error_message')
        if f is None:
            raise Broken("osqp_error_message not found")
        codes = dict(p.enumtypes.get('osqp_error_type', []))
        last = codes.get('OSQP_LAST_ERROR_PLACE', max(codes.values()) + 1)
        I = absint.Interp(p, base_models(), H)
        seen = {}
        for k in list(range(-4, last + 5)) + [2 ** 31, -2 ** 31, 2 ** 62, -2 ** 62, 1000, -1000]:
            txt = set()
            for rv, s in I.run(f, [kk(k)], absint.State()):
                txt.add(text_of(I, rv))
            c = "osqp_error_message(%d)" % k
            if None in txt or not txt:
                res.fail("error-text", c, "does not return an entry of a constant string table")
                continue
            res.good("error-text", c)
            for t in txt:
                if k in [v for n, v in codes.items() if n in WORDS]:
                    name = [n for n, v in codes.items() if v == k][0]
                    res.check(any(w in t.lower() for w in WORDS[name]), "error-text-meaning", "osqp_error_message(%s)" % name,
                              "message '%s' does not describe %s" % (t, name))
                    if t in seen:
                        res.fail("error-text-distinct", name, "same message as %s" % seen[t])
                    else:
                        res.good("error-text-distinct", name)
                    seen[t] = name
        # any other argument: the table index is proved in range or the value taken cannot reach the table
        for name, v in codes.items():
            if name not in WORDS and name not in ('OSQP_NO_ERROR', 'OSQP_LAST_ERROR_PLACE'):
                res.undecided("error-text-meaning", name, "new error code")
        st = absint.State()
        x = ARG('error_flag')
        I2 = absint.Interp(p, base_models(), H)
        I2.run(f, [x], st)
        account(res, I2)
        return res
    I = None

    def exit_state(s, I, info, what):
        sv = I.load(s, mkptr(info, ('status_val',)))
        tx = I.load(s, mkptr(info, ('status', '$str')))
        if sv is IN(('init', info, ('status_val',))):
            return
        t = text_of(I, tx)
        alts = s.vals.get(sv, (sv,))
        if sv[0] != 'k':
            res.undecided("status-text", what, "status value not constant in this state")
            return
        name = val2name.get(int(sv[1]))
        if name is None:
            res.fail("status-text", what, "status value %s is none of the documented ones" % T.show(sv))
        elif t is None:
            if tx[0] in ('init', 'k'):
                res.fail("status-text", "%s %s" % (what, name), "status value set to %s without setting the text" % name)
            else:
                res.undecided("status-text", "%s %s" % (what, name), "text not constant")
        else:
            res.check(t == TEXT[name], "status-text", "%s %s" % (what, name), "status text is '%s', documented '%s'" % (t, TEXT[name]))
            res.check(len(t) + 1 <= bufsize, "status-fits", name, "text of %d characters in a buffer of %d" % (len(t), bufsize))
    if kind == 'solve':
        I, out = run_solve(p, arg, H)
        for rv, s in out:
            exit_state(s, I, INFO, "osqp_solve")
    elif kind == 'call':
        f = p.funcs.get(arg)
        if f is None:
            raise Broken(arg + " not found")
        I = absint.Interp(p, base_models(), H, keyfn=status_key)
        st = case_state(I, {})
        for rv, s in I.run(f, [SOLVER] + [ARG(r) for _, r in f.args[1:]], st):
            exit_state(s, I, INFO, arg)
    else:
        f = p.funcs.get('osqp_setup')
        if f is None:
            raise Broken("osqp_setup not found")
        I = absint.Interp(p, base_models(), H)
        for rv, s in I.run(f, [ARG(r) for _, r in f.args], absint.State()):
            if rv is K0:
                sol = I.load(s, ARG(f.args[0][1]))
                info = I.load(s, mkptr(sol, ('info',)))
                sv = I.load(s, mkptr(info, ('status_val',)))
                res.check(sv == kk(p.enums['OSQP_UNSOLVED']), "status-text", "osqp_setup status",
                          "status after setup is %s, not OSQP_UNSOLVED" % T.show(sv))
                exit_state(s, I, info, "osqp_setup")
    account(res, I)
    return res


def main(pid, t0):
    jobs = [('msg', None), ('setup', None), ('call', 'osqp_update_data_vec'), ('call', 'osqp_update_data_mat'),
            ('call', 'osqp_warm_start'), ('call', 'osqp_cold_start'), ('call', 'osqp_update_rho'), ('call', 'osqp_update_settings')]
    jobs += [('solve', dict(c, polishing=pl)) for c in SOLVE_CASES for pl in (0, 1)]
    PG.load('mkl')
    res = parallel(job, jobs)
    # an index left open in the generic run is decided by the per-argument runs
    return finish(pid, res, "Every public entry point that sets the status is abstractly interpreted; at each exit state the status "
                  "value and the text stored with it are compared with the documented table and the text with the size of its "
                  "buffer; osqp_error_message is interpreted for every code, its neighbours and extreme integers; every table "
                  "access met on the way has its index range compared with the table's length.",
                  {"status-text": 8, "error-text": 10, "error-text-meaning": 8, "table-index": 5}, t0,
                  ["the string copy helper copies up to and including the terminator"])
