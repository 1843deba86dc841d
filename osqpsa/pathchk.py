"""Typestate over the paths of every public entry point: allocation-free iterations (C14), printing (C32), interrupt listener (C22),
profiler sections (C35), internal failures (C19)."""
import re
from .lib import *
from . import prog as PG, absint
from .terms import *
from .apichk import lin_models
from .scan import Scan

PRINTERS = {'printf', 'puts', 'putchar', 'vprintf', 'fputs', 'fputc', 'putc', 'fwrite', 'fprintf', 'vfprintf', 'perror', 'write', 'putchar_unlocked',
            '__printf_chk', 'mexPrintf', 'PySys_WriteStdout'}
ALLOCATORS = {'malloc', 'calloc', 'realloc', 'aligned_alloc', 'posix_memalign', 'memalign', 'valloc', 'strdup', 'strndup', 'asprintf', 'getline', 'reallocarray',
              'MKL_malloc', 'MKL_calloc', 'MKL_realloc', 'mkl_malloc', 'mkl_calloc', 'mkl_realloc', '_Znwm', '_Znam', 'mkl_sparse_d_create_csc',
              'mkl_sparse_d_create_csr', 'mkl_sparse_d_create_coo', 'mkl_sparse_copy', 'fopen', 'alloca'}
VOIDENT = {'osqp_cold_start', 'osqp_get_dimensions', 'osqp_set_default_settings', 'osqp_set_default_codegen_defines'}
SETTLED = 'settings'


def byname(p, n):
    for f in p.allfuncs():
        if f.name == n and not f.internal:
            return f
    return None


def public(p):
    """public functions of the API header taking a solver handle, plus setup"""
    from .nullchk import public_names
    return public_names(PG.REPO)


def unmodel(m, names):
    for n in names:
        m.pop(n, None)
    return m


def entry_state(I, p, name, case):
    """(function, arguments, state) of a public entry for an established solver (or fresh for setup)"""
    f = byname(p, name)
    if f is None:
        raise Broken(name + " not found")
    nm = [a[1] for a in f.args]
    if '$null' in case:
        return f, [K0] + [ARG(a) for a in nm[1:]], absint.State()
    if name == 'osqp_setup':
        st = absint.State()
        for a in [nm[0]] + nm[1:6] + [nm[8]]:
            st = I.assume(st, c_eq(ARG(a), K0), False)
        for k, v in case.items():
            x = IN(('init', ARG(nm[8]), (k,)))
            st = I.assume(st, c_lt(K0, x) if v == '+' else c_eq(x, kk(v)), True)
        st = I.assume(st, c_lt(ARG(nm[6]), K0), False)
        st = I.assume(st, c_lt(K0, ARG(nm[7])), True)
        return f, [ARG(a) for a in nm], st
    st = case_state(I, case)
    st = nonnull(I, st, member(DATA, 'P'), member(DATA, 'A'), member(WORK, 'scaling') if 'scaling' in case and case['scaling'] else WORK)
    return f, [SOLVER] + [ARG(a) for a in nm[1:]], st


class Paths:
    """hooks with a typestate; subclasses define step(s, name, args, where) changing s.ts['t']"""
    rule = None

    def __init__(self, t0=()):
        self.t0 = t0
        self.calls = 0
        self.edge = {}

    def key(self, I, s):
        return s.ts.get('t', self.t0)

    def join_ts(self, a, b):
        return {k: v for k, v in a.items() if b.get(k) == v}

    def on_call(self, I, s, name, args, inst, ctx):
        k = (I.cur[-1].qname, name)
        if k not in self.edge:
            self.edge[k] = I.where(inst, ctx).split(' called')[0]
        n = self.step(I, s, s.ts.get('t', self.t0), name, args, inst, ctx)
        if n is not None:
            s.ts['t'] = n


def split_success(I, s, rv):
    """states of this exit in which the call reported success / failure"""
    if rv is None or rv is VOID:
        return [s], []
    if rv[0] == 'k':
        return ([s], []) if rv[1] == 0 else ([], [s])
    a = I.assume(s.copy(), c_eq(rv, K0), True)
    b = I.assume(s.copy(), c_eq(rv, K0), False)
    vs = s.vals.get(rv)
    if vs and all(v[0] == 'k' for v in vs):
        a = a if any(v[1] == 0 for v in vs) else None
        b = b if any(v[1] != 0 for v in vs) else None
    return ([a] if a is not None else []), ([b] if b is not None else [])


def edges(p, cfg):
    return Scan(p)


# ---------------------------------------------------------------- C32
class Printed(Paths):
    def step(self, I, s, t, name, args, inst, ctx):
        if name in PRINTERS or name in ('_osqp_error', '_osqp_error_line'):
            if name in ('fprintf', 'fputs', 'fputc', 'fwrite', 'putc', 'vfprintf'):
                fa = args[0] if name in ('fprintf', 'vfprintf') else args[-1]
                if 'stdout' not in repr(fa)[:300]:
                    return t
            if not t:
                return (I.where(inst, ctx).split(' called')[0],)
        return t


PRINT_MODELS = ('print_setup_header', 'print_header', 'print_summary', 'print_footer', 'print_polish')


def job_print(cfg, name, case):
    p = PG.load(cfg)
    res = Result()
    H = Printed()
    m = unmodel(lin_models(base_models()), PRINT_MODELS)
    if name == 'osqp_setup':
        def init(I, st, inst, a, ctx):
            r = I.unknown(st, inst, a, ctx, 'init_linsys', havoc=False)
            I.store(st, a[0], ARG('$linsys'))
            return r
        m['osqp_algebra_init_linsys_solver'] = init
    I = absint.Interp(p, m, H, keyfn=H.key)
    f, args, st = entry_state(I, p, name, case)
    con = "%s verbose=0%s [%s]" % (name, "".join(" %s=%s" % x for x in sorted(case.items()) if x[0] != 'verbose'), cfg)
    n = 0
    for rv, s in I.run(f, args, st):
        n += 1
        t = s.ts.get('t', ())
        ok, bad = split_success(I, s, rv)
        if not t:
            res.good("C32/silent", con)
        elif ok:
            res.fail("C32/silent", "%s: %s" % (name, t[0]), "prints although verbose is off and the call does not fail")
        else:
            res.good("C32/error-message", con)
    if not n:
        raise Broken("no exit of " + con)
    below = set()
    S = Scan(p)
    for g in executed_below(p, S, I, H.edge):
        for h in S.reach([g]):
            if not isinstance(h, str) and any(isinstance(c, str) and c in PRINTERS for c, i in S.callees(h)):
                below.add((cfg, h.qname))
    res.count("below", below)
    account(res, I)
    return res


def executed_below(p, S, I, edge):
    """functions called by the interpreted code but not interpreted themselves, with the place of a call"""
    interpreted = set(I.stats["functions"])
    out = {}
    for (caller, callee), where in sorted(edge.items()):
        if callee.startswith('*'):
            tg = sorted(S.tables.get(callee[1:], ()), key=lambda g: g.qname)
        else:
            g = p.resolve(callee, [h for h in p.allfuncs() if h.qname == caller][0].module)
            tg = [g] if g is not None else []
        for g in tg:
            if g.qname not in interpreted:
                out.setdefault(g, where)
    return out


def job_print_lower(cfg, fname):
    """a function below the interpreted level that prints: only on the way to an error return"""
    p = PG.load(cfg)
    res = Result()
    f = [g for g in p.allfuncs() if g.qname == fname][0]
    H = Printed()
    I = absint.Interp(p, lin_models(base_models()), H, keyfn=H.key)
    I.fork_alloc = True
    con = "%s [%s]" % (f.name, cfg)
    try:
        for rv, s in I.run(f, [ARG(a) for t, a in f.args], absint.State()):
            t = s.ts.get('t', ())
            if not t:
                res.good("C32/lower", con)
                continue
            if rv is None or rv is VOID:
                if errorprint(p, f):
                    res.good("C32/lower", con)
                else:
                    res.fail("C32/lower", "%s: %s" % (f.name, t[0]), "prints something that is no error message")
                continue
            # failure: NULL for pointers, nonzero otherwise
            ok, bad = split_success(I, s, rv)
            if f.ret.k == 'ptr':
                ok, bad = bad, ok
            if ok and not errorprint(p, f):
                res.fail("C32/lower", "%s: %s" % (f.name, t[0]), "prints although verbose may be off and nothing failed")
            else:
                res.good("C32/lower", con)
    except absint.Abort as e:
        res.undecided("C32/lower", con, str(e))
    account(res, I)
    return res


def errorprint(p, f):
    """does every print sequence of the function start with an error prefix?"""
    for b in f.order:
        first = None
        for i in b.insts:
            if i.op == 'call' and i.x["callee"][0] == 'glob' and i.x["callee"][1] in PRINTERS:
                a = i.x["args"][0][1]
                s = strconst(p, f, a)
                return s is not None and s.upper().startswith("ERROR")
    return False


def strconst(p, f, v):
    if v[0] == 'glob':
        for g in f.module.globals.values():
            if g.name == v[1] and g.init is not None:
                return str(g.init[1]) if len(g.init) > 1 else None
    return None


# ---------------------------------------------------------------- C22
class Listener(Paths):
    """state: () or ('on', location of the saved disposition)"""

    def __init__(self, res):
        super().__init__()
        self.res = res
        self.handlers = set()
        self.installs = 0

    def bad(self, I, inst, ctx, msg):
        self.res.fail("C22/paired", I.where(inst, ctx).split(' called')[0], msg)

    def step(self, I, s, t, name, args, inst, ctx):
        if name in ('signal', 'bsd_signal', 'sysv_signal'):
            h = args[1]
            if h[0] == 'fn':
                self.handlers.add(h[1])
                self.installs += 1
                if t:
                    self.bad(I, inst, ctx, "the handler is installed although it is already")
                return ('on', ('ret', I.line(inst)))
            if t and 'signal@' in repr(h):
                return ()
            self.bad(I, inst, ctx, "the interrupt disposition is set to something else than the previous one")
            return ()
        if name != 'sigaction' and name != '__sigaction':
            return t
        if args[1] is K0:
            return t
        b = split(args[1])[0]
        fns = [v[1] for (bb, path), v in s.mem.items() if bb == b and v[0] == 'fn']
        if t and args[1] == t[1]:
            if args[0] != t[2]:
                self.bad(I, inst, ctx, "the saved disposition of one signal is restored for another")
            return ()
        if not fns:
            self.bad(I, inst, ctx, "the disposition set is neither the library's handler nor the one saved when it was installed")
            return ()
        self.handlers.update(fns)
        self.installs += 1
        if t:
            self.bad(I, inst, ctx, "the handler is installed again while it is still installed")
            return t
        if args[2] is K0:
            self.bad(I, inst, ctx, "the previous disposition is not saved")
        return ('on', args[2], args[0])


def job_listener(cfg, name, case):
    from . import prog
    p = PG.load(cfg)
    res = Result()
    H = Listener(res)
    flags = handler_flags(p, res, cfg)

    def on_load(I, s, q, v, inst, ctx):
        b = split(q)[0]
        if b[0] == 'glob' and b[1] in flags and inst_fn(I).name not in flags[b[1]]:
            # a flag left over from an earlier signal must not be seen by this call
            res.check(v is K0, "C22/flag-cleared", "%s in %s" % (b[1], inst_fn(I).name), "the interrupt flag is read without having been cleared by this call")
            return IN(('ret', 0, 'interrupted@%s' % I.line(inst), str(inst.idx)))
    H.on_load = on_load

    def on_store(I, s, q, v, inst, ctx):
        b = split(q)[0]
        t = s.ts.get('t', ())
        if t and split(t[1])[0] == b:
            H.bad(I, inst, ctx, "the saved disposition is overwritten while the handler is installed")
    H.on_store = on_store
    m = unmodel(lin_models(base_models()), ('osqp_start_interrupt_listener', 'osqp_end_interrupt_listener', 'osqp_is_interrupted'))
    m['sigaction'] = m['sigemptyset'] = m['sigfillset'] = m['sigaddset'] = m['signal'] = lambda I, st, inst, a, ctx: I.unknown(st, inst, a, ctx, inst.x["callee"][1], havoc=False)
    if name == 'osqp_setup':
        m['osqp_algebra_init_linsys_solver'] = lambda I, st, inst, a, ctx: (I.store(st, a[0], ARG('$linsys')), I.unknown(st, inst, a, ctx, 'init', havoc=False))[1]
    I = absint.Interp(p, m, H, keyfn=H.key)
    f, args, st = entry_state(I, p, name, case)
    con = "%s%s [%s]" % (name, "".join(" %s=%s" % x for x in sorted(case.items())), cfg)
    n = 0
    for rv, s in I.run(f, args, st):
        n += 1
        t = s.ts.get('t', ())
        res.check(not t, "C22/restored", con, "returns with the interrupt handler still installed")
    if not n:
        raise Broken("no exit of " + con)
    res.count("installs", H.installs)
    account(res, I)
    return res


def inst_fn(I):
    return I.cur[-1]


def handler_flags(p, res, cfg):
    """{global written by a signal handler: {handler names}}; checks what the handler does"""
    S = Scan(p)
    out = {}
    hs = set()
    for f in p.allfuncs():
        for i in f.insts():
            if i.op == 'store' and i.ops[0][0] == 'glob':
                g = p.resolve(i.ops[0][1], f.module)
                if g is not None and any(isinstance(c, str) and 'sig' in c for c, _ in S.callees(f)):
                    hs.add(g)
            if i.op == 'call' and i.x["callee"][0] == 'glob' and i.x["callee"][1] == 'signal':
                for t, v in i.x["args"]:
                    if v[0] == 'glob':
                        g = p.resolve(v[1], f.module)
                        if g is not None:
                            hs.add(g)
    for h in hs:
        reach = S.reach([h])
        for g in reach:
            if isinstance(g, str):
                if not g.startswith('llvm.') and g not in ('sigaction', 'signal'):
                    res.fail("C22/handler", "%s calls %s [%s]" % (h.name, g, cfg), "the signal handler does more than record the interrupt")
                continue
            for i in g.insts():
                if i.op == 'store':
                    q = i.ops[1]
                    if q[0] == 'glob':
                        out.setdefault(q[1], set()).add(h.name)
                        continue
                    if q[0] == 'reg':
                        src = [j for j in g.insts() if j.res == q[1]]
                        if src and src[0].op == 'alloca':
                            continue
                    res.fail("C22/handler", "%s line %s [%s]" % (g.name, i.line if hasattr(i, 'line') else '?', cfg), "the signal handler writes something else than its flag")
        res.good("C22/handler", "%s [%s]" % (h.name, cfg))
    return out


# ---------------------------------------------------------------- C35
class Sections(Paths):
    def __init__(self, res, lower=False):
        super().__init__()
        self.res = res
        self.pushes = 0

    def step(self, I, s, t, name, args, inst, ctx):
        if 'profiler_sec_push' in name:
            self.pushes += 1
            if len(t) > 12:
                self.res.fail("C35/bounded", I.where(inst, ctx).split(' called')[0], "profiler sections are entered without bound")
                return t
            return t + (args[0],)
        if 'profiler_sec_pop' in name:
            if not t:
                self.res.fail("C35/pop-without-push", I.where(inst, ctx).split(' called')[0], "a profiler section is left that was not entered")
                return t
            if t[-1] != args[0]:
                self.res.fail("C35/nesting", I.where(inst, ctx).split(' called')[0], "the profiler section left is not the innermost one")
            return t[:-1]
        return t


def job_sections(cfg, name, case):
    p = PG.load(cfg)
    res = Result()
    H = Sections(res)
    m = lin_models(base_models())
    if name == 'osqp_setup':
        m['osqp_algebra_init_linsys_solver'] = lambda I, st, inst, a, ctx: (I.store(st, a[0], ARG('$linsys')), I.unknown(st, inst, a, ctx, 'init', havoc=False))[1]
    I = absint.Interp(p, m, H, keyfn=H.key)
    I.fork_alloc = name == 'osqp_setup'
    f, args, st = entry_state(I, p, name, case)
    con = "%s%s [%s]" % (name, "".join(" %s=%s" % x for x in sorted(case.items())), cfg)
    n = 0
    for rv, s in I.run(f, args, st):
        n += 1
        t = s.ts.get('t', ())
        what = rvname(p, rv)
        if t:
            res.fail("C35/balanced", "%s returning %s" % (name, what), "returns without leaving profiler section %s" % secname(p, t[-1]))
        else:
            res.good("C35/balanced", con)
    if not n:
        raise Broken("no exit of " + con)
    res.count("sections_entered", H.pushes)
    account(res, I)
    return res


def rvname(p, rv):
    if rv is None or rv is VOID:
        return "nothing"
    if rv[0] == 'k':
        for k, v in p.enums.items():
            if v == rv[1] and k.startswith('OSQP_') and k.endswith('ERROR') and v > 2:
                return k
        return str(rv[1])
    return "a computed code"


def secname(p, t):
    if t[0] == 'k':
        for k, v in p.enums.items():
            if v == t[1] and k.startswith('OSQP_PROFILER_SEC'):
                return k
    return str(t)[:40]


def job_sections_lower(cfg, fname):
    p = PG.load(cfg)
    res = Result()
    f = [g for g in p.allfuncs() if g.qname == fname][0]
    H = Sections(res)
    I = absint.Interp(p, lin_models(base_models()), H, keyfn=H.key)
    I.fork_alloc = True
    con = "%s [%s]" % (f.name, cfg)
    try:
        for rv, s in I.run(f, [ARG(a) for t, a in f.args], absint.State()):
            t = s.ts.get('t', ())
            if t:
                res.fail("C35/balanced", "%s returning %s" % (f.name, rvname(p, rv)), "returns without leaving profiler section %s" % secname(p, t[-1]))
            else:
                res.good("C35/balanced", con)
    except absint.Abort as e:
        res.undecided("C35/balanced", con, str(e))
    res.count("sections_entered", H.pushes)
    account(res, I)
    return res


# ---------------------------------------------------------------- C14
class Edges(Paths):
    """records executed calls; allocation is a violation"""

    def key(self, I, s):
        return status_key(I, s)

    def step(self, I, s, t, name, args, inst, ctx):
        return None


def job_alloc(cfg, name, case):
    p = PG.load(cfg)
    S = Scan(p)
    res = Result()
    H = Edges()
    m = unmodel(lin_models(base_models()), ())
    I = absint.Interp(p, m, H, keyfn=H.key)
    f, args, st = entry_state(I, p, name, case)
    for rv, s in I.run(f, args, st):
        pass
    con = "%s%s [%s]" % (name, "".join(" %s=%s" % x for x in sorted(case.items())), cfg)
    seen = executed_below(p, S, I, H.edge)
    bad = 0
    for (caller, callee), where in sorted(H.edge.items()):
        if callee in ALLOCATORS:
            bad += 1
            res.fail("C14/no-allocation", "%s: %s at %s" % (name, callee, where), "memory is allocated outside setup, cleanup and polishing")
        elif callee.startswith('*') and not S.tables.get(callee[1:]):
            res.undecided("C14/no-allocation", con + " " + callee, "no implementation found")
    for g, where in seen.items():
        R = S.reach([g])
        hit = sorted(x for x in R if isinstance(x, str) and x in ALLOCATORS)
        for x in hit:
            bad += 1
            res.fail("C14/no-allocation", "%s: %s" % (name, S.path(R, x)), "memory is allocated outside setup, cleanup and polishing (%s called at %s)" % (g.name, where))
        res.count("reached", {h if isinstance(h, str) else h.qname for h in R})
    if not bad:
        res.good("C14/no-allocation", con)
    account(res, I)
    return res


# ---------------------------------------------------------------- C19
MAYFAIL = {'*update_matrices', '*update_rho_vec', 'osqp_algebra_init_linsys_solver'}


class Failed(Paths):
    def step(self, I, s, t, name, args, inst, ctx):
        return None


def job_failure(cfg, name, case, only=None):
    p = PG.load(cfg)
    res = Result()
    H = Failed()
    m = lin_models(base_models())
    fails = set()

    def failing(nm, old, zero=K0):
        def g(I, st, inst, a, ctx):
            w = "%s at %s" % (nm.strip('*'), I.where(inst, ctx).split(' called')[0])
            fails.add(w)
            s2 = st.copy()
            r = old(I, st, inst, a, ctx)
            outs = r if isinstance(r, list) else [(r, st)]
            good = [(K0, s) for v, s in outs]
            sym = I.fresh(s2, ('ret', ctx, "%s@%s!" % (nm, I.line(inst)), inst.res or str(inst.idx)))
            s2 = I.assume(s2, c_eq(sym, K0), False)
            if not s2.ts.get('t'):
                s2.ts['t'] = (w, ctx)
            return good + [(sym, s2)]
        return g
    if name == 'osqp_setup':
        m['osqp_algebra_init_linsys_solver'] = lambda I, st, inst, a, ctx: (I.store(st, a[0], ARG('$linsys')), K0)[1]
    for nm in MAYFAIL:
        if (only is None or nm in only) and nm in m:
            m[nm] = failing(nm, m[nm])
    I = absint.Interp(p, m, H, keyfn=lambda I, s: (s.ts.get('t', ()),))
    I.fork_alloc = False
    f, args, st = entry_state(I, p, name, case)
    n = 0
    for rv, s in I.run(f, args, st):
        n += 1
        t = s.ts.get('t', ())
        if not t:
            continue
        ok, bad = split_success(I, s, rv)
        if ok:
            res.fail("C19/reported", "%s: %s" % (name, t[0]), "%s returns success although %s reported an error" % (name, t[0]))
        else:
            res.good("C19/reported", "%s: %s" % (name, t[0]))
    if not n:
        raise Broken("no exit of " + name)
    res.count("failing_calls", fails)
    account(res, I)
    return res


def factors(args):
    """the values whose product is the requested size"""
    out = set()
    work = list(args)
    while work:
        a = work.pop()
        if a[0] == 'sum' and len(a[1]) == 1:
            work.extend(x for x, e in a[1][0][0] if e > 0)
        out.add(a)
    return frozenset(out)


def requested(I, s, inst):
    return factors([I.val(s, a, None) for ty, a in inst.x["args"] if a[0] != 'glob'])


def excused(s, t):
    """a request for no memory at all may be answered by NULL"""
    return any(absint.evalc(s, c_eq(x, K0)) or absint.evalc(s, absint.c_lt(K0, x)) is False for x in t[2])


def job_failure_alloc(cfg, name, case):
    """an allocation that fails inside a solve (polishing) is reported"""
    p = PG.load(cfg)
    res = Result()
    H = Failed()
    fails = set()

    def on_alloc(I, s, v, inst, ctx, obj):
        if v is K0:
            w = "allocation at %s" % I.where(inst, ctx).split(' called')[0]
            fails.add(w)
            t = s.ts.get('t')
            if not t or excused(s, t):
                s.ts['t'] = (w, ctx, requested(I, s, inst))
    H.on_alloc = on_alloc
    m = lin_models(base_models())
    I = absint.Interp(p, m, H, keyfn=lambda I, s: (s.ts.get('t', ()),))
    I.fork_alloc = True
    f, args, st = entry_state(I, p, name, case)
    for rv, s in I.run(f, args, st):
        t = s.ts.get('t', ())
        if not t:
            continue
        ok, bad = split_success(I, s, rv)
        if ok and all(excused(x, t) for x in ok):
            continue
        if ok:
            res.fail("C19/allocation", "%s: %s" % (name, t[0]), "%s returns success although the %s failed" % (name, t[0]))
        else:
            res.good("C19/allocation", "%s: %s" % (name, t[0]))
    res.count("failing_allocations", fails)
    account(res, I)
    return res


def job_failure_lower(cfg, fname, kind):
    """backend factorisation entry points: a failing third-party factorisation is reported in the return value"""
    p = PG.load(cfg)
    res = Result()
    f = [g for g in p.allfuncs() if g.qname == fname][0]
    H = Failed()
    m = lin_models(base_models())
    fails = set()
    counts = [0]

    def fork(nm, bads, good):
        def g(I, st, inst, a, ctx):
            counts[0] += 1
            out = [good(I, st, inst, a, ctx)]
            for what, mk in bads:
                w = "%s (%s) at %s" % (nm, what, I.where(inst, ctx).split(' called')[0])
                s2 = st.copy()
                r = mk(I, s2, inst, a, ctx)
                if r is None:
                    continue
                fails.add(w)
                r[1].ts['t'] = r[1].ts.get('t') or (w, ctx)
                out.append(r)
            return out
        return g

    def sym(I, st, inst, a, ctx, nm):
        return I.fresh(st, ('ret', ctx, "%s@%s" % (nm, I.line(inst)), inst.res or str(inst.idx)))

    def q_good(I, st, inst, a, ctx):
        s = sym(I, st, inst, a, ctx, 'factor')
        I.havoc_args(st, inst, a, s) if hasattr(I, 'havoc_args') else None
        return (s, I.assume(st, c_lt(s, K0), False))

    def q_neg(I, st, inst, a, ctx):
        s = sym(I, st, inst, a, ctx, 'factor!')
        return (s, I.assume(st, c_lt(s, K0), True))

    def q_few(I, st, inst, a, ctx):
        return (K0, st)
    neg = [("negative result", q_neg)]
    m['QDLDL_factor'] = fork('QDLDL_factor', neg + ([("too few positive pivots", q_few)] if kind != 'rho' else []), q_good)
    m['QDLDL_etree'] = fork('QDLDL_etree', neg, q_good)
    m['amd_l_order'] = m['amd_order'] = fork('amd_order', neg, q_good)

    def par_good(I, st, inst, a, ctx):
        I.store(st, a[-1], K0, (ctx, I.line(inst), inst.idx))
        return (VOID, st)

    def par_bad(I, st, inst, a, ctx):
        s = sym(I, st, inst, a, ctx, 'pardiso!')
        st = I.assume(st, c_eq(s, K0), False)
        ph = I.load(st, a[4])
        if ph[0] == 'k' and ph[1] < 0:
            return None           # memory release
        I.store(st, a[-1], s, (ctx, I.line(inst), inst.idx))
        return (VOID, st)
    m['PARDISO'] = m['pardiso'] = m['pardiso_64'] = fork('PARDISO', [("nonzero error", par_bad)], par_good)
    I = absint.Interp(p, m, H, keyfn=lambda I, s: (s.ts.get('t', ()),))
    st = absint.State()
    args = [ARG(a) for t, a in f.args]
    for a, t in zip(args, p.signature(f)):
        if t.endswith('*') and kind != 'init':
            st = nonnull(I, st, a)
    pm = args[1]
    for x in (member(pm, 'csc', 'n'), member(args[0], 'n'), member(pm, '$rows')):
        try:
            st = I.assume(st, c_lt(K0, x), True) or st
        except (KeyError, TypeError):
            pass
    con = "%s [%s]" % (f.name, cfg)
    try:
        for rv, s in I.run(f, args, st):
            t = s.ts.get('t', ())
            if not t:
                continue
            ok, bad = split_success(I, s, rv)
            if ok:
                res.fail("C19/backend", "%s: %s" % (f.name, t[0]), "returns success although %s reported a failure" % t[0])
            else:
                res.good("C19/backend", "%s: %s" % (f.name, t[0]))
    except absint.Abort as e:
        res.undecided("C19/backend", con, str(e))
    res.count("failing_calls", fails)
    account(res, I)
    return res


# ---------------------------------------------------------------- jobs
def sections_lower(cfg, skip):
    p = PG.load(cfg)
    S = Scan(p)
    out = []
    for f in p.allfuncs():
        if f.qname in skip or 'profiler_sec' in f.name:
            continue
        if any(('profiler_sec_p' in (c if isinstance(c, str) else c.name)) for c, i in S.callees(f)):
            out.append(f.qname)
    return sorted(out)


NOCODE = ('osqp_codegen',)


def runjob(f, *a):
    return globals()[f](*a)


def collect(pid, tier):
    J = []
    res = None
    cfgs = {'C32': ('mkl', 'builtin'), 'C22': ('mkl', 'builtin'), 'C35': ('mklprof', 'prof'), 'C14': ('mkl', 'builtin'), 'C19': ('mkl', 'builtin')}[pid]
    job = {'C32': 'job_print', 'C22': 'job_listener', 'C35': 'job_sections', 'C14': 'job_alloc', 'C19': 'job_failure'}[pid]
    for c in cfgs:
        p = PG.load(c)
        names = [n for n in public(p) if n not in NOCODE] + ['osqp_setup']
        for n in names:
            cases = [{}]
            if n == 'osqp_solve':
                cases = [{'scaling': a, 'polishing': b} for a in (0, '+') for b in (0, 1)]
                if pid == 'C19':
                    cases = [dict(x, polishing=x['polishing']) for x in cases if x['scaling'] == 0 or not x['polishing']]
            if pid == 'C14':
                if n in ('osqp_setup', 'osqp_cleanup') or n.startswith('osqp_adjoint'):
                    continue
                cases = [dict(x) for x in cases if not x.get('polishing')]
            if pid == 'C19' and n.startswith('osqp_adjoint'):
                continue
            for x in cases:
                if pid == 'C32':
                    x = dict(x, verbose=0)
                J.append((job, c, n, x))
            if pid in ('C35', 'C22') and n != 'osqp_setup':
                J.append((job, c, n, {'$null': 1}))
        if pid == 'C19':
            S = Scan(p)
            for k, fld in (('matrices', 'update_matrices'), ('rho', 'update_rho_vec')):
                for g in sorted(S.tables.get(fld, ()), key=lambda g: g.qname):
                    J.append(('job_failure_lower', c, g.qname, k))
            J.append(('job_failure_lower', c, 'osqp_algebra_init_linsys_solver', 'init'))
            J.append(('job_failure_alloc', c, 'osqp_solve', {'polishing': 1}))
    J.sort(key=lambda j: j[2] != 'osqp_solve')
    res = parallel(runjob, J)
    if pid == 'C32':
        res.merge(parallel(runjob, [('job_print_lower', c, q) for c, q in sorted(res.info.pop("below", ()))]))
    if pid == 'C35':
        done = res.info.get("functions", set())
        J = []
        for c in cfgs:
            J += [('job_sections_lower', c, q) for q in sections_lower(c, done)]
        res.merge(parallel(runjob, J))
    return res
