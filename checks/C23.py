"""C23: solver objects are independent of each other (no mutable global state)."""
from osqpsa.lib import *

# libc/third-party functions whose effect or result depends on hidden process-wide state
HIDDEN = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'srand48', 'rand_r_', 'strtok', 'setlocale', 'setenv', 'putenv', 'unsetenv',
          'fesetround', 'fesetenv', 'omp_set_num_threads', 'MKL_Set_Num_Threads',
          'mkl_set_num_threads', 'MKL_Set_Dynamic', 'mkl_set_dynamic', 'mkl_set_num_threads_local', 'MKL_Set_Num_Threads_Local', 'chdir',
          'umask', 'atexit', 'setjmp', 'longjmp', 'tmpnam'}


def handlers(p):
    """functions that may run as signal handlers: address taken in a function that calls sigaction/signal"""
    out, inst = set(), set()
    for f in p.allfuncs():
        calls = [i for b in f.order for i in b.insts if i.op == 'call' and i.x["callee"][0] == 'glob']
        if any(i.x["callee"][1] in ('sigaction', 'signal', 'SetConsoleCtrlHandler') for i in calls):
            inst.add(f)
            for b in f.order:
                for i in b.insts:
                    vs = list(i.ops) + ([v for _, v in i.x["args"]] if i.op == 'call' else [])
                    for v in vs:
                        if v[0] == 'glob':
                            g = p.resolve(v[1], f.module)
                            if g is not None and i.op in ('store', 'call') and not (i.op == 'call' and i.x["callee"] == v):
                                out.add(g)
    return out, inst


def main(pid, t0):
    res = Result()
    cfgs = ('mkl', 'builtin', 'mklprof')
    for cfg in cfgs:
        p = PG.load(cfg)
        hs, installers = handlers(p)
        nf = 0
        for f in p.allfuncs():
            nf += 1
            for b in f.order:
                for i in b.insts:
                    if i.op == 'call' and i.x["callee"][0] == 'glob' and i.x["callee"][1] in HIDDEN and \
                            p.resolve(i.x["callee"][1], f.module) is None:
                        res.fail("hidden-state", "%s calls %s" % (f.name, i.x["callee"][1]),
                                 "%s:%s uses process-wide state of the C library/third-party library" % (PG.rel(f.module.src), f.name))
            res.good("hidden-state", f.name)
        res.count("functions scanned (%s)" % cfg, nf)
        for m in p.modules:
            for g in m.globals.values():
                if g.external:
                    continue
                src = PG.rel(m.src)
                c = "%s %s" % (src, g.name)
                if g.const:
                    res.good("immutable-global", c)
                    continue
                if 'profiler' in src or 'algebra_libs' in src or src.startswith('algebra/mkl/lin_sys') and g.name.startswith('mkl_'):
                    res.good("exempt-global", c)
                    continue
                us = p.globuse.get(g, [])
                # process-wide interrupt flag: written only by the handler and by functions that install it
                bad = []
                for kind, i in us:
                    if kind == 'load':
                        continue
                    if i is None:
                        bad.append((kind, "initialiser of another global"))
                        continue
                    fn = i.fn
                    if kind == 'write' and (fn in hs or fn in installers):
                        continue
                    if kind == 'escape' and i.op == 'call' and i.x["callee"][0] == 'glob' and i.x["callee"][1] in \
                            ('sigaction', 'signal', 'sigemptyset', 'sigprocmask') :
                        continue
                    bad.append((kind, "%s (%s)" % (fn.name, absint.Interp(p).line(i))))
                if bad:
                    res.fail("mutable-global", c, "mutable static/global state outside the interrupt listener: " +
                             ", ".join("%s in %s" % x for x in bad[:6]))
                else:
                    res.good("mutable-global", c)
    return finish(pid, res, "All global and function-static variables of every compiled source (MKL, MKL with profiling, built-in algebra with "
                  "QDLDL, code generation and derivatives) are enumerated from the compiler IR; each mutable one must be the interrupt flag "
                  "or saved handler (written only by the signal handler or the functions installing it); calls to functions with hidden "
                  "process-wide state are forbidden.", {"immutable-global": 20, "mutable-global": 2, "hidden-state": 100}, t0,
                  ["third-party libraries (MKL, QDLDL, AMD) keep no state shared between handles"])
