"""C10: every public function with a solver handle, interpreted with a NULL handle and with a handle without workspace"""
import re
from .lib import *
from . import prog as PG, absint
from .terms import *
from .apichk import lin_models

EXEMPT_RET = {'osqp_cleanup'}      # documented to accept anything


def based_null(p):
    """is the address NULL or an offset from NULL?"""
    for n in range(40):
        if p is K0:
            return True
        if p is not None and p[0] == 'ptr':
            p = p[1]
        else:
            return False
    return False


class NullHooks:
    def __init__(self):
        self.bad = {}
        self.derefs = 0

    def hit(self, I, inst, ctx, what):
        self.bad.setdefault(I.where(inst, ctx), what)

    def on_deref(self, I, s, p, inst, ctx, is_store):
        self.derefs += 1
        if based_null(p):
            self.hit(I, inst, ctx, "write" if is_store else "read")

    def on_call(self, I, s, name, args, inst, ctx):
        if name in ('memcpy', 'memmove', 'strlen', 'strcpy', 'strncpy', 'strcat', 'memset') or name.startswith('llvm.mem'):
            for a in args[:2 if 'set' not in name and name != 'strlen' else 1]:
                if a is K0 and not (len(args) > 2 and args[2] is K0):
                    self.hit(I, inst, ctx, name)


def handles(p):
    out = []
    for f in p.allfuncs():
        if f.internal or not f.args:
            continue
        sig = p.signature(f)
        d = p.declfile(f)
        if not sig or not re.match(r'OSQPSolver\s*\*$', sig[0].replace('const ', '')):
            continue
        out.append((f, sig))
    return out


def byname(p, n):
    for f in p.allfuncs():
        if f.name == n and not f.internal:
            return f
    return None


def public_names(repo):
    """names declared in the public API header (the anchors of the property)"""
    s = open(repo + "/include/public/osqp_api_functions.h").read()
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    return sorted(set(re.findall(r'\b(\w+)\s*\(\s*OSQPSolver\s*\*(?!\s*\*)\s*\w*', s)))


def job(cfg, name, mode):
    p = PG.load(cfg)
    res = Result()
    f = byname(p, name)
    NI, NOTIMPL = p.enums['OSQP_WORKSPACE_NOT_INIT_ERROR'], p.enums.get('OSQP_FUNC_NOT_IMPLEMENTED')
    H = NullHooks()
    I = absint.Interp(p, lin_models(base_models()), H)
    st = absint.State()
    args = [ARG(a) for t, a in f.args]
    con = "%s(%s) [%s]" % (name, "NULL" if mode == 'null' else "solver without workspace", cfg)
    if mode == 'null':
        args[0] = K0
    else:
        st = nonnull(I, st, args[0])
        I.store(st, mkptr(args[0], ('work',)), K0, (0, 0, 0))
    sig = p.signature(f)
    # plain output pointers are valid
    for a, t in zip(args[1:], sig[1:]):
        if t.endswith('*') and not t.endswith('**'):
            st = nonnull(I, st, a) or st
    rets = []
    try:
        for rv, s in I.run(f, args, st):
            rets.append((rv, s))
    except absint.Abort as e:
        res.undecided("C10/returns", con, "not interpretable: %s" % e)
        return res
    for w, what in sorted(H.bad.items()):
        res.fail("C10/no-dereference", "%s at %s" % (con, w.split(' called')[0]), "the missing object is accessed (%s)" % what)
    if not H.bad:
        res.good("C10/no-dereference", con)
    if not rets:
        res.fail("C10/returns", con, "no path returns")
    for rv, s in rets:
        if name in EXEMPT_RET or rv is None or rv is VOID:
            res.good("C10/returns", con)
            continue
        if rv[0] == 'k' and rv[1] in (NI, NOTIMPL):
            if rv[1] == NOTIMPL and NI != NOTIMPL and len(f.insts() if isinstance(f.insts(), list) else list(f.insts())) > 60:
                res.fail("C10/returns", con, "returns not-implemented although the function is implemented in this build")
            else:
                res.good("C10/returns", con)
        elif rv[0] == 'k':
            res.fail("C10/returns", con, "returns %s instead of the workspace-not-initialised error" % (rv[1],))
        else:
            st2 = I.assume(s.copy(), c_eq(rv, kk(NI)), False)
            if st2 is None:
                res.good("C10/returns", con)
            else:
                res.fail("C10/returns", con, "does not always return the workspace-not-initialised error")
    res.count("dereferences", H.derefs)
    account(res, I)
    return res


def collect():
    names = public_names(PG.REPO)
    J = []
    res = Result()
    for c in ('mkl', 'builtin', 'mklprof'):
        p = PG.load(c)
        have = 0
        for n in names:
            if byname(p, n) is None:
                res.fail("C10/defined", "%s [%s]" % (n, c), "declared in the public header but not defined")
                continue
            have += 1
            J += [(c, n, m) for m in ('null', 'nowork')]
        res.count("handle_functions", have)
    out = parallel(job, J)
    out.merge(res)
    return out
