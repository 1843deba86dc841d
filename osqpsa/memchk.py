"""C13: failing allocations; C12: release of what was acquired"""
import os
from .pathchk import *
from .nullchk import based_null
from . import terms as T


class NullFlow(Paths):
    """one allocation fails on the path; the missing block must not be used and the call must fail"""

    def __init__(self, p, res, rule="C13/no-use"):
        super().__init__()
        self.p, self.res, self.rule = p, res, rule
        self.fails = set()
        self.models = {}
        self.sum = {}

    def on_alloc(self, I, s, v, inst, ctx, obj):
        if v is K0:
            w = "allocation at %s" % I.where(inst, ctx).split(' called')[0]
            self.fails.add(w)
            sz = requested(I, s, inst)
            t = s.ts.get('t')
            if t and not excused(s, t):
                return False                 # one failure per path
            s.ts['t'] = (w, ctx, sz)

    def hit(self, I, s, inst, ctx, what):
        t = s.ts.get('t')
        if t and not excused(s, t):
            self.res.fail(self.rule, "%s used at %s" % (t[0], I.where(inst, ctx).split(' called')[0]), "the block whose allocation failed is used (%s)" % what)

    def on_deref(self, I, s, p, inst, ctx, is_store):
        if based_null(p):
            self.hit(I, s, inst, ctx, "write" if is_store else "read")

    def step(self, I, s, t, name, args, inst, ctx):
        if not t:
            return None
        if name in ('memcpy', 'memmove', 'strlen', 'strcpy', 'memset') or name.startswith('llvm.mem'):
            for a in args[:1 if 'set' in name else 2]:
                if a is K0:
                    self.hit(I, s, inst, ctx, name)
        elif name in I.models and any(a is K0 for a in args) and name not in ('free', 'MKL_free'):
            for k, a in enumerate(args):
                if a is K0 and self.needs(name, k):
                    self.hit(I, s, inst, ctx, "%s argument %d" % (name, k + 1))
        return None

    def needs(self, name, k):
        """does the function dereference its k-th argument when that is NULL?"""
        r = self.sum.get((name, k))
        if r is not None:
            return r
        f = self.p.funcs.get(name)
        r = False
        if f is not None and k < len(f.args) and f.args[k][0].k == 'ptr':
            hits = []

            class H:
                def on_deref(self, I, s, p, inst, ctx, st):
                    if based_null(p):
                        hits.append(1)
            m = {n: g for n, g in base_models().items() if not n.startswith('OSQP')}
            I = absint.Interp(self.p, m, H())
            args = [K0 if j == k else ARG(a) for j, (t, a) in enumerate(f.args)]
            st = absint.State()
            for j, (t, a) in enumerate(f.args):
                if j != k and t.k == 'ptr':
                    st = nonnull(I, st, ARG(a))
            try:
                I.blocks = 2000
                for rv, s in I.run(f, args, st):
                    pass
            except absint.Abort:
                pass
            r = bool(hits)
        self.sum[(name, k)] = r
        return r


# which release function belongs to which acquiring function
RELEASE = {}
for _a in ('malloc', 'calloc', 'realloc', 'aligned_alloc', 'strdup'):
    RELEASE[_a] = 'free'
for _a in ('MKL_malloc', 'MKL_calloc', 'mkl_malloc', 'mkl_calloc', 'MKL_realloc', 'blas_malloc'):
    RELEASE[_a] = 'MKL_free'
for _a in ('OSQPVectorf_malloc', 'OSQPVectorf_calloc', 'OSQPVectorf_new', 'OSQPVectorf_copy_new', 'OSQPVectorf_subvector_byrows', 'OSQPVectorf_concat'):
    RELEASE[_a] = 'OSQPVectorf_free'
for _a in ('OSQPVectori_malloc', 'OSQPVectori_calloc', 'OSQPVectori_new'):
    RELEASE[_a] = 'OSQPVectori_free'
RELEASE['OSQPVectorf_view'] = 'OSQPVectorf_view_free'
for _a in ('OSQPMatrix_new_from_csc', 'OSQPMatrix_copy_new', 'OSQPMatrix_submatrix_byrows', 'OSQPMatrix_vstack'):
    RELEASE[_a] = 'OSQPMatrix_free'
RELEASE['osqp_algebra_init_linsys_solver'] = '*free'
RELEASE['mkl_sparse_d_create_csc'] = RELEASE['mkl_sparse_d_create_csr'] = 'mkl_sparse_destroy'
RELEASE['fopen'] = 'fclose'
RELEASERS = set(RELEASE.values()) | {'mkl_free'}


class Heap(NullFlow):
    """tracks the blocks acquired and not yet released on the path: ts['live'] = {(object, where, acquiring function)}"""

    def __init__(self, p, res, rule="C12/released"):
        super().__init__(p, res, "C13/no-use")
        self.hrule = rule
        self.sites = set()
        self.rel = set()
        self.own_free = False        # may the call release blocks acquired by earlier calls?
        self.muted = False

    def live(self, s):
        return s.ts.get('live', frozenset())

    def key(self, I, s):
        return (s.ts.get('t', ()), self.live(s))

    def on_alloc(self, I, s, v, inst, ctx, obj):
        if super().on_alloc(I, s, v, inst, ctx, obj) is False:
            return False
        if v is not K0:
            w = I.where(inst, ctx).split(' called')[0]
            self.sites.add(w)
            old = [x for x in self.live(s) if x[0] == v]
            if old:
                self.res.fail("C12/leak", "block of %s" % old[0][1], "overwritten by a second allocation at the same place before it was released")
            s.ts['live'] = frozenset(x for x in self.live(s) if x[0] != v) | {(v, w, inst.x["callee"][1] if inst.x["callee"][0] == 'glob' else '?')}

    def step(self, I, s, t, name, args, inst, ctx):
        super().step(I, s, t, name, args, inst, ctx)
        if name in RELEASERS and args and (name in I.models or name not in self.p.funcs):
            self.release(I, s, args[0], name, inst, ctx)
        return None

    def release(self, I, s, a, name, inst, ctx):
        if a is K0:
            return
        w = I.where(inst, ctx).split(' called')[0]
        self.rel.add(w)
        alts = [a]
        if a in s.vals:
            alts = [x for x in s.vals[a] if x is not K0]
        L = self.live(s)
        gone = set()
        for x in alts:
            hit = [l for l in L if l[0] == x]
            if hit:
                gone.add(hit[0])
                want = RELEASE.get(hit[0][2])
                if want and want != name and not (want == 'MKL_free' and name == 'mkl_free'):
                    self.res.fail("C12/matching", "%s at %s" % (name, w), "releases a block acquired with %s at %s" % (hit[0][2], hit[0][1]))
                else:
                    self.res.good("C12/matching", "%s at %s" % (name, w))
            elif x[0] == 'alloc':
                if len(alts) == 1:
                    self.res.fail("C12/once", "%s at %s" % (name, w), "releases a block that was already released (acquired at %s)" % x[2:3])
            elif x[0] == 'ptr' and x[1][0] in ('alloc', 'ptr'):
                self.res.fail("C12/once", "%s at %s" % (name, w), "releases an address inside another block")
            elif not self.own_free and x[0] in ('init', 'arg') and not self.muted:
                self.res.fail("C12/own", "%s at %s" % (name, w), "releases %s, which the call did not acquire" % T.show(x)[:80])
        if gone:
            s.ts['live'] = L - gone


def linsys_model(p):
    def g(I, st, inst, a, ctx):
        out = []
        for v, s in I.alloc(st, inst, ctx, 'linsys'):
            s = s.copy()
            I.store(s, a[0], v)
            if v is not K0:
                s = I.assume(s, c_eq(I.load(s, absint.mkptr(v, ('free',))), K0), False)
            out.append((K0 if v is not K0 else kk(1), s))
        return out
    return g


def leaks(res, H, s, what, con, keep=()):
    left = [l for l in H.live(s) if l[0] not in keep]
    for l in left:
        res.fail("C12/leak", "%s: block acquired at %s" % (con, l[1]), "still held %s" % what)
    if not left:
        res.good("C12/leak", con)


def job_heap_prefix(cfg, name, case):
    """a function too large to be covered: only its beginning is explored, and all uses of missing blocks are one construct"""
    r = job_heap(cfg, name, case, 250)
    res = Result()
    n = 0
    for (rule, con), msg in r.bad.items():
        if rule == 'C13/no-use' and ('(%s)' % name.replace('osqp_', '', 1)) in con.split(' used at ')[0]:
            n += 1
            continue
        res.bad[(rule, con)] = msg
    if n:
        res.fail("C13/no-use", name, "blocks whose allocation failed are used")
    else:
        res.good("C13/no-use", name)
    res.undecided("C13/reported", name, "only the beginning of the function is explored")
    return res


def job_heap(cfg, name, case, blocks=400000):
    """a public call: every block it acquires is released or handed to the solver, which osqp_cleanup releases; failing allocations"""
    p = PG.load(cfg)
    res = Result()
    H = Heap(p, res)
    m = lin_models(base_models())
    m['osqp_algebra_init_linsys_solver'] = linsys_model(p)
    I = absint.Interp(p, m, H, keyfn=H.key)
    I.fork_alloc = True
    I.maxstates = 4000
    I.blocks = blocks
    f, args, st = entry_state(I, p, name, case)
    H.own_free = name == 'osqp_cleanup'
    clean = byname(p, 'osqp_cleanup')
    try:
        exits = list(I.run(f, args, st))
        for rv, s in exits:
            t = s.ts.get('t', ())
            ok, bad = split_success(I, s, rv)
            if t and not (ok and all(excused(x, t) for x in ok)):
                if ok:
                    res.fail("C13/reported", "%s: %s" % (name, t[0]), "%s returns success although the %s failed" % (name, t[0]))
                else:
                    res.good("C13/reported", "%s: %s" % (name, t[0]))
            con = "%s%s" % (name, ": after the failed " + t[0] if t else "")
            if name != 'osqp_setup':
                leaks(res, H, s, "when %s returns" % name, con)
                continue
            h = I.load(s, args[0])
            if h[0] != 'alloc':
                leaks(res, H, s, "although no solver was created", con)
                continue
            I.fork_alloc = False
            H.own_free = True
            for rv2, s2 in I.run(clean, [h], s.copy()):
                leaks(res, H, s2, "after osqp_cleanup", con + ", then osqp_cleanup")
            H.own_free = False
            I.fork_alloc = True
    except absint.Abort as e:
        res.undecided("C13/reported", name, str(e))
        res.undecided("C12/leak", name, str(e))
    for w in H.fails:
        res.good("C13/no-use", "%s: %s" % (name, w))
    res.count("failing_allocations", H.fails)
    res.count("acquisitions", H.sites)
    res.count("releases", H.rel)
    account(res, I)
    return res


def sparse_model(I, st, inst, a, ctx):
    out = []
    for v, s in I.alloc(st, inst, ctx, 'linsys'):
        s = s.copy()
        if v is not K0:
            I.store(s, a[0], v)
        out.append((K0 if v is not K0 else kk(2), s))
    return out


def job_heap_lower(cfg, aname, rname):
    """an acquiring function below the interpreted level followed by the function that releases its result"""
    p = PG.load(cfg)
    res = Result()
    f = byname(p, aname)
    r = byname(p, rname) if rname else None
    if f is None or (rname and r is None):
        return res
    H = Heap(p, res)
    m = lin_models(base_models())
    if aname in m:
        # the functions behind the models are interpreted themselves
        m = {n: g for n, g in m.items() if not (n.startswith('OSQPVector') or n.startswith('OSQPMatrix'))}
    m.pop(rname, None)
    m['mkl_sparse_d_create_csc'] = m['mkl_sparse_d_create_csr'] = sparse_model
    m.pop(aname, None)
    I = absint.Interp(p, m, H, keyfn=H.key)
    I.fork_alloc = True
    I.maxstates = 4000
    I.blocks = 300000
    st = absint.State()
    args = [ARG(a) for t, a in f.args]
    for (t, a) in f.args:
        if t.k == 'ptr' and not (rname is None and a == 'rho_vec'):
            st = nonnull(I, st, ARG(a))
    H.muted = True
    try:
        exits = list(I.run(f, args, st))
        for rv, s in exits:
            t = s.ts.get('t', ())
            ok, bad = split_success(I, s, rv)
            if f.ret.k == 'ptr':
                ok, bad = bad, ok
            con = "%s%s" % (aname, ": after the failed " + t[0] if t else "")
            if t and not (ok and all(excused(x, t) for x in ok)):
                if ok:
                    res.fail("C13/reported", con, "%s reports success although the %s failed" % (aname, t[0]))
                else:
                    res.good("C13/reported", con)
            h = rv if f.ret.k == 'ptr' else I.load(s, args[0])
            if h[0] != 'alloc':
                leaks(res, H, s, "although the call failed", con)
                continue
            rel, rargs = r, [h]
            if rel is None:
                fp = I.load(s, absint.mkptr(h, ('free',)))
                rel = [g for g in p.allfuncs() if fp[0] == 'fn' and fp[1] in (g.name, g.qname)]
                if not rel:
                    res.undecided("C12/leak", con, "the release function of the object is unknown")
                    continue
                rel = rel[0]
            I.fork_alloc = False
            H.own_free = True
            for rv2, s2 in I.run(rel, rargs, s.copy()):
                leaks(res, H, s2, "after %s" % rel.name, con + ", then " + rel.name)
            H.own_free = False
            I.fork_alloc = True
    except absint.Abort as e:
        res.undecided("C12/leak", aname, str(e))
        res.undecided("C13/reported", aname, str(e))
    for w in H.fails:
        res.good("C13/no-use", "%s: %s" % (f.name, w))
    res.count("failing_allocations", H.fails)
    res.count("acquisitions", H.sites)
    res.count("releases", H.rel)
    account(res, I)
    return res


PAIRS = [(a, r) for a, r in RELEASE.items() if a.startswith('OSQP')] + [
    ('OSQPCscMatrix_new', 'OSQPCscMatrix_free'), ('OSQPCscMatrix_identity', 'OSQPCscMatrix_free'), ('OSQPCscMatrix_zeros', 'OSQPCscMatrix_free'),
    ('OSQPCscMatrix_diag_scalar', 'OSQPCscMatrix_free'), ('OSQPCscMatrix_diag_vec', 'OSQPCscMatrix_free'),
    ('OSQPSettings_new', 'OSQPSettings_free'), ('OSQPCodegenDefines_new', 'OSQPCodegenDefines_free'), ('OSQPTimer_new', 'OSQPTimer_free'),
    ('csc_spalloc', 'csc_spfree'), ('csc_copy', 'csc_spfree'), ('triplet_to_csc', 'csc_spfree'), ('csc_vstack', 'csc_spfree'), ('csc_submatrix_byrows', 'csc_spfree'),
    ('csc_symperm', 'csc_spfree'), ('csc_to_triu', 'csc_spfree'), ('csc_pinv', None),
    ('osqp_algebra_init_linsys_solver', None)]



DERIV = ("osqp_adjoint_derivative_compute",)


def runjob(f, *a):
    return globals()[f](*a)


def job_files(cfg, fname):
    """a function that opens files: each is closed on every path"""
    p = PG.load(cfg)
    res = Result()
    f = [g for g in p.allfuncs() if g.qname == fname][0]
    H = Heap(p, res)
    H.muted = H.own_free = True
    m = lin_models(base_models())
    m['fopen'] = lambda I, st, inst, a, ctx: I.alloc(st, inst, ctx, 'linsys')
    m['fclose'] = lambda I, st, inst, a, ctx: I.unknown(st, inst, a, ctx, 'fclose', havoc=False)
    I = absint.Interp(p, m, H, keyfn=H.key)
    I.fork_alloc = True
    I.blocks = 20000
    st = absint.State()
    args = [ARG(a) for t, a in f.args]
    for (t, a) in f.args:
        if t.k == 'ptr':
            st = nonnull(I, st, ARG(a))
    try:
        for rv, s in I.run(f, args, st):
            leaks(res, H, s, "when %s returns" % f.name, "%s%s" % (f.name, ": after the failed " + s.ts['t'][0] if s.ts.get('t') else ""), keep=(rv,))
    except absint.Abort as e:
        res.undecided("C12/leak", f.name, str(e))
    res.count("acquisitions", H.sites)
    res.count("releases", H.rel)
    account(res, I)
    return res


def collect(pid, tier):
    J = []
    for c in ('mkl', 'builtin'):
        p = PG.load(c)
        J.append(('job_heap', c, 'osqp_setup', {}))
        if tier == 'thorough':
            for a in (0, '+'):
                for b in (0, 1):
                    J.append(('job_heap', c, 'osqp_setup', {'scaling': a, 'rho_is_vec': b}))
        for a in (0, '+'):
            for b in (0, 1):
                J.append(('job_heap', c, 'osqp_solve', {'scaling': a, 'polishing': b}))
        for n in public(p):
            if n in ('osqp_setup', 'osqp_solve', 'osqp_codegen') or n in DERIV or byname(p, n) is None:
                continue
            J.append(('job_heap', c, n, {}))
        for n in DERIV:
            if byname(p, n) and c == 'builtin':
                J.append(('job_heap_prefix', c, n, {}))
        for a, r in PAIRS:
            if byname(p, a):
                J.append(('job_heap_lower', c, a, r))
        if pid == 'C12':
            S = Scan(p)
            for f in p.allfuncs():
                if any(x == 'fopen' for x, i in S.callees(f)):
                    J.append(('job_files', c, f.qname))
    return parallel(runjob, J)
