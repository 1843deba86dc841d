"""C24: every backend supplies the operations the solver calls, reports errors and releases what it holds.

The backends' operations are summarised as in kktchk (calls that leave the library stay symbolic); the outcomes of the calls that can
fail - allocations, analysis, factorisation, ordering, solve - are the cases of the summary which are examined one by one."""
from . import prog as PG, arrsum, kktchk
from .lib import Result, parallel
from .arrsum import Unknown, Wrong, C0
from .kktchk import KX, Build, CG, Pattern, HOLD, ALLOC

FREE = {'free', 'mkl_free', 'c_free', 'csc_spfree', 'OSQPVectorf_free', 'OSQPVectorf_view_free', 'OSQPVectori_free', 'OSQPVectori_view_free', 'OSQPMatrix_free', 'csc_free'}
RESOURCE = ('held by the direct solver',)


class FX(KX):
    """an allocated object may be NULL"""
    def known(self, c):
        if c[0] == 'icmp' and c[1] in ('eq', 'ne'):
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if b == C0 and a[0] in ('p', 'q') and a[1][0] in ('new', 'mat'):
                    return None
        return super().known(c)


class Faulty:
    """mixin over Build / CG: one call fails"""
    plan = None

    def setup(self, plan):
        self.plan = plan
        self.sites = []
        self.count = {}
        self.live, self.dead, self.failed = {}, {}, set()
        self.nsolver = 0

    def meet(self, label, where):
        """does this occurrence fail?"""
        k = self.count[label] = self.count.get(label, 0) + 1
        self.sites.append((label, k, where))
        if self.plan == (label, k):
            self.hit = where
            return True
        return False

    hit = None

    def obj(self, o):
        o = super().obj(o)
        if o in self.failed:
            return ('null',)
        b = o
        while isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], tuple):
            b = b[0]
            if b in self.failed:
                raise Wrong("a member of a structure that could not be allocated is used, at %s" % self.where)
        if b in self.dead and b != o:
            raise Wrong("memory released at %s is used again, at %s" % (self.dead[b], self.where))
        return o

    def cell(self, obj, i):
        o = self.obj(obj)
        if o in self.dead:
            raise Wrong("memory released at %s is used again, at %s" % (self.dead[o], self.where))
        return super().cell(obj, i)

    def atom(self, t):
        if t[0] == 'q':
            return 0 if self.obj(t[1]) == ('null',) else 1
        if t[0] in ('p', 'fld', 'at'):
            if t[0] == 'fld' and self.obj(t[1]) == ('null',):
                raise Wrong("a member of a NULL structure is read, at %s" % self.where)
        return super().atom(t)

    def setfield(self, f, v):
        if self.obj(f[1]) == ('null',):
            raise Wrong("a member of a structure that could not be allocated is written, at %s" % self.where)
        super().setfield(f, v)

    def write(self, obj, i, v):
        if self.obj(obj) == ('sp',):
            if v != 0:
                raise Unknown("the handle")
            self.solver = None
            return
        super().write(obj, i, v)

    def setptr(self, obj, idx, v):
        super().setptr(obj, idx, v)
        if self.solver in self.failed or self.solver == ('null',):
            self.solver = None

    def ext(self, n):
        self.where = n[3]
        name, args, r = n[1], n[2], n[4]
        if name in FREE:
            self.commit()
            self.release(args[0], n[3])
            return
        if r is not None and r[0] in ('p', 'q') and (r[1][0] in ('new', 'mat')):
            if name == 'OSQPVectorf_data' or name.endswith('_data'):
                super().ext(n)
                return
            if name == 'form_KKT' or name == 'csc_symperm' or r[0] == 'q' or name in ALLOC:
                if self.meet('the allocation' if name in ALLOC else name, n[3]):
                    self.commit()
                    self.failed.add(r[1])
                    if name == 'csc_symperm' and self.target(args[2]) not in (None, ('null',)):
                        t = self.target(args[2])        # what the map then contains does not matter
                        self.mem[t] = (None, {q: 0 for q in range(self.nz)})
                    return
                self.live[r[1]] = n[3]
        super().ext(n)

    def release(self, a, where):
        o = self.target(a)
        if o is None:
            raise Unknown("what is released at %s" % where)
        if o == ('null',):
            return
        if o in self.dead:
            raise Wrong("memory released at %s is released again at %s" % (self.dead[o], where))
        if o not in self.live:
            raise Wrong("the backend releases, at %s, what it did not allocate" % where)
        if o == self.solver_obj() and RESOURCE in self.live:
            raise Wrong("the direct solver's own memory (taken at %s) is not released before its handle, at %s" % (self.live[RESOURCE], where))
        del self.live[o]
        self.dead[o] = where

    def solver_obj(self):
        return self.handle

    handle = None

    def outcome(self, n, name, args):
        r = n[4]
        if name.lower() in ('pardiso', 'pardiso_64'):
            self.pardiso(n, args)
            if r is not None:
                self.scal[r[1]] = 0
            return
        super().outcome(n, name, args)
        if r is None or r[0] != 's':
            return
        bad = None
        if name == 'QDLDL_factor':
            if self.meet('the factorisation (zero pivot)', n[3]):
                bad = -1
            if self.meet('the factorisation (too few positive pivots)', n[3]):
                bad = self.pat.n - 1
        elif name == 'QDLDL_etree':
            for k in (-1, -2):
                if self.meet('the elimination tree (%d)' % k, n[3]):
                    bad = k
        elif name in ('amd_order', 'amd_l_order'):
            for k in (-1, -2):
                if self.meet('the ordering (%d)' % k, n[3]):
                    bad = k
        if bad is not None:
            self.scal[r[1]] = bad

    def pardiso(self, n, args):
        ph = self.ev(args[4])
        err = args[15]
        if ph == -1:
            self.live.pop(RESOURCE, None)
            self.commit()
            if err[0] == 'at':
                self.flds[(self.obj(err[1]), err[2])] = -4 if self.meet('the cleanup', n[3]) else 0
            return
        super().pardiso(n, args)
        h = self.target(args[0])
        if self.handle is None and isinstance(h, tuple) and len(h) == 2:
            self.handle = h[0]
        if ph in (11, 12, 13, 22, 23):
            self.live[RESOURCE] = n[3]
        if err[0] == 'at' and self.meet({11: 'the analysis', 22: 'the factorisation', 33: 'the solve'}.get(ph, 'phase %s' % ph), n[3]):
            self.flds[(self.obj(err[1]), err[2])] = -4
        if ph in (12, 22) and self.meet('the factorisation (too few positive eigenvalues)', n[3]):
            ip = self.target(args[11])
            self.mem[ip][1][21] = self.pat.n - 1


class Direct(Faulty, Build):
    pass


class Iterative(Faulty, CG):
    def ext(self, n):
        super().ext(n)
        if n[1] == 'dcg_check' and self.meet("the check of the iterative solver's parameters", n[3]):
            for q in range(len(n[2])):
                self.scal[('out', self.numof(n), q)] = -1001

    def requests(self, L):
        if self.meet('the iteration', L.where):
            self.rci = -2
            o = self.run(L.body)
            self.rci = 0
            if o[0] != 'exit':
                raise Wrong("the loop at %s goes on after the library reported an error" % L.where)
            return o[1]
        return super().requests(L)


def kinds(p):
    e = {'direct': p.enums.get('OSQP_DIRECT_SOLVER')}
    if 'dcg' in extern(p):
        e['iterative'] = p.enums.get('OSQP_INDIRECT_SOLVER')
    return {k: v for k, v in e.items() if v is not None}


def extern(p):
    s = set()
    for f in p.funcs.values():
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'call' and i.x['callee'][0] == 'glob' and i.x['callee'][1] not in p.funcs:
                    s.add(i.x['callee'][1])
    return s


def summ(p, kind, name, args, const):
    hold = HOLD + tuple(f for f in FREE if f in p.funcs)
    if kind == 'iterative':
        hold += tuple(n for n in p.funcs if n.startswith(('OSQPVector', 'OSQPMatrix')))
    X = FX(p, hold=hold, soft=True, limit=60000)
    X.const = const
    return X.function(p.funcs[name], args)


_t = {}


def start(p, kind, polishing, vec, plan, seed=0):
    pat = Pattern(seed)
    B = (Direct if kind == 'direct' else Iterative)(p, pat, seed)
    B.setup(plan)
    S_ = ('set',)
    if kind == 'iterative':
        B.flds[(S_, 'cg_precond')] = p.enums.get('OSQP_DIAGONAL_PRECONDITIONER', 1)
    B.mem[('res', 1)] = B.mem[('res', 2)] = (1, {0: .5})
    key = id(p), kind, polishing, vec
    if key not in _t:
        _t[key] = summ(p, kind, 'osqp_algebra_init_linsys_solver', [('p', ('sp',), C0), ('q', ('Pm',)), ('q', ('Am',)), ('q', ('rho',)) if vec else C0, ('q', S_),
                       ('p', ('res', 1), C0), ('p', ('res', 2), C0), ('c', polishing)], {(S_, 'linsys_solver'): ('c', kinds(p)[kind])})
    o = B.run(_t[key])
    B.commit()
    if o[0] != 'ret':
        raise Unknown("initialisation: %s" % (o[1:],))
    return B, B.ev(o[1])


def member(p, B, name):
    """the operation at the place of the member the solver uses"""
    g = next((v for k, v in p.fields.items() if k.split('.')[-1] in ('linsys_solver', 'LinSysSolver')), None)
    have = {f for o, f in list(B.ptrf) + list(B.flds) if o == B.solver}
    if g and name in g:
        k = g.index(name)
        own = [v for q, v in p.fields.items() if have <= set(v) and len(v) > k]
        if own:
            mine = {v[k] for v in own}
            if len(mine) == 1:
                name = mine.pop()
    return B.ptrf.get((B.solver, name))


def run_op(p, kind, B, name, args):
    t = member(p, B, name)
    if t is None or t[0] != 'fn':
        raise Wrong("the operation '%s' is not supplied" % name)
    B.events = []
    B.hit = None
    o = B.run(summ(p, kind, t[1], [('q', B.solver)] + args, {}))
    B.commit()
    if o[0] != 'ret':
        raise Unknown("%s: %s" % (t[1], o[1:]))
    return t[1], (B.ev(o[1]) if len(o) > 1 and o[1] is not None else None)


def dispose(p, kind, B, after):
    t = member(p, B, 'free')
    if t is None or t[0] != 'fn':
        raise Wrong("the backend supplies no operation to release it %s" % after)
    if B.handle is None:
        B.handle = B.solver
    if B.solver not in B.live:
        raise Wrong("the handle designates released memory %s" % after)
    run_op(p, kind, B, 'free', [])
    if B.live:
        o, w = next(iter(B.live.items()))
        raise Wrong("what was allocated at %s is not released %s" % (w, after))


def wanted(p):
    """{member index: (argument types, where)} of the operations the solver calls without having tested the member, and the data members it reads"""
    g = next((v for k, v in p.fields.items() if k.split('.')[-1] in ('linsys_solver', 'LinSysSolver')), None)
    if g is None:
        raise Unknown("structure of the backends")
    want, data = {}, {}
    for f in p.funcs.values():
        insts = [i for b in f.blocks.values() for i in b.insts]
        at, ld = {}, {}
        for i in insts:
            if i.op == 'gep' and str(i.x[0]).split('.')[-1] in ('linsys_solver', 'LinSysSolver') and len(i.x[1]) == 3 and i.x[1][2][1][0] == 'const':
                at[i.res] = i.x[1][2][1][1]
            if i.op == 'gep' and str(i.x[0]).split('.')[-1] in ('linsys_solver', 'LinSysSolver') and len(i.x[1]) == 1:
                at[i.res] = 0
        for i in insts:
            if i.op == 'load' and i.ops[0][0] == 'reg' and i.ops[0][1] in at:
                ld[i.res] = at[i.ops[0][1]], i
        tested, called = set(), set()
        for i in insts:
            if i.op == 'icmp':
                tested |= {ld[v[1]][0] for v in i.ops if v[0] == 'reg' and v[1] in ld}
        for i in insts:
            if i.op == 'call' and i.x['callee'][0] == 'reg' and i.x['callee'][1] in ld:
                k = ld[i.x['callee'][1]][0]
                called.add(k)
                if k not in tested:
                    want[k] = [str(t) for t, v in i.x['args']], i
        for k, i in ld.values():
            if i.ty.k != 'ptr':
                data[k] = i
    return g, want, data


def args_for(B, name, vec):
    pat = B.pat
    if name == 'solve':
        b = {i: B.R.uniform(-3, 3) for i in range(B.N)}
        if isinstance(B, CG):
            B.vec[('b',)] = list(b.values())
        else:
            B.vector('b', B.N, b)
        return [('q', ('b',)), ('c', 5)]
    if name == 'update_rho_vec':
        new = {i: B.R.uniform(.1, 2) for i in range(pat.m)}
        B.scal['rho_sc'] = .7
        if isinstance(B, CG):
            B.vec[('rho2',)] = list(new.values())
        else:
            B.vector('rho2', pat.m, new)
        return [('q', ('rho2',)) if vec else C0, ('s', 'rho_sc')]
    if name == 'update_matrices':
        return [('q', ('Pm',)), C0, ('c', len(pat.Px)), ('q', ('Am',)), C0, ('c', len(pat.Ax))]
    if name == 'warm_start':
        if isinstance(B, CG):
            B.vec[('x0',)] = [.5] * pat.n
        else:
            B.vector('x0', pat.n, {i: .5 for i in range(pat.n)})
        return [('q', ('x0',))]
    if name == 'update_settings':
        return [('q', ('set',))]
    return []


# ----------------------------------------------------------------------------- obligations
def names(what, kind, polishing, vec, cfg):
    return "%s solver: %s%s, %s penalty [%s]" % (kind, what, ' for polishing' if polishing else '', 'vector' if vec else 'scalar', cfg)


def attempt(rule, con, f):
    res = Result()
    try:
        f(res)
    except Wrong as w:
        res.fail(rule, con, str(w))
    except (Unknown, KeyError, RecursionError, TypeError, IndexError) as e:
        res.undecided(rule, con, "%s %s" % (type(e).__name__, e))
    else:
        res.good(rule, con)
    return res


def interface(cfg, kind, polishing, vec):
    p = PG.load(cfg)
    rule, con = "C24/operations", names('operations', kind, polishing, vec, cfg)

    def go(res):
        if kind not in kinds(p):
            return
        B, r = start(p, kind, polishing, vec, None)
        if r != 0 or B.solver is None:
            raise Unknown("initialisation fails")
        g, want, data = wanted(p)
        if not want:
            raise Unknown("no operation of the backends is called")
        for k, (types, i) in sorted(want.items()):
            t = member(p, B, g[k])
            where = p.loc(i) if hasattr(p, 'loc') else ''
            if t is None or t[0] != 'fn' or t[1] not in p.funcs:
                raise Wrong("the solver calls the operation '%s' which the backend does not supply" % g[k])
            have = [str(a[0] if isinstance(a, tuple) else a) for a in p.funcs[t[1]].args]
            if len(have) != len(types):
                raise Wrong("%s takes %d arguments, the solver passes %d" % (t[1], len(have), len(types)))
        for k in sorted(data):
            nm = g[k]
            if polishing and k not in want:
                continue
            if (B.solver, nm) not in B.flds and (B.solver, nm) not in B.ptrf:
                raise Wrong("the solver reads the member '%s' which the backend does not set" % nm)
    return attempt(rule, con, go)


def release(cfg, kind, polishing, vec):
    p = PG.load(cfg)
    rule, con = "C24/release", names('release', kind, polishing, vec, cfg)

    def go(res):
        if kind not in kinds(p):
            return
        for ops in ((), ('solve',), ('warm_start', 'solve', 'update_rho_vec', 'update_matrices', 'update_settings', 'solve')):
            if polishing and len(ops) > 1:
                continue
            B, r = start(p, kind, polishing, vec, None)
            if r != 0 or B.solver is None:
                raise Unknown("initialisation fails")
            for o in ops:
                if kind == 'iterative' and o != 'solve':
                    ready(B)
                if kind == 'iterative' and o == 'solve':
                    ready(B)
                run_op(p, kind, B, o, args_for(B, o, vec))
            dispose(p, kind, B, 'after ' + (', '.join(ops) or 'the initialisation'))
    return attempt(rule, con, go)


def ready(B):
    B.dcg, B.steps, B.work = None, [], None
    for o, v in B.vec.items():
        if len(v) == 4 * B.pat.n and o[0] == 'mat':
            B.work = o


def faults(cfg, kind, polishing, vec):
    p = PG.load(cfg)
    rule = "C24/failure"
    out = Result()

    def sites(res):
        if kind not in kinds(p):
            return
        B, r = start(p, kind, polishing, vec, None)
        if r != 0 or B.solver is None:
            raise Unknown("initialisation fails")
        found.extend(('init', s) for s in B.sites)
        if polishing:
            ops = ('solve',)
        else:
            ops = ('solve', 'update_rho_vec', 'update_matrices')
        for o in ops:
            B, r = start(p, kind, polishing, vec, None)
            k = len(B.sites)
            if kind == 'iterative':
                ready(B)
            run_op(p, kind, B, o, args_for(B, o, vec))
            found.extend((o, s) for s in B.sites[k:] if not (o == 'update_rho_vec' and 'too few' in s[0]) and 'the check of' not in s[0])
        B, r = start(p, kind, polishing, vec, None)
        k = len(B.sites)
        dispose(p, kind, B, 'after the initialisation')
        found.extend(('free', s) for s in B.sites[k:])
    found = []
    out.merge(attempt(rule, names('points of failure', kind, polishing, vec, cfg), sites))
    for o, s in found:
        con = names("%s at %s fails (%s)" % (s[0], s[2], 'initialisation' if o == 'init' else o), kind, polishing, vec, cfg)

        def go(res):
            plan = s[:2]
            B, r = start(p, kind, polishing, vec, plan if o == 'init' else None)
            if o == 'init':
                if r == 0:
                    raise Wrong("the initialisation succeeds although %s at %s failed" % (s[0], s[2]))
                if 'too few' in s[0] and r != p.enums.get('OSQP_NONCVX_ERROR', r):
                    raise Wrong("the initialisation reports %s instead of OSQP_NONCVX_ERROR although %s at %s" % (r, s[0], s[2]))
                if B.solver is None:
                    if B.live:
                        q, w = next(iter(B.live.items()))
                        raise Wrong("what was allocated at %s is lost when %s at %s fails" % (w, s[0], s[2]))
                    return
                dispose(p, kind, B, "after %s at %s failed in the initialisation" % (s[0], s[2]))
                return
            B.plan = plan
            if o == 'free':
                dispose(p, kind, B, "although %s at %s failed" % (s[0], s[2]))
                return
            if kind == 'iterative':
                ready(B)
            fn, r = run_op(p, kind, B, o, args_for(B, o, vec))
            if r == 0:
                raise Wrong("%s reports success although %s at %s failed" % (fn, s[0], s[2]))
            dispose(p, kind, B, "after %s at %s failed" % (s[0], s[2]))
        out.merge(attempt(rule, con, go))
    return out


def jobs():
    J = []
    for cfg in ('mkl', 'builtin'):
        for kind in ('direct', 'iterative') if cfg == 'mkl' else ('direct',):
            for pol, vec in ((0, 1), (0, 0), (1, 0)):
                J += [(interface, (cfg, kind, pol, vec)), (release, (cfg, kind, pol, vec)), (faults, (cfg, kind, pol, vec))]
    return J


def run(f, a):
    return f(*a)


def collect(pid, tier):
    return parallel(run, jobs())
