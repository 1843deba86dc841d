"""obligations on the shape of a run of osqp_solve: C21 (bounds and interruption), C33 (penalty adaptation), C34 (counters and timings),
C29 (polishing).

The number of iterations performed (solves of the iteration's linear system) is kept in a ghost cell; at joins its relation to the program's
own counter is recovered (same constant difference in both states), so that it survives the loop heads."""
import math, random
from .lib import *
from .reval import *
from . import prog as PG, absint, terms as T
from .terms import *
from .apichk import lin_models
from .solve import status_key
from .solvechk import cfgname, Pass, RandScript, leaves, leaves_all, c_has, caller, same_terms, StatusMap
from . import solvechk as SC

GB = ARG('$run')
IT = mkptr(GB, ('it',))
REF = mkptr(GB, ('ref',))
NUP = mkptr(GB, ('nup',))
INTR = mkptr(GB, ('intr',))
RHO0 = mkptr(GB, ('rho',))
OBJ = ('obj_val', 'dual_obj_val', 'duality_gap')
ACC = {n: mkptr(GB, (n,)) for n in ('x', 'z', 'y', 'prim_res', 'dual_res', 'pinit') + OBJ}
CARRY = {'setup_time', 'update_time', 'rho_updates', 'status'}


def const_of(t):
    return int(t[1]) if t[0] == 'k' else None


class Loop:
    def __init__(self, p, case, res, want):
        self.p, self.case, self.res, self.want = p, case, res, want
        self.ft = fieldtypes(p)
        self.tag = cfgname(case)
        self.P = Pass(p, case, res, set())
        self.tl = setting('time_limit')
        self.mi = setting('max_iter')
        self.nr = setting('polish_refine_iter')
        self.seen = {}
        self.memo = {}
        self.depth = 1
        self.info = [f for f in p.fields.get('OSQPInfo', ())] or [f for k, v in p.fields.items() if 'rho_updates' in v and 'status_val' in v for f in v]

    # ------------------------------------------------------------------ partitioning
    def key(self, I, s):
        ts = s.ts
        if ts.get('intr') == 'open':
            v = absint.evalc(s, c_eq(I.load(s, INTR), K0))
            ts['intr'] = 'ok' if v else 'stop' if v is False else 'open'
        if not ts.get('time') and ts.get('toc') is not None:
            if self.timeok(I, s):
                ts['time'] = True
        if ts.get('refining') and not ts.get('refdone'):
            self.refdone(I, s)
        it = I.load(s, IT)
        k = [ts.get('intr'), bool(ts.get('time')), ts.get('tic'), ts.get('ntic'), bool(ts.get('refining')), bool(ts.get('refdone')), ts.get('pinit'), ts.get('pend'),
             bool(ts.get('upd')), self.iterok(I, s, it), self.cntok(I, s), const_of(it) if const_of(it) in (0, 1, 2) else None]
        if 'C29' in self.want:
            k.append(I.load(s, mkptr(INFO, ('status_polish',))) if ts.get('acc') else None)
            if ts.get('refining'):
                acc = (I.load(s, ACC['prim_res']), I.load(s, ACC['dual_res']))
                k.append(frozenset((c, v) for c, v in s.facts.items() if c[0] == 'lt' and (c[1] in acc or c[2] in acc or (c[1][0] == 'k') != (c[2][0] == 'k'))
                                   and not all(t[0] in ('init', 'k') for t in c[1:])))
            k.append(ts.get('pinit') and absint.evalc(s, c_eq(I.load(s, ACC['pinit']), K0)))
        if 'C33' in self.want and not ts.get('upd') and self.case.get('adaptive_rho'):
            k.append(frozenset((c, v) for c, v in s.facts.items() if c[0] in ('lt', 'eq') and self.tolfact(c)))
        if 'C34' in self.want:
            k.append(tuple(f for f in self.info if f not in CARRY and I.load(s, mkptr(INFO, (f,))) is IN(('init', INFO, (f,)))))
        return tuple(k)

    def tolfact(self, c):
        r = self.seen.get(('tf', c))
        if r is None:
            st = {t[2][-1] for t in leaves_all(c) if t[0] == 'init' and t[1] is SETT}
            r = bool(st & {'adaptive_rho_tolerance', 'adaptive_rho_interval'})
            self.seen[('tf', c)] = r
        return r

    def iterok(self, I, s, it):
        return T.s_sub(I.load(s, mkptr(INFO, ('iter',))), it) is K0

    def cntok(self, I, s):
        d = T.s_sub(I.load(s, mkptr(INFO, ('rho_updates',))), I.load(s, NUP))
        return d is IN(('init', INFO, ('rho_updates',)))

    def join_ts(self, a, b):
        return {k: v for k, v in a.items() if b.get(k) == v}

    def on_step(self, I, s, sym, old):
        for g in (REF, IT):
            x = I.load(s, g)
            if sym in absint.phis_in(x):
                s.mem[split(g)] = absint.subst(x, {sym: old})

    def on_induct(self, I, s, v, sym):
        """a loop counter with the value v becomes a symbol: the ghosts follow it"""
        for g in (IT, REF):
            x = I.load(s, g)
            ok = g is IT and self.iterok(I, s, x)
            d = T.s_sub(v, x)
            if d[0] == 'k' and (x[0] == 'k' and v[0] == 'k') and (g is not REF or s.ts.get('refining')) and (g is not IT or len(I.cur) == self.depth):
                s.mem[split(g)] = T.s_sub(sym, d)
                if ok:
                    s.mem[split(mkptr(INFO, ('iter',)))] = I.load(s, g)

    def on_join(self, I, a, b, o):
        for g in (IT, REF):
            ga, gb = I.load(a, g), I.load(b, g)
            if ga is gb:
                continue
            fa, fb, fo = a.frames[-1], b.frames[-1], o.frames[-1]
            for r in fo:
                x, y = fa.get(r), fb.get(r)
                if x is None or y is None or x[0] in ('alloca', 'arg', 'fn', 'ptr', 'glob', 'str', 'alloc', 'undef', 'lt', 'eq', 'not', 'and', 'or'):
                    continue
                try:
                    d1, d2 = T.s_sub(x, ga), T.s_sub(y, gb)
                except Exception:
                    continue
                if d1[0] == 'k' and d1 is d2:
                    o.mem[split(g)] = T.s_sub(fo[r], d1)
                    break
            else:
                # also counters kept in memory
                d1, d2 = T.s_sub(I.load(a, mkptr(INFO, ('iter',))), ga), T.s_sub(I.load(b, mkptr(INFO, ('iter',))), gb)
                if d1[0] == 'k' and d1 is d2:
                    o.mem[split(g)] = T.s_sub(I.load(o, mkptr(INFO, ('iter',))), d1)
        if self.iterok(I, a, I.load(a, IT)) and self.iterok(I, b, I.load(b, IT)):
            o.mem[split(mkptr(INFO, ('iter',)))] = I.load(o, IT)
        if all(I.load(x, RHO0) is at(x, I, SETT, 'rho') for x in (a, b)):
            o.mem[split(RHO0)] = at(o, I, SETT, 'rho')
        if 'C29' in self.want and a.ts.get('acc') and b.ts.get('acc'):
            for n in ('x', 'z', 'y'):
                if all(I.vec(x, ACC[n]) is I.vec(x, at(x, I, WORK, n)) for x in (a, b)):
                    I.setvec(o, ACC[n], I.vec(o, at(o, I, WORK, n)))
            for n in ('prim_res', 'dual_res') + (OBJ if a.ts.get('pinit') and b.ts.get('pinit') else ()):
                if all(I.load(x, ACC[n]) is at(x, I, INFO, n) for x in (a, b)):
                    o.mem[split(ACC[n])] = at(o, I, INFO, n)
        if self.cntok(I, a) and self.cntok(I, b):
            o.mem[split(mkptr(INFO, ('rho_updates',)))] = T.s_add(IN(('init', INFO, ('rho_updates',))), I.load(o, NUP))

    # ------------------------------------------------------------------ C21
    def bounded(self, I, s, g, lim, extra=0):
        """g + 1 <= lim on this path?  True / False / None"""
        gc = const_of(g)
        lo = absint.rng_of(s, lim)[0]
        if gc is not None and gc + 1 <= lo:
            return True
        if lim[0] == 'k':
            if gc is not None:
                return gc + 1 <= lim[1]
        about = False
        gl = [x for x in leaves_all(g) if x[0] != 'k']
        for c, v in s.facts.items():
            if c[0] not in ('lt', 'eq'):
                if c_has(c, lambda t: t is lim):
                    about = True
                continue
            a, b = c[1], c[2]
            if not (c_has(a, lambda t: t is lim) or c_has(b, lambda t: t is lim)):
                continue
            if gl and not any(c_has(c, lambda t: t is x) for x in gl) and not any(x[0] == 'phi' for x in leaves_all(c)):
                continue
            # a < b (v) or b <= a (not v): written as  e >= 0  over the integers with e linear in lim - g
            if c[0] == 'eq':
                about = True
                continue
            e = T.s_sub(T.s_sub(b, a), K1) if v else T.s_sub(a, b)
            d = T.s_sub(T.s_sub(T.s_sub(lim, g), K1), e)
            if d[0] == 'k':
                if d[1] >= 0:
                    return True
                about = 'off'
            elif absint.rng_of(s, d)[1] <= 0 and all(x[0] == 'init' and x[1] is SETT for x in leaves_all(d)):
                about = 'off' if about in (False, 'off') else about     # bounded by lim plus another setting
            elif about is False:
                about = True
        if about in (False, 'off'):
            return False
        return self.grows(s, g, lim)

    def grows(self, s, g, lim):
        """the counter is bounded by a variable: may that variable exceed lim?"""
        for c, v in s.facts.items():
            if c[0] != 'lt':
                continue
            a, b = (c[1], c[2]) if v else (c[2], c[1])
            for L in leaves_all(b):
                if L[0] != 'phi' or T.s_sub(T.s_sub(b, L), T.s_sub(a, g))[0] != 'k':
                    continue
                alts = s.vals.get(L) or ()
                if not any(x is lim or T.s_sub(x, lim)[0] == 'k' for x in alts):
                    continue
                for x in alts:
                    d = T.s_sub(x, lim)
                    if d[0] == 'k' and d[1] > 0:
                        return False
                    d = T.s_sub(x, L)
                    if d is not K0 and absint.rng_of(s, d)[0] >= 0 and (d[0] != 'k' or d[1] > 0):
                        return False
        return None

    def timeok(self, I, s):
        toc = s.ts['toc']
        if absint.evalc(s, c_eq(self.tl, K0)):
            return True
        for c, v in s.facts.items():
            if c[0] == 'lt' and v and c[2] is self.tl or c[0] == 'lt' and not v and c[1] is self.tl and False:
                rest = T.s_sub(c[1], toc)
                if rest is K0 or rest is at(s, I, INFO, 'setup_time' if self.case.get('$first_run') else 'update_time') or (not c_has(rest, lambda t: t is toc) and self.elapsed(rest)):
                    return True
        return False

    def elapsed(self, rest):
        names = {t[2][-1] for t in leaves_all(rest) if t[0] == 'init' and t[1] is INFO}
        first = self.case.get('$first_run')
        return 'setup_time' in names if first == 1 else 'update_time' in names if first == 0 else bool(names & {'setup_time', 'update_time'})

    def refdone(self, I, s):
        """all refinement steps performed: not (steps < polish_refine_iter)"""
        n = T.s_sub(I.load(s, REF), K1)
        v = absint.evalc(s, c_lt(n, self.nr))
        if v is False:
            s.ts['refdone'] = True

    # ------------------------------------------------------------------ events
    def on_call(self, I, s, name, args, inst, ctx):
        if name == '*solve' and len(args) > 1:
            if args[1] is at(s, I, WORK, 'xz_tilde'):
                self.main_solve(I, s, inst, ctx)
            elif s.ts.get('acc'):
                self.polish_solve(I, s, inst, ctx)
        elif name == '*update_rho_vec':
            self.rho_event(I, s, inst, ctx)

    def main_solve(self, I, s, inst, ctx):
        w = I.where(inst, ctx).split(' called')[0]
        g = I.load(s, IT)
        if 'C21' in self.want:
            con = "iteration at %s [%s]" % (w, self.tag)
            r = self.bounded(I, s, g, self.mi)
            if r is None:
                self.res.undecided("C21/iterations", con, "bound on the number of iterations not recovered")
            else:
                self.res.check(r, "C21/iterations", con, "an iteration is performed without the path bounding the number of iterations by max_iter")
            if g is not K0:
                r = s.ts.get('intr')
                if r == 'open' or r is None:
                    self.res.fail("C21/interrupt", con, "an iteration is started although %s since the previous one" %
                                  ("the outcome of the interrupt test was not used" if r else "no interrupt test was made"))
                elif r == 'stop':
                    self.res.fail("C21/interrupt", con, "an iteration is started after an interrupt was seen")
                else:
                    self.res.good("C21/interrupt", con)
                if s.ts.get('time'):
                    self.res.good("C21/time-limit", con)
                elif s.ts.get('toc') is not None and any(c_has(c, lambda t: t is self.tl) for c in s.facts if not (c[0] == 'lt' and c[1] is K0)):
                    self.timesample(I, s, con)
                else:
                    self.res.fail("C21/time-limit", con, "an iteration is started without the elapsed time having been compared with time_limit since the previous one")
        if g is not K0 and 'C33' in self.want:
            self.counted(I, s, "at the next iteration, %s" % w)
        for c in [c for c in s.facts if self.tolfact(c)]:
            del s.facts[c]
        for k in ('intr', 'toc', 'time', 'upd'):
            s.ts.pop(k, None)
        s.mem[split(IT)] = T.s_add(g, K1)
        s.mem[split(RHO0)] = at(s, I, SETT, 'rho')

    def timesample(self, I, s, con):
        """the comparison has another form: no interpretation may satisfy the path with the time limit exceeded"""
        toc = s.ts['toc']
        base = IN(('init', INFO, ('setup_time' if self.case.get('$first_run') else 'update_time',)))
        (n,), (bad,) = self.search(s, [lambda ev: ev.num(self.tl) - ev.num(toc) - ev.num(base) >= 0], (toc, 'time'))
        if bad is not None:
            self.res.fail("C21/time-limit", con, "an iteration is started although the elapsed time exceeds time_limit")
        elif n >= 5:
            self.res.good("C21/time-limit", con)
        else:
            self.res.undecided("C21/time-limit", con, "comparison with the time limit not interpretable")

    def polish_solve(self, I, s, inst, ctx):
        w = I.where(inst, ctx).split(' called')[0]
        g = I.load(s, REF)
        if g is not K0 and 'C21' in self.want:
            con = "refinement step at %s [%s]" % (w, self.tag)
            r = self.bounded(I, s, T.s_sub(g, K1), self.nr)
            if r is None:
                self.res.undecided("C21/refinement", con, "bound on the number of steps not recovered")
            else:
                self.res.check(r, "C21/refinement", con, "a refinement step is performed without the path bounding their number by polish_refine_iter")
        s.ts['refining'] = True
        s.ts.pop('refdone', None)
        s.mem[split(REF)] = T.s_add(g, K1)

    # ------------------------------------------------------------------ C33
    def rho_event(self, I, s, inst, ctx):
        if 'C33' not in self.want:
            return
        w = I.where(inst, ctx)
        con = "penalty update at %s [%s]" % (w.split(' called')[0], self.tag)
        g = I.load(s, IT)
        new = at(s, I, SETT, 'rho')
        old = I.load(s, RHO0)
        if self.case.get('adaptive_rho') == 0:
            self.res.fail("C33/enabled", con, "the penalty is changed although adaptation is disabled")
            return
        self.res.good("C33/enabled", con)
        ivl = at(s, I, SETT, 'adaptive_rho_interval')
        tol = setting('adaptive_rho_tolerance')
        est = at(s, I, INFO, 'rho_estimate')
        self.obligations(s, [
            ("C33/schedule", con, lambda ev: self.multiple(ev, g, ivl), "the penalty is changed at an iteration that is no multiple of adaptive_rho_interval"),
            ("C33/factor", con, lambda ev: ev.num(new) > ev.num(old) * ev.num(tol) * (1 - 1e-9) or ev.num(new) * ev.num(tol) < ev.num(old) * (1 + 1e-9),
             "the penalty is changed although the new value is within the factor adaptive_rho_tolerance of the current one"),
            ("C33/limits", con, lambda ev: 1e-6 * (1 - 1e-9) <= ev.num(new) <= 1e6 * (1 + 1e-9), "the new penalty is outside [1e-6, 1e6]"),
            ("C33/estimate", con, lambda ev: close(ev.num(new), ev.num(est)), "the new penalty is not the reported estimate")], g, new, old, ivl, est, 'rho')
        s.mem[split(NUP)] = T.s_add(I.load(s, NUP), K1)
        s.ts['upd'] = True

    def multiple(self, ev, g, ivl):
        a, b = ev.num(g), ev.num(ivl)
        if b != int(b) or a != int(a):
            raise Undecided("not integer")
        return b != 0 and int(a) % int(b) == 0

    def counted(self, I, s, when):
        con = "rho_updates %s [%s]" % (when, self.tag)
        if self.cntok(I, s):
            self.res.good("C33/count", con)
            return
        d = T.s_sub(T.s_sub(I.load(s, mkptr(INFO, ('rho_updates',))), IN(('init', INFO, ('rho_updates',)))), I.load(s, NUP))
        if d[0] == 'k':
            self.res.fail("C33/count", con, "info->rho_updates counts %s more than the penalty updates performed" % d[1])
        else:
            self.res.undecided("C33/count", con, "count not recovered")

    # ------------------------------------------------------------------ sampling
    def sample(self, seed):
        S = self.P.sample(seed)
        R = random.Random(77 + seed)
        S.over[('settings', 'adaptive_rho_tolerance')] = math.exp(R.uniform(0, .8))
        S.over[('settings', 'adaptive_rho_interval')] = float(R.choice((0, 1, 1, 1, 2, 3)))
        S.over[('settings', 'adaptive_rho_fraction')] = R.uniform(.1, 2)
        S.over[('settings', 'rho')] = math.exp(R.uniform(-3, 3) if seed % 3 else R.uniform(-25, 25))
        S.over[('settings', 'max_iter')] = float(R.choice((1, 2, 3, 50)))
        S.over[('settings', 'check_termination')] = float(R.choice((0, 1, 1, 2)))
        S.over[('settings', 'time_limit')] = R.choice((0.01, 1.0, 2.0, 1e3))
        for f, v in self.case.items():
            if f not in ('m', 'n') and f[0] != '$':
                S.over[('settings', f)] = 0.0 if v == 0 else (4.0 if v == '+' else float(v))
        return S

    def search(self, s, preds, terms, need=8, tries=500, only=None, atoms=()):
        """interpretations of the path conditions: number evaluated, and for every predicate a counterexample or None"""
        key = (frozenset(s.facts.items()), terms)
        r = self.memo.get(key)
        if r is not None and len(r[1]) == len(preds):
            return r
        facts = sorted(((c, v) for c, v in s.facts.items() if only is None or only(c)), key=lambda cv: (c_has(cv[0], lambda t: t[0] == 'norm' or t[0] == 'f' and t[1] == 'norm'), not self.tolfact(cv[0])))
        ints = set()
        for t in [c for c, _ in facts] + [t for t in terms if isinstance(t, tuple)]:
            if t[0] == 'phi':
                continue
            for x in self.divs(t):
                ints |= {y for y in leaves_all(x) if y[0] in ('phi', 'ret')}
        n = und = 0
        bad = [None] * len(preds)
        cnt = [0] * len(preds)
        for seed in range(tries):
            if n >= need or (seed >= 40 and n == 0 and und >= 40):
                break
            S = self.sample(seed)
            for t in ints:
                S.scalars[t] = float(random.Random(str(t.id) + str(seed)).randint(1, 6))
            ev = Eval(S, s, [])
            ev.script = RandScript(seed)
            R = random.Random(4242 + seed)
            for t in atoms:
                ev.m[t] = R.choice((1e-12, 3e-11, 2e-10, 1e-6, 1e-3, 1.0, 2.0))
            try:
                sat = True
                for c, v in facts:
                    try:
                        if ev.cond(c) != v:
                            sat = False
                            break
                    except Undecided:
                        if any(t[0] != 'init' for t in leaves_all(c)):
                            sat = None
                            break
                if not sat:
                    und += sat is None
                    continue
            except (Infeasible, KeyError, OverflowError, ValueError, ZeroDivisionError):
                continue
            n += 1
            for i, pred in enumerate(preds):
                try:
                    ok = pred(ev)
                except (Infeasible, Undecided, KeyError, OverflowError, ValueError, ZeroDivisionError):
                    continue
                cnt[i] += 1
                if not ok and bad[i] is None:
                    bad[i] = seed
        r = (cnt, bad)
        self.memo[key] = r
        return r

    def divs(self, t):
        """operands of integer divisions in a term"""
        r = self.seen.get(('dv', t))
        if r is None:
            r = set()
            c_has(t, lambda x: x[0] == 'f' and x[1] in ('srem', 'urem', 'sdiv', 'udiv') and not r.update((x[2], x[3])) and False)
            self.seen[('dv', t)] = r
        return r

    def obligations(self, s, obs, *terms, **kw):
        about = [t for t in kw.get('about', terms) if isinstance(t, tuple) and t[0] not in ('k', 'init')]
        cnt, bad = self.search(s, [o[2] for o in obs], terms, only=lambda c: self.tolfact(c) and not kw or any(c_has(c, lambda t: t is x) for x in about),
                               atoms=kw.get('atoms', ()))
        for (rule, con, pred, msg), n, b in zip(obs, cnt, bad):
            if b is not None:
                self.res.fail(rule, con, "%s (interpretation %d of the path conditions)" % (msg, b))
            elif n >= 1:
                self.res.good(rule, con)
            else:
                self.res.undecided(rule, con, "%d interpretations" % n)

    # ------------------------------------------------------------------ stores: C34, C29
    def on_store(self, I, s, ptr, v, inst, ctx):
        b, pa = split(ptr)
        if b is not INFO or not pa or len(pa) != 1:
            return
        f = pa[0]
        if f == 'status_val':
            s.ts['acc'] = True
            if 'C29' in self.want:
                for n in ('x', 'z', 'y'):
                    I.setvec(s, ACC[n], I.vec(s, at(s, I, WORK, n)))
                for n in ('prim_res', 'dual_res'):
                    s.mem[split(ACC[n])] = at(s, I, INFO, n)
        if 'C34' not in self.want:
            return
        w = I.where(inst, ctx).split(' called')[0]
        if f not in CARRY and isinstance(v, tuple):
            con = "info->%s stored at %s [%s]" % (f, w, self.tag)
            me = IN(('init', INFO, (f,)))
            if v is me or any(t is me for t in leaves_all(v)):
                self.res.fail("C34/carried-over", con, "depends on the value left by an earlier call")
            else:
                self.res.good("C34/carried-over", con)
        if f in ('solve_time', 'polish_time') and v is not K0 and self.istoc(v):
            con = "info->%s stored at %s [%s]" % (f, w, self.tag)
            n = s.ts.get('ntic', 0)
            if f == 'solve_time':
                self.res.check(n == 1, "C34/timer", con, "the solve time is measured with the timer %s" % ("not started by this call" if not n else "restarted"))
            else:
                self.res.check(n == 2, "C34/timer", con, "the polish time is measured with the timer %s" % ("not started by this call" if not n else "started for the solve" if n == 1 else "restarted"))

    def istoc(self, v):
        return v[0] == 'ret' and 'toc@' in str(v[2])


def models(H):
    m = lin_models(base_models())

    def interrupted(I, st, inst, a, ctx):
        r = I.unknown(st, inst, a, ctx, 'interrupted', havoc=False)
        st.ts['intr'] = 'open'
        st.mem[split(INTR)] = r
        return r
    m['osqp_is_interrupted'] = interrupted

    def tic(I, st, inst, a, ctx):
        st.ts['ntic'] = min(3, st.ts.get('ntic', 0) + 1)
        return VOID

    def toc(I, st, inst, a, ctx):
        r = I.unknown(st, inst, a, ctx, 'toc', havoc=False)
        s2 = I.assume(st, c_lt(r, K0), False)
        s2 = s2 if s2 is not None else st
        s2.ts['toc'] = r
        return [(r, s2)]
    m['osqp_tic'], m['osqp_toc'] = tic, toc

    def init(I, st, inst, a, ctx):
        r = I.unknown(st, inst, a, ctx, 'init_linsys', havoc=False)
        I.store(st, a[0], ARG('$linsys'))
        st.ts['pinit'] = True
        st.mem[split(ACC['pinit'])] = r
        for n in OBJ:
            if n in H.info:
                st.mem[split(ACC[n])] = at(st, I, INFO, n)
        return r
    if 'C29' in H.want:
        m['osqp_algebra_init_linsys_solver'] = init
    return m


def job(cfg, case, want):
    p = PG.load(cfg)
    res = Result()
    H = Loop(p, case, res, want)
    I = absint.Interp(p, models(H), H, keyfn=lambda I, s: (status_key(I, s), H.key(I, s)))
    I.peel = 1
    I.exact_ind = True
    st = case_state(I, {k: v for k, v in case.items() if k[0] != '$'})
    f = p.funcs.get('osqp_solve')
    if f is None:
        raise Broken("osqp_solve not found")
    if '$first_run' in case:
        st = I.assume(st, c_eq(member(WORK, 'first_run'), kk(case['$first_run'])), True)
    for g in (IT, REF, NUP):
        st.mem[split(g)] = K0
    st.mem[split(RHO0)] = setting('rho')
    try:
        for rv, s in I.run(f, [SOLVER], st):
            if rv is K0:
                exit_(H, I, s)
            if 'C29' in want:
                polished(H, I, s, rv)
    except absint.Abort as e:
        for q in want:
            res.undecided(q + "/run", H.tag, str(e))
    account(res, I)
    return res


def exit_(H, I, s):
    res = H.res
    sv = H.P.sm.get(at(s, I, INFO, 'status_val'))
    con = "osqp_solve exit %s [%s]" % (SC.name(sv), H.tag)
    if 'C34' in H.want:
        it = I.load(s, IT)
        d = T.s_sub(at(s, I, INFO, 'iter'), it)
        if d is K0:
            res.good("C34/iterations", con)
        elif d[0] == 'k':
            res.fail("C34/iterations", con, "info->iter differs by %s from the number of iterations performed" % d[1])
        else:
            res.undecided("C34/iterations", con, "info->iter %s, performed %s" % (T.show(at(s, I, INFO, 'iter'))[:80], T.show(it)[:80]))
        timings(H, I, s, con)
        flags(H, I, s, con)
        for f in H.info:
            if f in CARRY:
                continue
            v = at(s, I, INFO, f)
            res.check(v is not IN(('init', INFO, (f,))), "C34/carried-over", "info->%s at %s" % (f, con), "not written by this run")
    if 'C33' in H.want:
        H.counted(I, s, "at " + con)
        e = at(s, I, INFO, 'rho_estimate')
        H.obligations(s, [("C33/limits", "info->rho_estimate at " + con, lambda ev: 1e-6 * (1 - 1e-9) <= ev.num(e) <= 1e6 * (1 + 1e-9), "the estimate is outside [1e-6, 1e6]")], e, 'est')
    if 'C21' in H.want and s.ts.get('refining'):
        r = s.ts.get('refdone')
        if r:
            res.good("C21/refinement", con)
        else:
            n = T.s_sub(I.load(s, REF), K1)
            v = absint.evalc(s, c_lt(n, H.nr))
            if v is True:
                res.fail("C21/refinement", con, "fewer than polish_refine_iter refinement steps are performed")
            else:
                res.undecided("C21/refinement", con, "number of refinement steps not recovered")


POL = {'LINSYS_ERROR': 'OSQP_POLISH_LINSYS_ERROR', 'FAILED': 'OSQP_POLISH_FAILED', 'NOT_PERFORMED': 'OSQP_POLISH_NOT_PERFORMED',
       'SUCCESS': 'OSQP_POLISH_SUCCESS', 'NO_ACTIVE_SET': 'OSQP_POLISH_NO_ACTIVE_SET_FOUND'}


def polished(H, I, s, rv):
    res = H.res
    sv = SC.name(H.P.sm.get(at(s, I, INFO, 'status_val')))
    if sv in ('SIGINT', 'UNSOLVED', '?') or sv.startswith('PRIMAL_INF') or sv.startswith('DUAL_INF') or sv == 'NON_CVX':
        sol = False
    else:
        sol = True
    byval = {}
    for k, e in POL.items():
        if e not in H.p.enums:
            raise Broken(e + " not found")
        byval[int(H.p.enums[e])] = k
    pv = at(s, I, INFO, 'status_polish')
    st = byval.get(const_of(pv)) if pv[0] == 'k' else None
    con = "osqp_solve %sexit %s, polishing %s [%s]" % ("" if rv is K0 else "failing ", sv, st or '?', H.tag)
    if st is None and sv == '?':
        return
    if st is None:
        res.undecided("C29/status", con, "polishing status not recovered")
        return
    # the status says what happened
    ran = bool(s.ts.get('refining') or s.ts.get('pinit'))
    lin = absint.evalc(s, c_eq(I.load(s, ACC['pinit']), K0)) if s.ts.get('pinit') else None
    if H.case.get('polishing') == 0 or not (sv == 'SOLVED'):
        res.check(st == 'NOT_PERFORMED', "C29/status", con, "polishing is %s" % ("disabled" if H.case.get('polishing') == 0 else "only performed for solved problems"))
    elif s.ts.get('refining'):
        res.check(st in ('SUCCESS', 'FAILED'), "C29/status", con, "the reduced system was solved and refined")
    elif lin is False:
        res.check(st == 'LINSYS_ERROR', "C29/status", con, "the initialisation of the reduced linear system failed")
    elif s.ts.get('pinit') and lin is None:
        res.undecided("C29/status", con, "outcome of the initialisation of the linear system not recovered")
    elif s.ts.get('pinit'):
        res.check(st == 'FAILED', "C29/status", con, "polishing ended before the reduced system was solved")
    else:
        res.check(st in ('NO_ACTIVE_SET', 'FAILED') and (st != 'FAILED' or rv is not K0), "C29/status", con, "polishing ended without a reduced system")
    if not sol:
        return
    now = {n: at(s, I, INFO, n) for n in ('prim_res', 'dual_res')}
    old = {n: I.load(s, ACC[n]) for n in now}
    if st == 'SUCCESS':
        def better(ev):
            for n in now:
                a, b = ev.num(now[n]), ev.num(old[n])
                if not (a <= b * (1 + 1e-12) or a < 1e-10):
                    return False
            return True
        H.obligations(s, [("C29/accepted", con, better, "a polished solution is accepted although one of its residuals is neither reduced nor below 1e-10")],
                      *(tuple(now.values()) + tuple(old.values())), about=tuple(now.values()), atoms=tuple(now.values()) + tuple(old.values()))
        return
    if s.ts.get('pinit'):
        for n in OBJ:
            if n in H.info:
                now[n], old[n] = at(s, I, INFO, n), I.load(s, ACC[n])
    for n in now:
        kept(H, s, "info->%s at %s" % (n, con), now[n], old[n])
    for n, d in (('x', 'n'), ('y', 'm'), ('z', 'm')):
        a, b = I.vec(s, at(s, I, WORK, n)), I.vec(s, ACC[n])
        if a is b:
            res.good("C29/kept", "%s at %s" % (n, con))
        else:
            r = same_terms(H.P, s, a, b, lambda S: S.n if d == 'n' else S.m)
            if r is None:
                res.undecided("C29/kept", "%s at %s" % (n, con), "not interpretable")
            else:
                res.check(r, "C29/kept", "%s at %s" % (n, con), "the iterate is not the one the status was decided for although the polished solution is not used")


def kept(H, s, con, a, b):
    """two terms denote the same number on this path"""
    if a is b:
        H.res.good("C29/kept", con)
        return
    pred = [lambda ev: close(ev.num(a), ev.num(b))]
    (n,), (bad,) = H.search(s, pred, (a, b, 'kept'))
    if bad is None and n < 3:
        # the path conditions are not interpretable: two formulas that differ in every interpretation are different
        opaque = lambda t: t[0] == 'undef' or t[0] == 'vf' and t[1] == 'linsolve'
        free = not (c_has(a, opaque) and c_has(b, opaque))
        tot = diff = 0
        for seed in range(120):
            if tot >= 6:
                break
            ev = Eval(H.sample(seed), s, [])
            ev.anyundef = free
            ev.script = RandScript(seed)
            try:
                ok = pred[0](ev)
            except (Infeasible, Undecided, KeyError, OverflowError, ValueError, ZeroDivisionError):
                continue
            tot += 1
            diff += not ok
        if tot >= 3 and diff == tot:
            n, bad = tot, 0
        elif tot >= 5 and diff == 0:
            n = tot
        else:
            n = 0
    if bad is not None:
        H.res.fail("C29/kept", con, "not the value of the ADMM iterate although the polished solution is not used")
    elif n:
        H.res.good("C29/kept", con)
    else:
        H.res.undecided("C29/kept", con, "not interpretable")


def timings(H, I, s, con):
    res = H.res
    T_ = {f: at(s, I, INFO, f) for f in ('run_time', 'solve_time', 'polish_time', 'setup_time', 'update_time')}
    if 'solve_time' not in H.info:
        return
    base = T_['setup_time'] if H.case.get('$first_run') else T_['update_time']
    d = T.s_sub(T_['run_time'], T.s_add(T.s_add(base, T_['solve_time']), T_['polish_time']))
    if d is K0:
        res.good("C34/run-time", con)
    else:
        (n,), (bad,) = H.search(s, [lambda ev: close(ev.num(T_['run_time']), ev.num(base) + ev.num(T_['solve_time']) + ev.num(T_['polish_time']))], (tuple(T_.values()), 'run'))
        if bad is not None:
            res.fail("C34/run-time", con, "run_time is not %s + solve_time + polish_time" % ('setup_time' if H.case.get('$first_run') else 'update_time'))
        elif n:
            res.good("C34/run-time", con)
        else:
            res.undecided("C34/run-time", con, "not interpretable")


def flags(H, I, s, con):
    """the next call must not take this one for the first, nor keep its update time"""
    for f, want, msg in (('first_run', K0, "the next solve would count the setup time again"),
                         ('clear_update_time', None, "the next data update would add to the update time of this solve"),
                         ('rho_update_from_solve', K0, "the time of later penalty updates by the user would not be counted")):
        v = at(s, I, WORK, f)
        if not any(f in ff for ff in H.p.fields.values()) or v is IN(('init', WORK, (f,))) and f == 'rho_update_from_solve':
            continue
        r = absint.evalc(s, c_eq(v, K0))
        if r is None:
            H.res.undecided("C34/flags", "work->%s at %s" % (f, con), "value not recovered")
        else:
            H.res.check(r is (want is K0), "C34/flags", "work->%s at %s" % (f, con), msg)


class Timed:
    def __init__(self):
        self.stores = 0

    def join_ts(self, a, b):
        return {k: v for k, v in a.items() if b.get(k) == v}


TOC = mkptr(GB, ('toc',))


def ujob(cfg, fname, case, clear):
    """the update functions account for their own time"""
    p = PG.load(cfg)
    res = Result()
    f = p.funcs.get(fname)
    if f is None:
        raise Broken(fname + " not found")
    m = lin_models(base_models())

    def tic(I, st, inst, a, ctx):
        st.ts['ntic'] = min(2, st.ts.get('ntic', 0) + 1)
        return VOID

    def toc(I, st, inst, a, ctx):
        r = I.unknown(st, inst, a, ctx, 'toc', havoc=False)
        st.mem[split(TOC)] = r
        st.ts['ntoc'] = min(2, st.ts.get('ntoc', 0) + 1)
        return r
    m['osqp_tic'], m['osqp_toc'] = tic, toc
    I = absint.Interp(p, m, Timed(), keyfn=lambda I, s: (status_key(I, s), s.ts.get('ntic'), s.ts.get('ntoc')))
    st = case_state(I, case)
    st = I.assume(st, c_eq(member(WORK, 'clear_update_time'), kk(clear)), True)
    st = I.assume(st, c_eq(member(WORK, 'rho_update_from_solve'), K0), True)
    st.mem[split(TOC)] = K0
    tag = "%s %s [%s]" % (fname, "after a solve" if clear else "repeated before a solve", cfgname(case))
    own = IN(('init', INFO, ('update_time',)))
    for rv, s in I.run(f, [SOLVER] + [ARG(a[1]) for a in f.args[1:]], st):
        if rv is not K0:
            s = I.assume(s, c_eq(rv, K0), True) if rv[0] != 'k' else None
            if s is None:
                continue
        tocv = I.load(s, TOC)
        d = T.s_sub(at(s, I, INFO, 'update_time'), tocv)
        if not clear:
            d = T.s_sub(d, own)
        if s.ts.get('ntoc') is None or s.ts.get('ntic') is None:
            res.fail("C34/update-time", tag, "the call succeeds without its time being measured by a timer it started")
        elif d is K0:
            res.good("C34/update-time", tag)
        elif all(t is own or t is tocv for t in leaves_all(d)):
            res.fail("C34/update-time", tag, "update_time is not %s" % ("the time of this update alone" if clear else "increased by the time of this update"))
        else:
            res.undecided("C34/update-time", tag, "value of update_time not recovered")
        c = at(s, I, WORK, 'clear_update_time')
        r = absint.evalc(s, c_eq(c, K0))
        if r is None:
            res.undecided("C34/update-time", tag + " (flag)", "flag not recovered")
        else:
            res.check(r, "C34/update-time", tag + " (flag)", "the next update would discard the time of this one")
    account(res, I)
    return res


BASE = dict(rho_is_vec=1, m='+', verbose=0, warm_starting=1, polishing=0, adaptive_rho=1, check_dualgap=0)
SC1 = {'scaling': '+', 'scaled_termination': 0}
SC2 = {'scaling': '+', 'scaled_termination': 1}


def cases(pid, tier):
    q = tier == 'quick'
    D = []

    def add(*ds):
        c = dict(BASE, scaling=0)
        c['$first_run'] = 1
        for d in ds:
            c.update(d)
        if c not in D:
            D.append(c)
    F0 = {'$first_run': 0}
    if pid == 'C21':
        for pol in (0, 1):
            for sc in ({}, SC1) if q else ({}, SC1, SC2):
                for fr in ({}, F0):
                    for a in ((1,) if q else (0, 1, 2, 3)):
                        add({'polishing': pol, 'adaptive_rho': a}, sc, fr)
        add({'verbose': 1, 'warm_starting': 0, 'adaptive_rho': 0})
        add({'m': 0, 'adaptive_rho': 0})
    elif pid == 'C33':
        for a in (0, 1, 2, 3):
            for sc in ({}, SC1) if q else ({}, SC1, SC2):
                for r in (1, 0) if not q else ((1,) if a == 2 else (1, 0)):
                    add({'adaptive_rho': a, 'rho_is_vec': r}, sc, {} if r else F0)
    elif pid == 'C34':
        for pol in (0, 1):
            for fr in ({}, F0):
                for sc in ({}, SC1) if q else ({}, SC1, SC2):
                    for a in ((1,) if q else (0, 1, 3)):
                        add({'polishing': pol, 'adaptive_rho': a}, sc, fr)
        add({'verbose': 1, 'check_dualgap': 1})
        add({'m': 0, 'warm_starting': 0}, F0)
    elif pid == 'C29':
        for pol in (1, 0):
            for sc in ({}, SC1, SC2):
                for g in (0, 1):
                    for a in (1,) if q else (0, 1, 3):
                        if pol or not g:
                            add({'polishing': pol, 'check_dualgap': g, 'adaptive_rho': a}, sc, F0 if g else {})
        add({'polishing': 1, 'm': 0})
        add({'polishing': 1, 'verbose': 1, 'rho_is_vec': 0})
    return D


def collect(pid, tier):
    jobs = []
    for c in ('mkl', 'builtin') + (() if tier == 'quick' else ('mklprof', 'prof')):
        jobs += [(c, k, {pid}) for k in cases(pid, tier)]
    res = parallel(job, jobs)
    if pid == 'C34':
        jobs = []
        for c in ('mkl', 'builtin') if tier == 'quick' else ('mkl', 'builtin', 'mklprof', 'prof'):
            for fname in ('osqp_update_data_vec', 'osqp_update_data_mat', 'osqp_update_rho'):
                for clear in (0, 1):
                    for sc in (0, '+'):
                        jobs.append((c, fname, dict(BASE, scaling=sc), clear))
        res.merge(parallel(ujob, jobs))
    return res
