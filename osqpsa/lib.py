"""Check framework: obligations, violations, evidence; common analysis runs."""
import json, os, sys, time, multiprocessing, traceback
from . import terms as T, absint, algebra, prog as PG
from .absint import IN, K0, K1, PV, PM, NIL, VOID, c_eq, c_lt, c_not, split, mkptr, evalc, kk
from . import reval
from .reval import Sample, Eval, Undecided, Infeasible, close, fields, chain

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """the analysis itself is broken (anchor gone, nothing to analyse): an error exit, never a verdict"""


class Result:
    """obligations decided by one analysis job; plain data so that it can cross process boundaries"""

    def __init__(self):
        self.ok = {}          # (rule, construct) -> count
        self.bad = {}         # (rule, construct) -> message
        self.und = {}         # (rule, construct) -> reason
        self.info = {}        # counters
        self.notes = []

    def good(self, rule, construct=""):
        k = (rule, construct)
        self.ok[k] = self.ok.get(k, 0) + 1

    def fail(self, rule, construct, msg):
        self.bad.setdefault((rule, construct), msg)

    def undecided(self, rule, construct, why):
        self.und.setdefault((rule, construct), why)

    def check(self, cond, rule, construct, msg):
        if cond:
            self.good(rule, construct)
        else:
            self.fail(rule, construct, msg)

    def count(self, k, n=1):
        if isinstance(n, set):
            self.info[k] = self.info.get(k, set()) | n
        else:
            self.info[k] = self.info.get(k, 0) + n

    def merge(self, o):
        for k, v in o.ok.items():
            self.ok[k] = self.ok.get(k, 0) + v
        for k, v in o.bad.items():
            self.bad.setdefault(k, v)
        for k, v in o.und.items():
            self.und.setdefault(k, v)
        for k, v in o.info.items():
            if isinstance(v, set):
                self.info[k] = self.info.get(k, set()) | v
            else:
                self.info[k] = self.info.get(k, 0) + v
        self.notes += [n for n in o.notes if n not in self.notes]


def _job(a):
    f, args = a
    try:
        r = f(*args)
        return ("ok", r)
    except absint.Abort as e:
        r = Result()
        r.undecided("analysis", "%s%r" % (f.__name__, args), str(e))
        return ("ok", r)
    except Broken:
        return ("err", "%s%r\n%s" % (f.__name__, args, traceback.format_exc()))
    except Exception as e:
        if os.environ.get("OSQPSA_DEBUG"):
            traceback.print_exc()
        r = Result()
        r.undecided("analysis", "%s%r" % (f.__name__, args), "%s: %s" % (type(e).__name__, e))
        return ("ok", r)


def parallel(f, argl):
    """run f(*args) for every args in argl in separate processes; f returns a Result"""
    out = Result()
    argl = list(argl)
    if len(argl) == 1 or os.environ.get("OSQPSA_SERIAL"):
        rs = [_job((f, a)) for a in argl]
    else:
        with multiprocessing.get_context("fork").Pool(min(8, len(argl))) as p:
            rs = p.map(_job, [(f, a) for a in argl], chunksize=1)
    for k, r in rs:
        if k == "err":
            raise Broken(r)
        out.merge(r)
    return out


KNOWN = os.path.join(HERE, "known_findings.json")


def known(pid):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == pid]


def matches(k, rule, construct):
    return k["rule"] == rule and k["construct"] in construct


def finish(pid, res, explanation, floors, t0, assumptions=()):
    """print the verdict, write the evidence file, return the exit status"""
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rules = {}
    for (r, c), n in res.ok.items():
        d = rules.setdefault(r, {"constructs": 0, "discharged": 0, "violated": 0, "undecided": 0})
        d["constructs"] += 1
        d["discharged"] += n
    for (r, c) in res.bad:
        rules.setdefault(r, {"constructs": 0, "discharged": 0, "violated": 0, "undecided": 0})["violated"] += 1
    for (r, c) in res.und:
        rules.setdefault(r, {"constructs": 0, "discharged": 0, "violated": 0, "undecided": 0})["undecided"] += 1
    viol = []
    kn = known(pid)
    used = set()
    for (r, c), m in sorted(res.bad.items()):
        hit = next((i for i, k in enumerate(kn) if matches(k, r, c)), None)
        if hit is not None:
            used.add(hit)
            continue
        viol.append((r, c, m))
    for i in sorted(used):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[i]["what"]))
    broken = []
    if not viol:
        for r, n in floors.items():
            d = rules.get(r, {"constructs": 0, "discharged": 0, "violated": 0, "undecided": 0})
            if d["constructs"] + d["violated"] + d["undecided"] < n:
                broken.append("rule %s has %d instances, expected at least %d" % (r, d["constructs"] + d["undecided"], n))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {"explanation": explanation, "rules": rules,
           "obligations": sum(d["discharged"] + d["violated"] + d["undecided"] for d in rules.values()),
           "discharged": sum(d["discharged"] for d in rules.values()),
           "undecided": [{"rule": r, "construct": c, "why": w} for (r, c), w in sorted(res.und.items())][:40],
           "analysed": {k: (len(v) if isinstance(v, set) else v) for k, v in sorted(res.info.items())},
           "samples": [{"rule": r, "construct": c} for (r, c) in sorted(res.ok)[:12]],
           "notes": res.notes[:20]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for r, c, m in viol:
                f.write("rule: %s\nconstruct: %s\n%s\n\n" % (r, c, m))
        for r, c, m in viol[:12]:
            print("  [%s] %s: %s" % (r, c, m.split("\n")[0][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        print("analysis broken: " + "; ".join(broken))
        return 3
    print("%s: %d obligations discharged, %d undecided, 0 violations (%.1f s)" %
          (pid, cov["discharged"], len(res.und), time.time() - t0))
    return 0


# ======================================================================= common runs
def ARG(n):
    return IN(('arg', n))


SOLVER = ARG('solver')


def member(p, *names):
    """pointer stored in a chain of members, in the initial state"""
    for n in names:
        p = IN(('init', p, (n,)))
    return p


WORK = member(SOLVER, 'work')
INFO = member(SOLVER, 'info')
SETT = member(SOLVER, 'settings')
SOLN = member(SOLVER, 'solution')
DATA = member(WORK, 'data')
SCAL = member(WORK, 'scaling')
POL = member(WORK, 'pol')


def at(st, I, p, *names):
    """current value of p->n1->n2... in state st"""
    for n in names:
        p = I.load(st, mkptr(p, (n,)))
    return p


def base_models():
    m = dict(algebra.M)

    def skip(I, st, inst, a, ctx):
        return VOID
    for n in ('print_setup_header', 'print_header', 'print_summary', 'print_footer', 'print_polish',
              'osqp_start_interrupt_listener', 'osqp_end_interrupt_listener'):
        m[n] = skip

    m['_osqp_error'] = m['_osqp_error_line'] = lambda I, st, inst, a, ctx: a[0]

    def strcpy(I, st, inst, a, ctx):
        base, path = split(a[0])
        st.mem[(base, IN(path + ('$str',)))] = a[1]
        return VOID
    m['c_strcpy'] = strcpy

    def ret(name):
        return lambda I, st, inst, a, ctx: I.unknown(st, inst, a, ctx, name, havoc=False)
    m['osqp_is_interrupted'] = ret('interrupted')
    for n in ('update_rho_vec', 'update_matrices', 'update_settings', 'adjoint_derivative'):
        m['*' + n] = ret(n)
    m['*warm_start'] = skip
    m['*free'] = skip

    def lin_solve(I, st, inst, a, ctx):
        xz = at(st, I, SOLVER, 'work', 'xz_tilde')
        if a[1] is xz:
            xv, zv = at(st, I, SOLVER, 'work', 'xtilde_view'), at(st, I, SOLVER, 'work', 'ztilde_view')
            rx, rz = I.vec(st, xv), I.vec(st, zv)
            I.setvec(st, xv, T.vf('linx', rx, rz), inst, ctx)
            I.setvec(st, zv, T.vf('linz', rx, rz), inst, ctx)
        else:
            I.setvec(st, a[1], T.v_atom(IN(('vf', 'linsolve', I.vec(st, a[1])))), inst, ctx)
        return I.unknown(st, inst, a, ctx, 'solve', havoc=False)
    m['*solve'] = lin_solve
    return m


def status_key(I, s):
    v = s.mem.get((INFO, IN(('status_val',))))
    return v if v is not None and v[0] == 'k' else '?'


def nonnull(I, st, *ps):
    for p in ps:
        st = I.assume(st, c_eq(p, K0), False)
    return st


def setting(f):
    return member(SETT, f)


def case_state(I, case, st=None):
    """initial state of an established solver under a configuration case {setting: 0 | '+' | value}"""
    st = st or absint.State()
    st = nonnull(I, st, SOLVER, WORK, INFO, SETT, SOLN, DATA, member(WORK, 'linsys_solver'))
    for f, v in case.items():
        x = setting(f) if f not in ('m', 'n') else member(DATA, f)
        if v == '+':
            st = I.assume(st, c_lt(K0, x), True)
        else:
            st = I.assume(st, c_eq(x, kk(v)), True)
    # ranges guaranteed by settings/data validation
    for f, lo, ls in (('max_iter', 1, False), ('check_termination', 0, False), ('adaptive_rho_interval', 0, False),
                      ('scaling', 0, False), ('eps_abs', 0, False), ('eps_rel', 0, False), ('rho', 0, True), ('sigma', 0, True),
                      ('alpha', 0, True), ('time_limit', 0, True), ('eps_prim_inf', 0, True), ('eps_dual_inf', 0, True),
                      ('adaptive_rho_fraction', 0, True), ('adaptive_rho_tolerance', 1, False), ('polish_refine_iter', 0, False)):
        if f not in case:
            s2 = I.assume(st, c_lt(K0, setting(f)) if ls else c_not(c_lt(setting(f), kk(lo))), True)
            st = s2 if s2 is not None else st
    if 'alpha' not in case:
        st = I.assume(st, c_lt(setting('alpha'), kk(2)), True)
    st = I.assume(st, c_lt(member(DATA, 'm'), K0), False)
    st = I.assume(st, c_lt(K0, member(DATA, 'n')), True)
    return st


SOLVE_CASES = [
    {'scaling': 0},
    {'scaling': '+', 'scaled_termination': 0},
    {'scaling': '+', 'scaled_termination': 1},
]


def fieldtypes(p):
    ft = {}
    for s, names in p.fields.items():
        for n, t in zip(names, p.fieldtypes[s]):
            ft.setdefault(n, t)
    return ft


def run_solve(p, case, hooks, models=None, keyfn=status_key):
    I = absint.Interp(p, models or base_models(), hooks, keyfn=keyfn)
    I.peel = int(os.environ.get("PEEL", "1"))
    st = case_state(I, case)
    fn = p.funcs.get('osqp_solve')
    if fn is None:
        raise Broken("osqp_solve not found")
    return I, I.run(fn, [SOLVER], st)


def account(res, I):
    res.count("functions", set(I.stats["functions"]))
    res.count("call_sites_executed", I.stats["calls"])
    res.count("abstract_blocks", I.stats["blocks"])
    res.count("joins", I.stats["joins"])


# ======================================================================= evaluation of states
def simple_fact(c):
    """condition comparing only initial scalars and constants"""
    def ok(t):
        if t[0] == 'k':
            return True
        if t[0] == 'init':
            return True
        if t[0] == 'sum':
            return all(ok(a) for m, _ in t[1] for a, _e in m)
        return False
    if c[0] in ('lt', 'eq'):
        return ok(c[1]) and ok(c[2])
    if c[0] == 'not':
        return simple_fact(c[1])
    return False


def holds(ev, facts, only=None):
    """do all (interpretable) path conditions hold in this interpretation?"""
    for c, v in facts.items():
        if only is not None and not only(c):
            continue
        try:
            if ev.cond(c) != v:
                return False
        except Undecided:
            pass
    return True


def samples(st, ft, want=4, tries=40, scaled=True, full=False, seed0=0, sizes=((2, 3), (3, 2), (2, 0)), tune=None, infs=0.15):
    """interpretations compatible with the (simple, or with full=True all) path conditions of st"""
    got = 0
    for k in range(tries):
        n, m = sizes[k % len(sizes)]
        S = Sample(seed0 * 1000 + k, n, m, scaling=scaled, fieldtype=ft, infs=infs)
        if tune:
            tune(S)
        try:
            if not holds(Eval(S, st), st.facts, None if full else simple_fact):
                continue
        except Infeasible:
            continue
        got += 1
        yield S
        if got >= want:
            return
