"""the algebra operations a property's analysis takes for granted are obligations of that property too

The operations are those reachable in the call graph from the property's entry points; each is decided by vecchk / matchk."""
from . import prog as PG, vecchk, matchk
from .lib import Result, parallel


def reachable(p, roots):
    seen, work = set(), [r for r in roots if r in p.funcs]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        f = p.funcs.get(n)
        if f is None or n in vecchk.OPSPEC or n in MATOPS:
            continue
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'call' and i.x['callee'][0] == 'glob' and i.x['callee'][1] in p.funcs:
                    work.append(i.x['callee'][1])
    return seen


MATOPS = {n.split()[0] for n in matchk.SPECS}


def one(cfg, kind, name, pid):
    r = (vecchk if kind == 'v' else matchk).job(cfg, name)
    q = ('C25' if kind == 'v' else 'C37') + '/definition'
    for d in (r.ok, r.bad, r.und):
        for k in [k for k in d if k[0] == q]:
            d[(pid + '/algebra', k[1])] = d.pop(k)
    r.info.pop('functions', None)
    return r


DATA = ['osqp_update_data_vec', 'osqp_update_data_mat']
ROOTS = {'C02': ['osqp_solve'], 'C03': ['osqp_solve', 'osqp_warm_start'] + DATA, 'C05': ['osqp_solve'], 'C06': ['osqp_solve'],
         'C07': ['osqp_setup', 'osqp_update_rho', 'osqp_update_data_vec'], 'C08': DATA, 'C27': ['osqp_setup'] + DATA, 'C28': ['osqp_warm_start', 'osqp_cold_start']}


def collect(pid, roots=None):
    roots = roots or ROOTS[pid]
    jobs = []
    for cfg in ('mkl', 'builtin'):
        use = reachable(PG.load(cfg), roots)
        jobs += [(cfg, 'v', n, pid) for n in vecchk.OPSPEC if n in use]
        jobs += [(cfg, 'm', n, pid) for n in matchk.SPECS if n.split()[0] in use]
    return parallel(one, jobs)
