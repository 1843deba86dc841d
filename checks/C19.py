"""C19: no internal failure is swallowed"""
import os
from osqpsa import pathchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "every public call is interpreted with each internal operation failing in turn (linear-system update/initialisation, allocation in polishing, third-party factorisation); every exit after a failure must be an error.",
                  {"reported": 3, "backend": 4, "allocation": 5}, t0, [])
