"""C33: penalty adaptation"""
import os
from osqpsa import loopchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "osqp_solve is abstractly interpreted per configuration and adaptation mode: at every update of the penalty in the linear system the path conditions must "
                  "imply enabled adaptation, an iteration count that is a multiple of the interval, a new value outside the tolerance band around the current one, inside the "
                  "limits and equal to the reported estimate; info->rho_updates must have advanced by the number of updates (ghost counter).",
                  {"enabled": 2, "schedule": 2, "factor": 2, "limits": 4, "estimate": 2, "count": 6}, t0, ["path conditions are compared with the obligation on sampled interpretations of the symbols"])
