"""C28: Warm and cold starts define the starting iterate completely."""
import os
from osqpsa import apichk as A
from osqpsa.solvechk import keep
from osqpsa import algobl
from osqpsa.lib import finish


def main(pid, t0):
    res = A.collect(pid, os.environ.get("VERIF_TIER", "quick"))
    res.merge(algobl.collect(pid))
    res = keep(res, pid)
    return finish(pid, res, "osqp_warm_start (all NULL combinations), osqp_cold_start, osqp_setup and the first linear system of osqp_solve are abstractly interpreted; iterates, z = A x, and the linear-system start are compared with the documented starting point in internal units.",
                  {"start-iterate": 20, "linsys-start": 2, "cold": 3, "first-step": 4, "initial": 3, "enabled": 4}, t0, ["BLAS/VML/sparse BLAS routines compute their documentation"])
