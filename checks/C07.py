"""C07: The penalty parameter is the same everywhere."""
import os
from osqpsa import apichk as A
from osqpsa.solvechk import keep
from osqpsa import algobl
from osqpsa.lib import finish


def main(pid, t0):
    res = A.collect(pid, os.environ.get("VERIF_TIER", "quick"))
    res.merge(algobl.collect(pid))
    res = keep(res, pid)
    return finish(pid, res, "osqp_setup, osqp_update_rho, bound updates (osqp_update_data_vec) and the adaptation inside osqp_solve are abstractly interpreted; at every successful exit settings->rho, the per-constraint vector, its inverses, the constraint types and the rho handed to the linear system are compared, as functions of the inputs, with the clamped value and the per-type rule.",
                  {"settings-rho": 10, "rho-vec": 6, "rho-inv": 10, "linsys-rho": 10, "constraint-types": 8}, t0, ["BLAS/VML/sparse BLAS routines compute their documentation"])
