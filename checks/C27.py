"""C27: Problem scaling can always be undone exactly."""
import os
from osqpsa import apichk as A
from osqpsa.solvechk import keep
from osqpsa import algobl
from osqpsa.lib import finish


def main(pid, t0):
    res = A.collect(pid, os.environ.get("VERIF_TIER", "quick"))
    res.merge(algobl.collect(pid))
    res = keep(res, pid)
    return finish(pid, res, "osqp_setup and osqp_update_data_mat are abstractly interpreted with the relations P=cDP0D, A=EA0D, q=cDq0 carried through the equilibration loop by induction; unscale-update-rescale sequences must reproduce the original data, and the stored inverses must be the reciprocals of the stored factors at every exit.",
                  {"scaling-relation": 40, "inverses": 20}, t0, ["BLAS/VML/sparse BLAS routines compute their documentation"])
