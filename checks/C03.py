"""C03: everything reported is in the user's original problem units."""
import os
from osqpsa import solvechk as K, apichk as A, prog as PG, algobl
from osqpsa.lib import parallel, finish


def main(pid, t0):
    tier = os.environ.get("VERIF_TIER", "quick")
    PG.load('mkl')
    res = parallel(K.run, [(c, {pid}) for c in K.cases(tier) if c.get('scaling') != 0])
    res.merge(A.collect(pid, tier))
    res.merge(algobl.collect(pid))
    return finish(pid, K.keep(res, pid), "Outputs: at every successful exit of osqp_solve with scaling on, x, y, the certificates and the reported residuals and "
                  "objectives are compared, as functions of the final iterate, with their unscaled definitions.  Inputs: every data vector, matrix and "
                  "starting point accepted by osqp_setup, osqp_update_data_vec, osqp_update_data_mat and osqp_warm_start equals the caller's "
                  "times the scaling stored at that point, through the equilibration loop by induction.",
                  {"unscaled-output": 2, "unscaled-certificate": 1, "reported-value": 10, "input-units": 60}, t0,
                  ["BLAS/VML/sparse BLAS routines compute their documentation", "with scaled_termination the tolerances and residuals compared are those of the scaled problem"])
