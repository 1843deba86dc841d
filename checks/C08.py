"""C08: Problem data updates fully take effect."""
import os
from osqpsa import apichk as A
from osqpsa.solvechk import keep
from osqpsa import algobl
from osqpsa.lib import finish


def main(pid, t0):
    res = A.collect(pid, os.environ.get("VERIF_TIER", "quick"))
    res.merge(algobl.collect(pid))
    res = keep(res, pid)
    return finish(pid, res, "osqp_update_data_vec/_mat are abstractly interpreted for every combination of given/NULL arguments, scaled and unscaled; at every successful exit the internal problem equals the new one under the scaling stored, untouched data keep their meaning, the linear system was handed the final matrices with an index/count covering every changed entry, and the results of the old problem are reset.",
                  {"vector-data": 40, "matrix-data": 100, "linsys-matrices": 30, "linsys-extent": 30, "results-reset": 16}, t0, ["BLAS/VML/sparse BLAS routines compute their documentation"])
