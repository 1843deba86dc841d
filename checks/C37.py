"""C37: sparse matrix primitives compute their definition for every pattern"""
import os
from osqpsa import matchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "Every arithmetic operation of the sparse matrix layer, in both algebra backends, is summarised from the compiled intermediate representation: loops must be counted over "
                  "columns and column pointers, cells shared by several entries may only accumulate sums or maxima, and the contribution of the generic entry (first/last/interior row, column and position, "
                  "diagonal or not, general or upper triangular storage) must be the definition's.", {"definition": 10}, t0,
                  ["row indices are in range and no entry is stored twice (the format's invariant)", "mkl_sparse_d_mv computes its documentation"])
