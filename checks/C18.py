"""C18: malformed problem data is rejected before it is used"""
import os
from osqpsa import datachk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "osqp_setup is summarised from the compiled intermediate representation up to the first call that leaves the library (in both algebra backends).  For every kind of malformed "
                  "problem - the malformed entry, row, column or bound being generic (first, last, interior; any neighbours) - the summary must return the data-validation error before that point and without "
                  "reading outside the arrays given; for well-formed problems it must not.  osqp_update_data_vec/_mat are abstractly interpreted: crossing bounds, counts outside 0..nnz and partial updates without index "
                  "never reach a successful exit.", {"setup": 15, "bounds-ordered": 10, "counts": 6}, t0,
                  ["column pointers and row indices describe valid arrays (the sparse format itself is not validated by osqp_setup and not part of the property)", "bounds are not NaN"])
