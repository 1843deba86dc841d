"""C32: with verbose off only errors are printed"""
import os
from osqpsa import pathchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "every public call is interpreted with verbose=0, tracking whether anything was printed; a printing path must fail. Functions below print only on the way to an error.",
                  {"silent": 10, "lower": 5}, t0, [])
