"""C13: a failing allocation is reported"""
import os
from osqpsa import memchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "every public call and every acquiring function of the vector, matrix and linear-system layers is interpreted with each of its allocations failing in turn: the missing block may not be read, written or passed to a function that does, and the call must report the failure; after a failed osqp_setup the handle is passed to osqp_cleanup.",
                  {"reported": 20, "no-use": 20}, t0, [])
