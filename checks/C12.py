"""C12: every resource acquired is released exactly once"""
import os
from osqpsa import memchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "every public call is interpreted with each of its allocations failing in turn; the set of blocks held on each path is tracked. osqp_setup is followed by osqp_cleanup from each of its exits, every acquiring function of the vector, matrix, settings and linear-system layers by its release function; nothing may be left, released twice, or released with another allocator's function.",
                  {"leak": 20, "matching": 5}, t0, [])
