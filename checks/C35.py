"""C35: profiler sections are balanced on every path"""
import os
from osqpsa import pathchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "the stack of profiler sections is tracked on every path of every public call and of every other function that enters or leaves one.",
                  {"balanced": 15}, t0, [])
