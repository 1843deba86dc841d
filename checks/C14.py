"""C14: allocation-free iterations"""
import os
from osqpsa import pathchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "each public call other than setup, cleanup and the derivative functions (osqp_solve with polishing off) is interpreted; every call executed and everything reachable from the functions below is searched for allocators.",
                  {"no-allocation": 10}, t0, [])
