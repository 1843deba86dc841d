"""C22: the interrupt handler is restored by every solve"""
import os
from osqpsa import pathchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "typestate of the interrupt disposition on every path of every public call; what the handler itself may touch.",
                  {"restored": 10, "handler": 1}, t0, [])
