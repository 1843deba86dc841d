"""C06: each iteration applies the documented operator-splitting update"""
import os
from osqpsa import iterchk as A
from osqpsa.solvechk import keep
from osqpsa import algobl
from osqpsa.lib import finish


def main(pid, t0):
    res = A.collect(os.environ.get("VERIF_TIER", "quick"))
    res.merge(algobl.collect(pid))
    res = keep(res, pid)
    return finish(pid, res, "osqp_solve is abstractly interpreted per configuration with the current iterate (x,z,y) carried symbolically through all "
                  "iterations: at every solve of the linear system the right-hand side must be (sigma x - q, z - y/rho) of that iterate, and the contents "
                  "of x, z, y, delta_x, delta_y must become the documented relaxed, projected and dual-updated images before the next one.",
                  {"right-hand-side": 4, "iterate": 6, "difference": 4}, t0, ["the linear-system backend returns the solution of its KKT system (C26, C94)"])
