"""C17: every setting is defaulted, copied and honoured"""
import os
from osqpsa import setchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "osqp_set_default_settings writes each field with its documented default; at successful exits of osqp_setup each field of the solver settings equals the given one (rho clamped); every field is read by a computation reachable from the public functions (functions that only copy, validate, print or write settings do not count).",
                  {"default": 30, "copied": 30, "consumed": 15}, t0, [])
