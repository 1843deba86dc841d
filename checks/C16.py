"""C16: osqp_update_settings changes exactly the updatable settings"""
import os
from osqpsa import setchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "every successful exit of osqp_update_settings is examined: each field of settings equals the new value (updatable) or its old value (fixed), and the linear-system solver was given the new values.",
                  {"updated": 12, "fixed": 6, "forwarded": 1}, t0, [])
