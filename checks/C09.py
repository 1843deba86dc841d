"""C09: A rejected call leaves the solver exactly as it was."""
import os
from osqpsa import apichk as A, setchk as B
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    tier = os.environ.get("VERIF_TIER", "quick")
    res = A.collect(pid, tier)
    res.merge(B.collect(pid, tier))
    res = keep(res, pid)
    return finish(pid, res, "every exit of the update functions that returns a validation error is examined: each location reachable from the solver handle (scratch that every reader rewrites first excepted) holds its initial value and the linear system was not called.",
                  {"rejections": 6}, t0, ["algebra layer computes its definitions (C25)"])
