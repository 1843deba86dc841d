"""C15: settings outside their documented range are rejected everywhere"""
import os
from osqpsa import setchk as A, apichk as B
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    tier = os.environ.get("VERIF_TIER", "quick")
    res = A.collect(pid, tier)
    res.merge(B.collect(pid, tier))
    res = keep(res, pid)
    return finish(pid, res, "the values of every setting are partitioned at its documented bounds; osqp_setup and osqp_update_settings are abstractly interpreted once per region with all other settings in range: no exit may succeed for a region outside, none may report the settings error for a region inside; combinations of eps_abs and eps_rel and the default settings likewise.",
                  {"rejects": 40, "accepts": 30}, t0, ["not-a-number settings are outside the statement"])
