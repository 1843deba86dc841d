"""C29: polishing never makes the returned solution worse"""
import os
from osqpsa import loopchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "osqp_solve is abstractly interpreted per configuration with the iterate and residuals for which the status was decided kept in ghost cells: at every "
                  "exit without accepted polishing x, y, z and the residuals must be those; with it the path conditions must imply that each residual is reduced or below 1e-10; "
                  "the polishing status must agree with what happened on the path.",
                  {"status": 6, "kept": 12, "accepted": 1}, t0, ["objective and gap belong to the iterate stored (C05)", "failing allocations are treated by C13"])
