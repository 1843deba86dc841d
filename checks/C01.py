"""C01: a solve's reported status always describes that solve."""
from osqpsa import solvechk as K


def main(pid, t0):
    return K.check(pid, t0, "osqp_solve is abstractly interpreted per configuration; the status at each exit must be a constant stored during the "
                   "call (OSQP_UNSOLVED only with an error return), no branch may depend on a result field (status, residuals, "
                   "objective, iteration count, ...) as left by an earlier call, and the interrupted/time-limit statuses need their "
                   "test on the path.", {"fresh-status": 7, "stale-decision": 30, "cause": 1}, t0,
                   ["algebra layer does not touch OSQPInfo"])
