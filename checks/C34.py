"""C34: counters and timings describe the current run"""
import os
from osqpsa import loopchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "osqp_solve is abstractly interpreted per configuration with ghost counters: at every exit info->iter equals the iterations performed, run_time is the sum of "
                  "its components, solve and polish time are measured with the timer started for them, and no field except the documented accumulators is left unwritten or depends on its value at entry.",
                  {"iterations": 4, "run-time": 4, "timer": 2, "carried-over": 20}, t0, ["the timer functions measure time (platform code)"])
