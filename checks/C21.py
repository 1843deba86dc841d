"""C21: work per call is bounded and interruptible"""
import os
from osqpsa import loopchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "osqp_solve is abstractly interpreted per configuration with a ghost count of the iterations (solves of the ADMM linear system): at every one of them "
                  "the path must bound the count by max_iter, have taken the negative outcome of an interrupt test and (with a time limit set) compared the elapsed time with it "
                  "since the previous one; the refinement steps of polishing must number exactly polish_refine_iter.",
                  {"iterations": 4, "interrupt": 2, "time-limit": 2, "refinement": 2}, t0, ["the interrupt flag and the timer report what they are asked for (C22, platform code)", "the compiler's loop structure is the one analysed"])
