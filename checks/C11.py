"""C11: caller-owned inputs are copied, never modified or kept"""
import os
from osqpsa import escapechk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "Inclusion-based pointer analysis of the whole library with one summary per function (objects reachable from each parameter that are stored "
                  "through, pointers left in memory), instantiated at every call: no store may go through an input argument of a public function or anything reachable "
                  "from it, and no memory that survives the call may hold a pointer into it.",
                  {"read-only": 10, "not-kept": 10}, t0, ["BLAS and libc functions write only the arguments their documentation says", "memcpy of run-time length copies numbers, not pointers"])
