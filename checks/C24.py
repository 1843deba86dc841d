"""C24: every linear-system backend implements the full contract"""
import os
from osqpsa import linschk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "The initialisation and every operation of every linear-system backend are summarised from the compiled intermediate representation with the calls that leave the library left symbolic. "
                  "The operations and members the solver uses without testing them (found from the indirect calls through the generic backend structure) must be supplied, at the same place of the structure and with the same number of arguments. "
                  "Every call of a summary that can fail (allocation, assembly, ordering, analysis, factorisation, solve) is taken to fail in turn: the operation must report it, and what was taken must be released exactly once, "
                  "by the operation itself or by the backend's release operation through a handle that is still valid.", {"operations": 2, "release": 2, "failure": 30}, t0,
                  ["PARDISO, QDLDL, AMD and MKL's conjugate gradients report their errors as documented", "one failure per history"])
