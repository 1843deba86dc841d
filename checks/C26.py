"""C26: the linear system always represents the current P, A, sigma and rho"""
import os
from osqpsa import kktchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "The assembly of the KKT matrix, the initialisation, update and solve operations of every linear-system backend are summarised from the compiled intermediate representation. "
                  "Iterations of the counting sort are interpreted in isolation on symbolic column counters: the sets of increments and placements, composed with the prefix sum and the shift of the counters, "
                  "must be those of [[P + sigma I, A'], [A, -diag(1/rho)]] with maps leading to every entry; updates must bring exactly the mapped entries to the current data before the factorisation they call; "
                  "the iterative solver must answer every request with the reduced matrix of the current data.", {"assembly": 6, "system": 2, "refresh": 3, "solve": 2, "reduced": 2}, t0,
                  ["row indices are sorted within each column", "PARDISO, QDLDL, AMD and MKL's conjugate gradients do what their documentation says", "algebra operations compute their definitions (C25, C37)"])
