"""C25: vector primitives compute their definition for every length"""
import os
from osqpsa import vecchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "Every elementwise and reduction operation of the vector layer, in both algebra backends, is summarised from the compiled intermediate representation: each loop must be "
                  "counted with indices affine in the iteration number and cover exactly 0..n-1; its generic iteration is compared with the operation's definition, for every aliasing of destination "
                  "and operands the callers use, including the empty vector.", {"definition": 40}, t0, ["BLAS/VML routines compute their documentation"])
