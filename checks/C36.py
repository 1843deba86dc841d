"""C36: the capabilities reported are those of the build"""
import os
from osqpsa import capchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "osqp_capabilities is evaluated from the compiled intermediate representation of four configurations (MKL; built-in algebra with code generation and derivatives; both embedded "
                  "modes): each capability bit must be set exactly when every path of the functions of that feature avoids the not-implemented error, osqp_setup (evaluated from its summary) must accept exactly "
                  "the linear-system solvers reported, and the solver initialised must be of the type asked for.", {"bits": 5, "feature": 8, "linsys": 6}, t0,
                  ["the configuration macros are those the build system generates (stubs/*/osqp_configure.h)", "the GPU backend is not analysed"])
