"""C30: generated code reproduces the solver's complete state"""
import os
from osqpsa import cgenchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect30(pid, os.environ.get("VERIF_TIER", "quick")), pid)
    return finish(pid, res, "osqp_codegen is summarised from the compiled intermediate representation with the library calls that write files left symbolic; following the summary for every combination of embedded mode, "
                  "scaling, vector penalty and presence of constraints gives the text of every generated file with the printed values still terms of the solver's members. Each initialiser of that text is compared, by position, "
                  "with the layout the compiler gives the structure in the embedded configuration: it must be the member of the same name, with the right length for arrays and a format that keeps the value; "
                  "work arrays must have the size the solver uses, the views must show their part of the vector, the operations must be the ones the backend's initialisation installs, and the options header must repeat the options.",
                  {} if res.und else {"member": 20, "options": 4}, t0,
                  ["the embedded configuration is compiled with the options written to osqp_configure.h", "sizes of the solver's arrays are those osqp_setup gives them"])
