"""C05: reported objective, residuals and gap follow their mathematical definitions."""
from osqpsa import solvechk as K


def main(pid, t0):
    return K.check(pid, t0, "osqp_solve is abstractly interpreted per configuration; at every store of a solved/max-iteration status and at every "
                   "successful exit the reported quantities are compared, as functions of the final iterate, with their mathematical "
                   "definitions, and the stopping tolerances in force with eps_abs + eps_rel*max(norms).",
                   {"reported-value": 15, "acceptance": 4}, t0, ["BLAS/VML/sparse BLAS routines compute their documentation"])
