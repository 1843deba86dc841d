"""C02: a success or infeasibility status is backed by its acceptance test."""
from osqpsa import solvechk as K


def main(pid, t0):
    return K.check(pid, t0, "osqp_solve is abstractly interpreted (interprocedurally, per configuration of scaling, scaled_termination, "
                   "check_dualgap, adaptive_rho, m=0, verbose).  At every store of a success or infeasibility status the path "
                   "conditions are compared, as functions of the iterates, with the documented criteria (own tolerance, own norm terms, x10 for "
                   "the inaccurate statuses): each criterion must be one of the path conditions up to a positive factor, or be "
                   "implied by them in every sampled interpretation; the residuals compared must be those of the current iterate.",
                   {"acceptance": 14, "reported-value": 4}, t0,
                   ["BLAS/VML/sparse BLAS routines compute their documentation", "interpretations are random: equality of functions is decided with probability close to 1"])
