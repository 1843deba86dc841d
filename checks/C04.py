"""C04: each status determines exactly which outputs are meaningful, and all are set."""
from osqpsa import solvechk as K


def main(pid, t0):
    return K.check(pid, t0, "osqp_solve is abstractly interpreted per configuration, the exit states partitioned by reported status; in each, the "
                   "four output vectors must have been written in this call, those the status provides with the (unscaled) final iterate "
                   "or certificate, the others with the not-available value.", {"all-set": 20, "content": 20}, t0, [])
