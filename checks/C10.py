"""C10: an uninitialised handle is rejected, never dereferenced"""
from osqpsa import nullchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.collect(), pid)
    return finish(pid, res, "every public function declared with a solver handle is interpreted with a NULL handle and with a handle whose workspace is missing; every memory access and every exit of each is examined.",
                  {"no-dereference": 20, "returns": 12}, t0, [])
