"""C31: code generation never overruns its buffers and reports every failure"""
import os
from osqpsa import cgenchk as A
from osqpsa.solvechk import keep
from osqpsa.lib import finish


def main(pid, t0):
    res = keep(A.resources(pid), pid)
    return finish(pid, res, "osqp_codegen is summarised from the compiled intermediate representation with its library calls left symbolic, and every path of the summary is followed for every outcome of fopen, ferror and fclose. "
                  "The length of every string built is a linear form in the lengths of the directory and the prefix, which the tests passed on the path bound: it must fit the buffer. Every file must be tested, written only while open, "
                  "closed exactly once, and no path on which a file could not be opened or completely written may report success.", {} if res.und else {"files": 10, "buffers": 1}, t0,
                  ["output directory and prefix are strings (not NULL)", "stdio reports failures through ferror and fclose"])
