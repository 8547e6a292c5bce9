#!/usr/bin/env python3
"""C03: results of quartets alone and inside batches, for all ways of assembling and clipping."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *


def check(c):
    c.rule = "distinct (class, assembly of bra and ket pairs, batch size relative to the vector length) combinations"
    c.assumptions = ["results are compared bitwise first; differences up to 200 eps * sum of absolute contributions count as rounding (different order of primitives)",
                     "up to 3 * SIMINT_NSHELL_SIMD + 2 pairs per side, contraction lengths up to 4"]
    jobs = []
    if not THOROUGH:
        jobs.append(Job(2, "avx2", [("batch", 8, ["--cases", "2"])], GEN, d=1))
        jobs.append(Job(1, "sse", [("batch", 8, ["--cases", "8"])], INL, d=1, p=0))
        jobs.append(Job(1, "scalar", [("batch", 8, ["--cases", "8"])], EXT, d=1))
        jobs.append(Job(2, vecs("avx", "commonavx512")[-1], [("batch", 8, ["--cases", "1"])], INL))
        jobs.append(Job(1, vecs("avx", "commonavx512")[-1], [("batch", 8, ["--cases", "5"])], INL, d=1))
        jobs.append(Job(1, "avx", [("batch", 8, ["--cases", "8"])], MIX, d=1))
        jobs.append(Job(5, "sse", [("batch", 8, ["--cases", "1"])], GEN, sparse=classes(5, 3, 8, 1, screening=True)))
        jobs.append(Job(4, "avx2", [("batch", 8, ["--cases", "1"])], MIX, d=1, sparse=classes(4, 2, 7, 2, screening=True)))
        if have_avx512():
            jobs.append(Job(1, "avx512", [("batch", 8, ["--cases", "5"])], INL))
        for v, cc in (ARM[0], ARM[1], ARM[5]):
            jobs.append(Job(1, v, [("batch", 4, ["--cases", "3"])], GEN, cflags=O1, cc=cc, d=1))
    else:
        for v, cc in ARM:
            jobs.append(Job(1, v, [("batch", 16, ["--cases", "30"])], MIX, cflags=O1, cc=cc, d=1, p=0))
        for v in allvecs():
            jobs.append(Job(3, v, [("batch", 16, ["--cases", "4"])], GEN, cflags=O1, d=1))
            jobs.append(Job(2, v, [("batch", 16, ["--cases", "12"])], EXT, cflags=O1, d=1))
            jobs.append(Job(2, v, [("batch", 16, ["--cases", "20"])], INL, cflags=O1))
            jobs.append(Job(1, v, [("batch", 16, ["--cases", "100"])], INL, cflags=O3, d=1, p=0))
            jobs.append(Job(5, v, [("batch", 16, ["--cases", "3"])], GEN, d=1, sparse=classes(5, 5, 9, 3, screening=True)))
            jobs.append(Job(4, v, [("batch", 16, ["--cases", "3"])], MIX, d=1, sparse=classes(4, 5, 8, 4, screening=True)))
    execute(c, jobs)
    c.finish(20000)


vlib.main(check, "C03")
