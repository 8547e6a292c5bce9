#!/usr/bin/env python3
"""C19: dummy shells: two- and three-centre integrals and derivatives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *


def check(c):
    c.rule = "distinct (class, dummy positions, geometry family, exponent regime) combinations compared with the reference"
    c.assumptions = ["at most one dummy shell per side (two on one side leave no Gaussian to integrate)", "|error| <= 200 eps * sum of absolute contributions counts as rounding accuracy (largest seen: about 8)"]
    jobs = []
    if not THOROUGH:
        jobs.append(Job(2, "avx2", [("zero", 8, ["--cases", "3"])], GEN, d=1))
        jobs.append(Job(2, "sse", [("zero", 8, ["--cases", "3"])], EXT, p=0))
        jobs.append(Job(2, vecs("avx", "commonavx512")[-1], [("zero", 8, ["--cases", "3"])], INL))
        jobs.append(Job(6, "avx2", [("zero", 8, ["--cases", "2"])], GEN, d=1, sparse=classes(6, 1, 8, 1, ("isps", "hsss", "hpds"))))
        jobs.append(Job(1, "scalar", [("zero", 4, ["--cases", "20"])], INL, d=1))
        jobs.append(Job(2, "avx", [("zero", 4, ["--cases", "3"])], MIX, d=1, p=1))
        for v, cc in ARM[:2]:
            jobs.append(Job(1, v, [("zero", 4, ["--cases", "8"])], GEN, cflags=O1, cc=cc))
    else:
        for v, cc in ARM:
            jobs.append(Job(2, v, [("zero", 16, ["--cases", "20"])], MIX, cflags=O1, cc=cc, d=1))
        for v in allvecs():
            jobs.append(Job(4, v, [("zero", 16, ["--cases", "10"])], GEN, cflags=O1))
            jobs.append(Job(2, v, [("zero", 16, ["--cases", "100"])], EXT, cflags=O3, d=1))
            jobs.append(Job(7, v, [("zero", 16, ["--cases", "6"])], GEN, d=1, sparse=[q for q in classes(7, 60, 11, 2, ("ksks", "kpss")) if q[1] == 0 or q[3] == 0][:16]))
            jobs.append(Job(2, v, [("zero", 16, ["--cases", "60"])], INL, cflags=O1, d=1))
            jobs.append(Job(3, v, [("zero", 16, ["--cases", "20"])], MIX, cflags=O1, d=1, p=1))
    execute(c, jobs)
    c.finish(10000)


vlib.main(check, "C19")
