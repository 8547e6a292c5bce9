#!/usr/bin/env python3
"""C12: Boys function against an independent evaluation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *


def check(c):
    c.rule = "distinct (order, argument region) combinations"
    c.assumptions = ["relative error <= 100 eps (largest seen: 19); the asymptotic branch of orders 0..3 is allowed its truncation error, which is below rounding on the scale of F_0",
                     "orders up to 29 (integrals up to l = 7 and first derivatives), arguments up to 1e300"]
    jobs = []
    for i, v in enumerate(allvecs() if THOROUGH else vecs("scalar", "sse", "avx", "avx2", "commonavx512")):
        n = 16 if THOROUGH else 4
        a = ["--cases", "4000" if THOROUGH else "400", "--nmax", "29"]
        jobs.append(Job(1, v, [("x", n, a)], GEN, harness="mon_boys.cpp", cflags=O1))
        if THOROUGH or v in ("avx2", "scalar"):
            jobs.append(Job(1, v, [("x", n, a)], GEN, harness="mon_boys.cpp", cflags=O3, cxxflags=("-O3", "-g1")))
        if THOROUGH:
            jobs.append(Job(1, v, [("x", n, a)], GEN, harness="mon_boys.cpp", cflags=O1, cc="clang", cxxflags=("-O2",)))
    for v, cc in ARM:
        jobs.append(Job(0, v, [("x", n, a)], GEN, harness="mon_boys.cpp", cflags=O1, cc=cc, cxxflags=("-O1", "-g1")))
    execute(c, jobs)
    c.finish(10000)


vlib.main(check, "C12")
