#!/usr/bin/env python3
"""C10: kinetic-energy integrals against an independent evaluation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *


def check(c):
    c.rule = "distinct (angular momenta, geometry/exponent family) combinations compared with the reference"
    c.assumptions = ["the reference (double-double arithmetic, independent recurrences) is right", "|error| <= 200 eps * sum of absolute contributions counts as rounding accuracy", "contraction lengths up to 6, angular momenta up to the largest the code supports"]
    jobs = []
    am = ["--am", "12"]
    if not THOROUGH:
        jobs.append(Job(1, "avx2", [("ke", 8, ["--cases", "40"] + am)], GEN, harness="mon_oe.cpp", cflags=O1))
        jobs.append(Job(2, "scalar", [("ke", 8, ["--cases", "20"] + am)], GEN, harness="mon_oe.cpp"))
        jobs.append(Job(1, vecs("sse", "commonavx512")[-1], [("ke", 8, ["--cases", "20"] + am)], GEN, harness="mon_oe.cpp", d=1))
    else:
        for v in allvecs():
            jobs.append(Job(1, v, [("ke", 32, ["--cases", "1000"] + am)], GEN, harness="mon_oe.cpp", cflags=O3, timeout=900))
        jobs.append(Job(3, "avx2", [("ke", 32, ["--cases", "1000"] + am)], GEN, harness="mon_oe.cpp", cflags=O1, cc="clang", timeout=900))
    execute(c, jobs)
    c.finish(5000)


vlib.main(check, "C10")
