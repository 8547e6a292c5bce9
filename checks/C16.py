#!/usr/bin/env python3
"""C16: normalisation against a closed form in extended precision."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

SAN = ("-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")


def check(c):
    c.rule = "distinct (angular momentum, contraction length) combinations"
    c.assumptions = ["tolerance (200 + 10 l) eps times the cancellation factor of the contraction; contractions that cancel by more than 1e8 are not judged",
                     "angular momenta up to SHELL_PRIM_NORMFAC_MAXL"]
    jobs = []
    n = 16 if THOROUGH else 4
    a = ["--cases", "20000" if THOROUGH else "1500"]
    for v in (allvecs() if THOROUGH else ["avx2", "scalar"]):
        jobs.append(Job(1, v, [("norm", n, a)], GEN, harness="mon_pair.cpp", cflags=O3 if v == "avx2" else O0, d=int(v == "scalar")))
    jobs.append(Job(1, "avx2", [("norm", n, a)], GEN, harness="mon_pair.cpp", cflags=SAN))
    execute(c, jobs)
    c.finish(100)


vlib.main(check, "C16")
