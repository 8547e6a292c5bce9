#!/usr/bin/env python3
"""C04: screening: estimates, their maxima, and what they make the integral code drop."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *


def check(c):
    c.rule = "distinct (class, screening method, decade of the tolerance) combinations for which screened and unscreened results were compared"
    c.assumptions = ["contributions of single primitive quartets are taken from the reference; an integral may change by at most the contributions whose estimate product is below tol^2, plus rounding",
                     "the bound tol per primitive quartet is checked for the Schwarz method only (the fast method promises no bound)"]
    jobs = []
    if not THOROUGH:
        jobs.append(Job(2, "avx2", [("screen", 8, ["--cases", "2", "--lmin", "2", "--maxclasses", "6"])], GEN, d=1))
        jobs.append(Job(2, "sse", [("screen", 8, ["--cases", "2", "--lmin", "2", "--maxclasses", "6"])], EXT))
        jobs.append(Job(5, "sse", [("screen", 8, ["--cases", "2"])], GEN, sparse=classes(5, 3, 7, 1, screening=True)))
        for v in allvecs():
            jobs.append(Job(1, v, [("screen", 8, ["--cases", "8"])], INL if v in ("sse", "avx2") else GEN if v == "avx" else MIX, d=0 if v == "sse" else 1))
        for v, cc in ARM[:2]:
            jobs.append(Job(1, v, [("screen", 4, ["--cases", "6"])], GEN, cflags=O1, cc=cc, d=1))
    else:
        for v, cc in ARM:
            jobs.append(Job(1, v, [("screen", 16, ["--cases", "50"])], MIX, cflags=O1, cc=cc, d=1))
        for v in allvecs():
            jobs.append(Job(2, v, [("screen", 16, ["--cases", "10"])], EXT, cflags=O1, d=1))
            jobs.append(Job(1, v, [("screen", 16, ["--cases", "150"])], INL, cflags=O1, d=1))
            jobs.append(Job(1, v, [("screen", 16, ["--cases", "150"])], GEN, cflags=O3, d=1, p=0))
        jobs.append(Job(3, "avx2", [("screen", 16, ["--cases", "2", "--lmin", "3", "--maxclasses", "12"])], GEN, cflags=O1))
        for k, v in enumerate(allvecs()):
            jobs.append(Job(5, v, [("screen", 16, ["--cases", "4"])], GEN if k % 2 else MIX, d=k % 2, sparse=classes(5, 4, 7, 10 + k, screening=True)))
    execute(c, jobs)
    c.finish(20000)


vlib.main(check, "C04")
