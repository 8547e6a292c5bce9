#!/usr/bin/env python3
"""C17: the same calls through the Fortran module, through C, and mixed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

SAN = ("-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")


def check(c):
    c.rule = "distinct (class, derivative order, way the objects were made on either side) combinations computed through Fortran, C and mixed"
    c.assumptions = ["workspaces are allocated by either language and begin at any element",
                     "gfortran; both CMake generators (Makefiles, Ninja), which preprocess the module differently"]
    H = ["mon_fort.cpp", "fort_driver.f90"]
    n = 16 if THOROUGH else 4
    a = ["--cases", "1500" if THOROUGH else "120"]
    jobs = []
    MK = "Unix Makefiles"
    cfg = [(2, "avx2", 0, O0, MK), (2, "avx2", 1, O0, MK), (1, "scalar", 1, SAN, "Ninja"), (1, "sse", 0, SAN, "Ninja")]
    if THOROUGH:
        cfg += [(2, v, d, f, g) for v in allvecs() for d in (0, 1) for f in (O3, SAN) for g in (MK, "Ninja")]
        cfg += [(3, "avx2", 1, O1, MK)]
    for l, v, d, f, g in cfg:
        jobs.append(Job(l, v, [("x", n, a)], GEN, harness=H, cflags=f, d=d, fortran=True, generator=g, cxxflags=("-O3" if f is O3 else "-O1", "-g1")))
    # limits set when building: derivatives generated but not built
    jobs.append(Job(2, "avx2", [("x", n, a)], GEN, harness=H, cflags=O0, d=1, maxder=0, fortran=True, generator=MK))
    jobs.append(Job(2, "avx2", [("x", n, a)], GEN, harness=H, cflags=O0, d=1, maxam=1, fortran=True, generator="Ninja"))
    execute(c, jobs)
    c.finish(500)


vlib.main(check, "C17")
