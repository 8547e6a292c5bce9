#!/usr/bin/env python3
"""C18: histories of initialisation and finalisation around computations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

SAN = ("-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")


def check(c):
    c.rule = "distinct histories of simint_init / simint_finalize / compute calls"
    c.assumptions = ["every history ends initialised; results are compared bit for bit with those after the first initialisation",
                     "leaks are judged by LeakSanitizer at exit"]
    jobs = []
    n = 16 if THOROUGH else 4
    a = ["--cases", "200" if THOROUGH else "15"]
    jobs.append(Job(2, "avx2", [("init", n, a)], GEN, harness="mon_pair.cpp", cflags=O1, d=1))
    jobs.append(Job(2, "scalar", [("init", n, a)], MIX, harness="mon_pair.cpp", cflags=O0))
    jobs.append(Job(1, "avx2", [("init", n, a)], GEN, harness="mon_pair.cpp", cflags=SAN, d=1))
    jobs.append(Job(1, "sse", [("init", n, a)], INL, harness="mon_pair.cpp", cflags=SAN, d=0))
    if THOROUGH:
        for v in allvecs():
            for d in (0, 1):
                for st in (INL, EXT, GEN, MIX):
                    jobs.append(Job(2, v, [("init", n, ["--cases", "60"])], st, harness="mon_pair.cpp", cflags=O0, d=d))
    execute(c, jobs)
    c.finish(30)


vlib.main(check, "C18")
