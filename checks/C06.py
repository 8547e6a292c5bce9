#!/usr/bin/env python3
"""C06: repetition with other buffer, stack and heap contents; inputs unchanged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *


def check(c):
    c.rule = "distinct (routine and class, screening method) combinations whose results were reproduced bit by bit"
    c.assumptions = ["hidden state is detected if it changes a result under: other workspace/output/stack/heap contents, other calls in between, another thread, a later call"]
    jobs = []
    if not THOROUGH:
        jobs.append(Job(2, "avx2", [("pure", 8, ["--cases", "2"])], GEN, d=1))
        jobs.append(Job(2, "sse", [("pure", 8, ["--cases", "2"])], EXT, cflags=O1))
        jobs.append(Job(6, "avx", [("pure", 8, ["--cases", "1"])], GEN, d=1, sparse=classes(6, 3, 9, 1)))
        for v in allvecs():
            jobs.append(Job(1, v, [("pure", 8, ["--cases", "8"])], INL if v in ("avx2", "commonavx512") else MIX, d=1, cflags=O1 if v == "avx2" else O0))
        jobs.append(Job(1, "avx2", [("pure", 8, ["--cases", "3", "--am", "4"])], INL, harness="mon_oe.cpp", d=1, cflags=O1))
        jobs.append(Job(1, "scalar", [("pure", 4, ["--cases", "2", "--am", "7"])], MIX, harness="mon_oe.cpp", d=1))
        for v, cc in ARM[:2]:
            jobs.append(Job(1, v, [("pure", 4, ["--cases", "4"])], GEN, cflags=O1, cc=cc, d=1))
    else:
        for v, cc in ARM:
            jobs.append(Job(1, v, [("pure", 16, ["--cases", "30"])], MIX, cflags=O1, cc=cc, d=1))
        for v in allvecs():
            jobs.append(Job(3, v, [("pure", 16, ["--cases", "3"])], GEN, cflags=O1, d=1))
            jobs.append(Job(2, v, [("pure", 16, ["--cases", "10"])], EXT, cflags=O3, d=1))
            jobs.append(Job(7, v, [("pure", 16, ["--cases", "4"])], GEN, d=1, sparse=classes(7, 8, 11, 2)))
            jobs.append(Job(1, v, [("pure", 16, ["--cases", "100"])], INL, cflags=O3, d=1))
            jobs.append(Job(2, v, [("pure", 16, ["--cases", "20"])], INL, cflags=O1))
            jobs.append(Job(1, v, [("pure", 16, ["--cases", "10", "--am", "7"])], MIX, harness="mon_oe.cpp", d=1, cflags=O3))
    execute(c, jobs)
    c.finish(500)


vlib.main(check, "C06")
