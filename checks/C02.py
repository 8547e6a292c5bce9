#!/usr/bin/env python3
"""C02: first derivatives against an independent evaluation; sum over the centres."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *


def check(c):
    c.rule = "distinct (class, geometry family, exponent regime) triples whose derivatives were compared with the reference"
    c.assumptions = ["the reference (Hermite Gaussian expansion in double-double arithmetic, cross-checked against quadruple precision) is right",
                     "|error| <= 200 eps * sum of absolute contributions counts as rounding accuracy (largest seen: about 5)",
                     "contraction lengths up to 7 per shell, every class up to d, most up to f, a sample of those up to k (total angular momentum up to 10, thorough: 13)"]
    jobs = []
    if not THOROUGH:
        jobs.append(Job(2, "avx2", [("deriv", 8, ["--cases", "3"])], INL, cflags=O1, d=1))
        jobs.append(Job(3, "avx", [("deriv", 8, ["--cases", "1"])], GEN, d=1, p=1))
        jobs.append(Job(2, "sse", [("deriv", 8, ["--cases", "3"])], EXT, d=1))
        jobs.append(Job(2, "scalar", [("deriv", 8, ["--cases", "3"])], GEN, d=1, p=0))
        jobs.append(Job(2, vecs("avx2", "commonavx512")[-1], [("deriv", 8, ["--cases", "3"])], MIX, d=1, p=1))
        for v in allvecs():
            if v != "avx2":
                jobs.append(Job(1, v, [("deriv", 4, ["--cases", "12"])], INL, d=1, p=1))
        for k, (v, st) in enumerate((("sse", INL), (vecs("scalar", "commonavx512")[-1], EXT), ("avx2", MIX))):
            jobs.append(Job(3, v, [("deriv", 4, ["--cases", "3"])], st, d=1, sparse=classes(3, 3, 8, 50 + k, lmin=3)))
        # single classes of high angular momenta
        jobs.append(Job(7, "avx2", [("deriv", 8, ["--cases", "2"])], GEN, d=1, sparse=classes(7, 4, 10, 1)))
        jobs.append(Job(4, "sse", [("deriv", 8, ["--cases", "2"])], EXT, d=1, sparse=classes(4, 2, 7, 2)))
        jobs.append(Job(4, vecs("avx", "commonavx512")[-1], [("deriv", 8, ["--cases", "2"])], INL, d=1, sparse=classes(4, 2, 6, 3)))
        jobs.append(Job(5, "avx2", [("deriv", 8, ["--cases", "2"])], dict(ve=4, vg=7, he=3, hg=5), d=1, sparse=classes(5, 3, 8, 4)))
        for v, cc in ARM[:4]:
            jobs.append(Job(1, v, [("deriv", 4, ["--cases", "10"])], MIX if cc == "arm128" else GEN, cflags=O1, cc=cc, d=1, p=1))
    else:
        for v, cc in ARM:
            jobs.append(Job(2, v, [("deriv", 16, ["--cases", "10"])], GEN, cflags=O1, cc=cc, d=1))
            jobs.append(Job(1, v, [("deriv", 16, ["--cases", "40"])], INL, cflags=O1, cc=cc, d=1, p=0))
        for v in mic():
            jobs.append(Job(2, v, [("deriv", 16, ["--cases", "10"])], MIX, d=1))
        for v in allvecs():
            jobs.append(Job(4 if v in ("avx2", "commonavx512") else 3, v, [("deriv", 16, ["--cases", "3"])], GEN, cflags=O1, d=1, p=2))
            jobs.append(Job(2, v, [("deriv", 16, ["--cases", "30"])], EXT, cflags=O3, d=1))
            jobs.append(Job(2, v, [("deriv", 16, ["--cases", "30"])], MIX, cflags=O1, d=1, p=1))
            jobs.append(Job(2, v, [("deriv", 16, ["--cases", "30"])], INL, cflags=O1, d=1))
            jobs.append(Job(2, v, [("deriv", 16, ["--cases", "30"])], GEN, cflags=O1, cc="clang", d=1, p=0))
        jobs.append(Job(3, "avx2", [("deriv", 16, ["--cases", "6"])], EXT, cflags=O1, d=1))
        for k, v in enumerate(allvecs()):
            jobs.append(Job(7, v, [("deriv", 16, ["--cases", "4"])], GEN, d=1, sparse=classes(7, 16, 13, 10 + k)))
            jobs.append(Job(4, v, [("deriv", 16, ["--cases", "4"])], EXT, d=1, sparse=classes(4, 6, 9, 20 + k)))
            jobs.append(Job(4, v, [("deriv", 16, ["--cases", "4"])], INL, d=1, sparse=classes(4, 6, 8, 30 + k)))
            jobs.append(Job(6, v, [("deriv", 16, ["--cases", "4"])], dict(ve=3 + k, vg=6 + k, he=3 + k, hg=5 + k), d=1, sparse=classes(6, 6, 10, 40 + k)))
    execute(c, jobs)
    c.finish(20000)


vlib.main(check, "C02")
