#!/usr/bin/env python3
"""C01: two-electron integrals against an independent evaluation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *


def check(c):
    c.rule = "distinct (class, geometry family, exponent regime) triples whose integrals were compared with the reference"
    c.assumptions = ["the reference (Hermite Gaussian expansion and Boys moments in double-double arithmetic, cross-checked against quadruple precision) is right",
                     "|error| <= 200 eps * sum of absolute contributions counts as rounding accuracy (largest seen: about 8)",
                     "contraction lengths up to 7 per shell, every class up to f, a sample of those up to k (l = 7; total angular momentum up to 12, thorough: 16)"]
    jobs = []
    if not THOROUGH:
        for v in allvecs():
            if v == "avx512":  # differs from commonavx512 in (ss|ss) only
                jobs.append(Job(1, v, [("eri", 4, ["--cases", "30"])], INL, d=1))
                continue
            jobs.append(Job(2, v, [("eri", 4, ["--cases", "8"])], INL))
            jobs.append(Job(2, v, [("eri", 4, ["--cases", "6"])], EXT if v in ("avx2", "sse") else MIX if v in ("scalar", "commonavx512") else GEN))
        jobs.append(Job(3, "avx2", [("eri", 8, ["--cases", "3"])], GEN))
        jobs.append(Job(4, vecs("avx", "commonavx512")[-1], [("eri", 8, ["--lmin", "4", "--cases", "1", "--maxclasses", "40"])], GEN))
        for k, (v, st) in enumerate((("sse", INL), ("avx", EXT), (vecs("scalar", "commonavx512")[-1], MIX))):
            jobs.append(Job(3, v, [("eri", 4, ["--cases", "3"])], st, sparse=classes(3, 10, 11, 50 + k, lmin=3)))
        # single classes of high angular momenta
        jobs.append(Job(7, "avx2", [("eri", 8, ["--cases", "3"])], GEN, sparse=classes(7, 6, 12, 1, ("ksss", "kpks"))))
        jobs.append(Job(5, "sse", [("eri", 8, ["--cases", "3"])], EXT, sparse=classes(5, 3, 9, 2, ("gphs",))))
        jobs.append(Job(5, "avx", [("eri", 8, ["--cases", "3"])], INL, sparse=classes(5, 3, 8, 3, ("fdgs",))))
        jobs.append(Job(6, vecs("scalar", "commonavx512")[-1], [("eri", 8, ["--cases", "3"])], dict(ve=5, vg=8, he=4, hg=6), sparse=classes(6, 4, 10, 4)))
        for k, (v, cc) in enumerate(ARM):
            jobs.append(Job(2 if k < 2 else 1, v, [("eri", 4, ["--cases", "5" if k < 2 else "20"])], MIX if k == 0 else GEN if k < 4 else INL, cflags=O1, cc=cc))
        for v in mic():
            jobs.append(Job(1, v, [("eri", 4, ["--cases", "20"])], INL))
    else:
        for v, cc in ARM:
            jobs.append(Job(2, v, [("eri", 16, ["--cases", "20"])], MIX, cflags=O1, cc=cc))
            jobs.append(Job(3, v, [("eri", 16, ["--cases", "4"])], GEN, cflags=O1, cc=cc))
            jobs.append(Job(1, v, [("eri", 16, ["--cases", "50"])], INL, cflags=O3, cc=cc))
        for v in mic():
            jobs.append(Job(3, v, [("eri", 16, ["--cases", "10"])], MIX))
        for v in allvecs():
            jobs.append(Job(5 if v == "avx2" else 4, v, [("eri", 16, ["--cases", "3"])], GEN, cflags=O3))
            jobs.append(Job(3, v, [("eri", 16, ["--cases", "20"])], EXT, cflags=O3))
            jobs.append(Job(3, v, [("eri", 16, ["--cases", "20"])], MIX, cflags=O1))
            jobs.append(Job(2, v, [("eri", 16, ["--cases", "100"])], INL, cflags=O3))
            jobs.append(Job(2, v, [("eri", 16, ["--cases", "60"])], EXT, cflags=O1, cc="clang"))
            if v != "scalar":
                jobs.append(Job(2, "scalar-" + v, [("eri", 8, ["--cases", "10"])], MIX, cflags=O1))
        jobs.append(Job(3, "avx2", [("eri", 16, ["--cases", "20"])], INL, cflags=O1))
        for k, v in enumerate(allvecs()):
            jobs.append(Job(7, v, [("eri", 16, ["--cases", "6"])], GEN, sparse=classes(7, 24, 16, 10 + k, ("ksss", "kkss"))))
            jobs.append(Job(5, v, [("eri", 16, ["--cases", "6"])], EXT, sparse=classes(5, 8, 11, 20 + k)))
            jobs.append(Job(5, v, [("eri", 16, ["--cases", "6"])], INL, sparse=classes(5, 8, 10, 30 + k)))
            jobs.append(Job(6, v, [("eri", 16, ["--cases", "6"])], dict(ve=4 + k, vg=7 + k, he=3 + k, hg=5 + k), sparse=classes(6, 8, 12, 40 + k)))
    execute(c, jobs)
    c.finish(20000)


vlib.main(check, "C01")
