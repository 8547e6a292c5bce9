#!/usr/bin/env python3
"""C20: contents of shell-pair objects against a model in extended precision."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

SAN = ("-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")


def check(c):
    c.rule = "distinct (way of assembly, angular momenta, screening method, number of pairs modulo the batching length) combinations"
    c.assumptions = ["each value may differ from the model by a few roundings (4-16 eps on the scale of its operands; the prefactor by (20 + 10 x) eps with x the exponent of the Gaussian product)",
                     "Schwarz screening values are compared with independent diagonal integrals, fast-Schwarz values with the formula in the code's documentation",
                     "primitives may appear in any order within a pair, but all their data together"]
    jobs = []
    n = 16 if THOROUGH else 4
    a = ["--cases", "3000" if THOROUGH else "200"]
    for v in (allvecs() if THOROUGH else vecs("scalar", "sse", "avx", "avx2", "commonavx512")):
        jobs.append(Job(2, v, [("pair", n, a)], GEN, harness="mon_pair.cpp", cflags=O0, d=1))
        if THOROUGH or v == "avx2":
            jobs.append(Job(2, v, [("pair", n, a)], INL, harness="mon_pair.cpp", cflags=O3 if THOROUGH else O0, d=0))
            jobs.append(Job(3, v, [("pair", n, a)], GEN, harness="mon_pair.cpp", cflags=O0, d=0))
    for v, cc in ARM if THOROUGH else (ARM[0], ARM[1], ARM[5]):
        jobs.append(Job(1, v, [("pair", n, a)], GEN, harness="mon_pair.cpp", cflags=O1, cc=cc, d=1))
    execute(c, jobs)
    c.finish(150)


vlib.main(check, "C20")
