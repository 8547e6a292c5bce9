#!/usr/bin/env python3
"""C22: recursion tables, complete comparison in a running program."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

SAN = ("-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")


def check(c):
    c.rule = "distinct (angular momentum, component) entries of the table"
    c.assumptions = ["all entries of the table linked into the library are read; nothing is sampled"]
    jobs = []
    for v in (allvecs() if THOROUGH else ["avx2"]):
        jobs.append(Job(1, v, [("tables", 1, [])], GEN, harness="mon_pair.cpp", cflags=O0, d=1))

    execute(c, jobs)
    c.finish(1000)


vlib.main(check, "C22")
