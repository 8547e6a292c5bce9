#!/usr/bin/env python3
"""C08: random histories of operations on shells and shell pairs, under ASan+UBSan+LSan and plain, with a model of every object."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

SAN = ("-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")


def check(c):
    c.rule = "distinct histories executed"
    c.assumptions = ["histories stay legal: objects initialised before use, no copy onto itself, concatenation inputs share angular momenta and screening method and differ from the destination",
                     "leaks are judged by LeakSanitizer at exit (all objects are freed once at the end of each history)"]
    jobs = []
    n = 16 if THOROUGH else 4
    a = ["--cases", "3000" if THOROUGH else "150"]
    b = ["--cases", "1000" if THOROUGH else "100"]
    for v in (allvecs() if THOROUGH else vecs("scalar", "sse", "avx", "avx2", "commonavx512")):
        jobs.append(Job(2, v, [("life", n, a)], GEN, harness="mon_pair.cpp", cflags=O1, d=int(v in ("scalar", "avx2"))))
        if THOROUGH or v in ("avx2", "scalar"):
            jobs.append(Job(2, v, [("life", n, b)], GEN, harness="mon_pair.cpp", cflags=SAN, d=1, cc="clang" if v == "avx" else "gcc"))
            jobs.append(Job(1, v, [("life", n, b)], GEN, harness="mon_pair.cpp", cflags=SAN, d=0))
    execute(c, jobs)
    c.finish(500)


vlib.main(check, "C08")
