#!/usr/bin/env python3
"""C07: threads sharing read-only inputs: ThreadSanitizer and comparison with serial results."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

TSAN = ("-O0", "-g1", "-fsanitize=thread")


def check(c):
    c.rule = "distinct computations (routine and class) that were executing in several threads at the same time"
    c.assumptions = ["simint_init has returned before the threads start; each thread has its own workspace, output and newly created objects",
                     "ThreadSanitizer sees the races of the executed schedules (happens-before), whether or not they change a result; barriers only separate rounds",
                     "'cold' runs compute in the threads first and take the serial reference afterwards, so that one-time initialisation happens inside the threads"]
    jobs = []

    def runs(n, cases):
        a = ["--cases", str(cases)]
        return [("warm", n, a), ("cold", n, a)]
    if not THOROUGH:
        jobs.append(Job(2, "avx2", runs(2, 60), GEN, harness="mon_thr.cpp", cflags=TSAN, d=1, cxxflags=("-O1", "-g1")))
        jobs.append(Job(2, "avx", runs(2, 60), EXT, harness="mon_thr.cpp", cflags=TSAN, cc="clang", cxxflags=("-O1", "-g1")))
        jobs.append(Job(1, "scalar", runs(1, 60), INL, harness="mon_thr.cpp", cflags=TSAN, d=1, cxxflags=("-O1", "-g1")))
        jobs.append(Job(1, "sse", runs(1, 60), MIX, harness="mon_thr.cpp", cflags=TSAN, d=1, cxxflags=("-O1", "-g1")))
        if have_avx512():
            jobs.append(Job(1, "commonavx512", runs(1, 60), GEN, harness="mon_thr.cpp", cflags=TSAN, d=0, cxxflags=("-O1", "-g1")))
        jobs.append(Job(5, "avx2", runs(1, 40), GEN, harness="mon_thr.cpp", cflags=TSAN, d=1, cxxflags=("-O1", "-g1"), sparse=classes(5, 4, 8, 1, screening=True)))
        jobs.append(Job(4, "sse", runs(1, 40), EXT, harness="mon_thr.cpp", cflags=TSAN, d=0, cxxflags=("-O1", "-g1"), sparse=classes(4, 4, 8, 2, screening=True)))
        jobs.append(Job(2, "avx2", runs(2, 4000), INL, harness="mon_thr.cpp", cflags=O1, cxxflags=("-O1", "-g1")))
        jobs.append(Job(3, "scalar", runs(2, 1000), GEN, harness="mon_thr.cpp", cflags=O1, d=1, cxxflags=("-O1", "-g1")))
    else:
        for v in allvecs():
            for st in (INL, EXT, GEN, MIX):
                l = 1 if st is INL else 2
                jobs.append(Job(l, v, runs(4, 1500), st, harness="mon_thr.cpp", cflags=TSAN, d=1, cc="clang" if v == "avx" else "gcc", cxxflags=("-O1", "-g1"), timeout=600))
                jobs.append(Job(l, v, runs(4, 40000), st, harness="mon_thr.cpp", cflags=O1, d=1, cxxflags=("-O1", "-g1"), timeout=600))
            jobs.append(Job(5, v, runs(2, 300), GEN, harness="mon_thr.cpp", cflags=TSAN, d=1, cxxflags=("-O1", "-g1"), sparse=classes(5, 6, 10, 3, screening=True), timeout=900))
            jobs.append(Job(4, v, runs(2, 300), EXT, harness="mon_thr.cpp", cflags=TSAN, d=1, cxxflags=("-O1", "-g1"), sparse=classes(4, 6, 9, 4, screening=True), timeout=900))
            jobs.append(Job(3, v, runs(8, 2000), GEN, harness="mon_thr.cpp", cflags=TSAN, d=1, cxxflags=("-O1", "-g1"), timeout=900))
    # each run has eight threads of its own
    execute(c, jobs, runners=3 if THOROUGH else 4)
    c.finish(5000)


vlib.main(check, "C07")
