#!/usr/bin/env python3
"""C05: memory bounds and undefined behaviour: guard pages, ASan+UBSan, MSan."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *


SAN = ("-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all")
MSAN = ("-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins=0")


def check(c):
    c.rule = "distinct (routine and class, screening method, position of the guard page) combinations executed under guard pages or a sanitizer"
    c.assumptions = ["accesses that stay inside an allocation are only seen by MSan (uninitialised) or by the purity monitor of C06",
                     "workspaces have exactly simint_eri_worksize doubles for the largest angular momentum of the quartet, outputs exactly the promised size, inputs are read-only pages"]
    jobs = []
    mem, small = ["--cases", "2"], ["--cases", "1"]
    if not THOROUGH:
        # plain builds: guard pages
        jobs.append(Job(2, "avx2", [("mem", 4, ["--cases", "4"])], INL, cflags=O0))
        jobs.append(Job(3, vecs("avx", "commonavx512")[-1], [("mem", 8, mem)], GEN, d=1))
        jobs.append(Job(1, "scalar", [("mem", 4, ["--cases", "10"])], MIX, d=1))
        # sanitizer builds
        jobs.append(Job(2, "avx2", [("mem", 8, mem), ("pure", 4, small)], GEN, cflags=SAN, d=1))
        jobs.append(Job(1, "sse", [("mem", 4, ["--cases", "6"]), ("batch", 4, ["--cases", "2"])], INL, cflags=SAN, d=1, p=0))
        jobs.append(Job(2, "avx", [("mem", 8, mem)], EXT, cflags=SAN, cc="clang"))
        if have_avx512():
            jobs.append(Job(1, "commonavx512", [("mem", 4, ["--cases", "6"])], MIX, cflags=SAN, d=1))
            jobs.append(Job(1, "avx512", [("mem", 4, ["--cases", "6"])], GEN, cflags=SAN))
        jobs.append(Job(2, "avx2", [("x", 8, mem)], GEN, harness="mon_msan.cpp", cflags=MSAN, cc="clang", d=1))
        jobs.append(Job(1, "scalar", [("x", 4, mem)], INL, harness="mon_msan.cpp", cflags=MSAN, cc="clang", d=1))
        jobs.append(Job(1, "avx", [("x", 4, mem)], EXT, harness="mon_msan.cpp", cflags=MSAN, cc="clang", d=1))
        # high angular momenta
        jobs.append(Job(7, "avx2", [("mem", 8, mem)], GEN, d=1, sparse=classes(7, 4, 10, 1)))
        jobs.append(Job(6, "avx2", [("mem", 8, small)], GEN, cflags=SAN, d=1, sparse=classes(6, 3, 9, 2)))
        # one-electron integrals
        jobs.append(Job(2, "avx2", [("mem", 8, ["--cases", "2", "--am", "4"])], GEN, harness="mon_oe.cpp", cflags=SAN, d=1))
        jobs.append(Job(1, "scalar", [("mem", 4, ["--cases", "2", "--am", "7"])], MIX, harness="mon_oe.cpp", d=1))
        for v, cc in ARM[:2]:
            jobs.append(Job(1, v, [("mem", 4, ["--cases", "3"])], GEN, cflags=SAN, cc=cc, d=1))
    else:
        for v, cc in ARM:
            jobs.append(Job(1, v, [("mem", 16, ["--cases", "6"]), ("batch", 8, ["--cases", "2"])], MIX, cflags=SAN, cc=cc, d=1, timeout=600))
            jobs.append(Job(2, v, [("mem", 16, ["--cases", "6"])], GEN, cflags=O1, cc=cc, d=1, timeout=600))
        for v in allvecs():
            for st in (INL, EXT, GEN, MIX):
                l = 2 if st is not INL else 1
                jobs.append(Job(l, v, [("mem", 16, ["--cases", "10"]), ("pure", 8, ["--cases", "2"]), ("batch", 8, ["--cases", "1"]), ("screen", 8, ["--cases", "2", "--maxclasses", "8"])], st, cflags=SAN, d=1, cc="clang" if v == "avx" else "gcc", timeout=600))
                jobs.append(Job(l, v, [("x", 16, ["--cases", "4", "--oeam", "5"])], st, harness="mon_msan.cpp", cflags=MSAN, cc="clang", d=1, timeout=600))
            jobs.append(Job(4, v, [("mem", 16, ["--cases", "3"])], GEN, cflags=O1, d=1, timeout=600))
            jobs.append(Job(7, v, [("mem", 16, ["--cases", "4"])], GEN, cflags=SAN, d=1, sparse=classes(7, 10, 13, 3), timeout=600))
            jobs.append(Job(4, v, [("mem", 16, ["--cases", "4"])], EXT, cflags=SAN, d=1, sparse=classes(4, 5, 8, 4), timeout=600))
            jobs.append(Job(2, v, [("mem", 16, ["--cases", "40"])], INL, cflags=O3, d=1, timeout=600))
            jobs.append(Job(1, v, [("mem", 16, ["--cases", "4", "--am", "7"])], GEN, harness="mon_oe.cpp", cflags=SAN, d=1, timeout=600))
    execute(c, jobs)
    c.finish(500)


vlib.main(check, "C05")
