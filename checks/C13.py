#!/usr/bin/env python3
"""C13: configurations build, offer every class, and compute the reference integrals."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

REL = ["-DCMAKE_BUILD_TYPE=Release"]


def job(l, vec, p=None, d=0, strat=GEN, maxam=None, maxder=None, cc="gcc", cflags=O0, cmake=(), n=2, budget=40, cases=1):
    md = d if maxder is None else maxder
    runs = [("avail", 1, []), ("eri", n, ["--cases", str(cases), "--budget", str(budget)])]
    if md > 0:
        runs.append(("deriv", n, ["--cases", str(cases), "--budget", str(budget)]))
    return Job(l, vec, runs, strat, d=d, p=p, maxam=maxam, maxder=maxder, cc=cc, cflags=cflags, cmake=tuple(cmake))


def random_job(rng, big):
    d = rng.randint(0, 1)
    l = rng.choice([1, 1, 2, 2, 2] if not big else [1, 2, 2, 3, 3])
    strat = dict((k, rng.choice([0, 1, 2, 3, 4, 6, 40])) for k in ("ve", "vg", "he", "hg"))
    if l == 3 and d == 1:
        strat = dict(ve=rng.choice([0, 4, 40]), vg=rng.choice([0, 3]), he=rng.choice([0, 4, 40]), hg=rng.choice([0, 3]))
    elif l == 2 and d == 1:
        strat["vg"] = min(strat["vg"], 4)
    vec = rng.choice(allvecs() + ["scalar-" + v for v in allvecs() if v != "scalar"])
    maxam = rng.choice([None, None] + list(range(l + 1)))
    maxder = rng.choice([None] + list(range(d + 1)))
    return job(l, vec, p=rng.randint(0, l + 1), d=d, strat=strat, maxam=maxam, maxder=maxder, cc=rng.choice(["gcc", "gcc", "clang"]))


def refusals(c, src):
    """What cannot be provided is refused when configuring, not delivered broken."""
    good, bad = [], []
    for opts in (["-DSIMINT_MAXAM=9"], ["-DSIMINT_MAXDER=1"], ["-DSIMINT_VECTOR=avx3"], ["-DSIMINT_VECTOR="], ["-DSIMINT_VECTOR=scalar-nothing"],
                 ["-DSIMINT_MAXAM=-1"], ["-DSIMINT_MAXAM=2"]):
        bad.append(opts)
    for opts in (["-DSIMINT_VECTOR=SSE"], ["-DSIMINT_VECTOR=Scalar-AVX2"], ["-DSIMINT_MAXAM=0"], ["-DSIMINT_MAXAM=1", "-DSIMINT_MAXDER=0"]):
        good.append(opts)

    def one(t):
        k, (opts, want) = t
        d = os.path.join(vlib.BUILD, "cfg-C13-%d-%d" % (os.getpid(), k))
        cmd = ["cmake", "-S", src, "-B", d, "-G", "Ninja", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DENABLE_TESTS=OFF"]
        if not any("VECTOR" in o for o in opts):
            cmd.append("-DSIMINT_VECTOR=sse")
        rc, out = vlib.sh(cmd + opts)
        vlib.shutil.rmtree(d, ignore_errors=True)
        return opts, want, rc, out
    for opts, want, rc, out in vlib.pmap(one, list(enumerate([(o, False) for o in bad] + [(o, True) for o in good]))):
        c.observe(evals=1, configurations_requested=1, distinct=["cmake " + " ".join(opts)])
        if (rc == 0) != want:
            c.violation("configure:" + "_".join(opts), "cmake %s: status %s, but it should %s (sources generated with -l 1 -d 0)" % (
                " ".join(opts), rc, "succeed" if want else "be refused"), out[-3000:])


def dispatch(c, src):
    """The dispatch tables are the same in every library: libraries of angular
    momenta that take long to generate are observed with stand-ins for the
    generated routines."""
    skel = os.path.join(vlib.REPO, "skel", "simint")
    names = "spdfghik"
    top = os.path.join(vlib.BUILD, "dispatch-%d" % os.getpid())
    vlib.shutil.rmtree(top, ignore_errors=True)
    sh = vlib.sh
    args = "(struct simint_multi_shellpair const P, struct simint_multi_shellpair const Q, double screen_tol, double * const restrict work, double * const restrict out)"
    ams = [(i, j, k, l) for i in range(8) for j in range(8) for k in range(8) for l in range(8)]

    def fname(d, q):
        return ("ostei_deriv1_" if d else "ostei_") + "_".join(names[x] for x in q)
    inc = os.path.join(top, "inc", "simint", "ostei", "gen")
    os.makedirs(inc)
    for d, h in ((0, "ostei_generated.h"), (1, "ostei_deriv1_generated.h")):
        with open(os.path.join(inc, h), "w") as f:
            f.write('#pragma once\n#include "simint/ostei/ostei.h"\n' + "".join("int %s%s;\n" % (fname(d, q), args) for q in ams))
    stub = os.path.join(top, "stub.c")
    with open(stub, "w") as f:
        f.write('#include "simint/ostei/gen/ostei_generated.h"\n#include "simint/ostei/gen/ostei_deriv1_generated.h"\n')
        for d in (0, 1):
            for i, j, k, l in ams:
                f.write("int %s%s { return %d; }\n" % (fname(d, (i, j, k, l)), args, (((d * 8 + i) * 8 + j) * 8 + k) * 8 + l + 1))
    stage = os.path.join(top, "inc", "simint")
    os.makedirs(os.path.join(stage, "vectorization"))
    cfg = os.path.join(src, "simint", "ostei", "ostei_config.h.in")
    base = ["gcc", "-std=gnu99", "-O0", "-w"]

    def one(t2):
        l, d = t2
        w = os.path.join(top, "l%d-d%d" % (l, d))
        os.makedirs(os.path.join(w, "simint", "ostei"))
        with open(os.path.join(w, "simint", "ostei", "ostei_config.h"), "w") as f:
            f.write(open(cfg).read().replace("@SIMINT_MAXAM@", str(l)).replace("@SIMINT_MAXDER@", str(d)))
        exe = os.path.join(w, "dispatch")
        rc, out = sh(base + ["-I" + w, "-I" + os.path.join(top, "inc"), "-I" + os.path.join(vlib.REPO, "skel")] +
                     [os.path.join(skel, x) for x in ("simint_init.c", "ostei/ostei_init.c", "ostei/ostei_deriv1_init.c", "ostei/ostei.c")] +
                     [os.path.join(vlib.SRC, "dispatch.c"), os.path.join(top, "stub.o"), "-lm", "-o", exe])
        if rc != 0:
            c.observe(dispatch_tables_not_observable=1)
            c.log("dispatch tables at l=%d d=%d cannot be observed: %s" % (l, d, out.strip()[-400:]))
            return
        c.run([exe], "dispatch tables for l=%d d=%d" % (l, d), timeout=60)
        c.observe(dispatch_tables=1)
    try:
        with open(os.path.join(stage, "vectorization", "vector_config.h"), "w") as f:
            f.write("#pragma once\n#define SIMINT_SCALAR\n")
        with open(os.path.join(stage, "ostei", "ostei_config.h"), "w") as f:
            f.write(open(cfg).read().replace("@SIMINT_MAXAM@", "7").replace("@SIMINT_MAXDER@", "1"))
        rc, out = sh(base + ["-I" + os.path.join(top, "inc"), "-I" + os.path.join(vlib.REPO, "skel"), "-c", stub, "-o", os.path.join(top, "stub.o")])
        if rc != 0:
            c.observe(dispatch_tables_not_observable=1)
            c.log("dispatch tables cannot be observed: " + out.strip()[-400:])
            return
        vlib.pmap(one, [(l, d) for d in (0, 1) for l in range(8)])
    finally:
        vlib.shutil.rmtree(top, ignore_errors=True)


def check(c):
    c.rule = "distinct (class, geometry, exponents) per run and configure requests; the library variants listed under 'variants' are the configurations built"
    c.assumptions = ["results of every build are compared with one independent reference instead of with each other",
                     "micavx512, asimd and sve cannot be executed here: micavx512 is compiled and linked only, the ARM types are not built",
                     "Intel and PGI compilers are not available: GCC and Clang only"]
    rng = random.Random(SEED * 7919 + 13)
    avx512 = have_avx512()
    jobs = [
        job(0, "avx", d=1, cmake=REL), job(0, "scalar", d=0, p=0, n=1),
        job(1, "sse", d=1, p=0, strat=MIX, cmake=REL, cflags=()),
        job(1, "avx2", d=1, p=2, strat=EXT, cc="clang"),
        job(1, "scalar-avx2", d=1, p=1, strat=dict(ve=40, vg=0, he=0, hg=1)),
        job(2, "avx2", d=1, maxder=0, maxam=1), job(2, "sse", d=1, maxam=1), job(2, "avx", d=1, maxam=2, cc="clang"), job(2, "scalar", d=1, maxam=0),
        job(2, "scalar-sse", p=1, strat=dict(ve=2, vg=4, he=1, hg=2), maxam=2),
        job(2, "avx2", p=0, strat=INL), job(2, "avx2", p=3, strat=dict(ve=0, vg=3, he=40, hg=0), cmake=["-DBUILD_SHARED_LIBS=OFF"]),
        job(3, "avx", p=1, strat=GEN, n=8, budget=15),
        Job(1, "micavx512", [], INL, d=1), Job(1, "micavx512", [], GEN, d=0, cflags=("-O3",)),
    ]
    if avx512:
        jobs += [job(1, "commonavx512", d=1, strat=INL, cc="clang"), job(2, "avx512", strat=MIX, p=2), job(1, "scalar-avx512", d=1)]
    nrand = 4
    if THOROUGH:
        nrand = 24
        for v in allvecs():
            jobs.append(job(2, v, d=1, strat=rng.choice([GEN, EXT, MIX]), p=rng.randint(0, 3), cc=rng.choice(["gcc", "clang"]), n=4, budget=200, cases=2))
            jobs.append(job(1, v, d=1, strat=INL, p=rng.randint(0, 2), cc=rng.choice(["gcc", "clang"]), cmake=REL, cflags=(), n=2, budget=200, cases=6))
        jobs.append(job(4, "avx2", p=rng.randint(0, 5), strat=GEN, n=8, budget=60))
        jobs.append(job(3, "avx2", d=1, p=rng.randint(0, 4), strat=GEN, n=8, budget=100))
        jobs.append(job(3, "sse", p=rng.randint(0, 4), strat=MIX, n=8, budget=60))
        jobs.append(Job(5, "avx2", [("avail", 8, [])], GEN, cflags=O0))
        jobs.append(Job(2, "micavx512", [], EXT, d=1))
    jobs += [random_job(rng, THOROUGH) for _ in range(nrand)]
    for k in range(12 if THOROUGH else 2):
        # single classes of high angular momenta, any thresholds
        d = rng.randint(0, 1)
        l = rng.choice([4, 5, 6, 7])
        ve, he = rng.choice([0, 3, 5, 9]), rng.choice([0, 2, 4, 7])
        strat = dict(ve=ve, vg=ve + rng.choice([0, 1, 3]), he=he, hg=he + rng.choice([0, 1, 3]))
        jobs.append(Job(l, rng.choice(allvecs()), [(("deriv" if d else "eri"), 4, ["--cases", "1"])], strat, d=d, cc=rng.choice(["gcc", "clang"]),
                        sparse=classes(l, 4, 7 if d else 9, 100 + k)))
    refusals(c, vlib.create(1, d=0))
    dispatch(c, vlib.create(1, d=1))
    execute(c, jobs)
    c.finish(20000)


vlib.main(check, "C13")
