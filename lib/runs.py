"""Job runner shared by the checks: build library variants and harnesses, run
them in shards, feed the monitors' reports into the check."""
import concurrent.futures as cf
import itertools, os, random, threading, time
import vlib
from vlib import SEED, THOROUGH, NCPU, have_avx512

INL = dict(ve=40, vg=40, he=40, hg=40)          # everything inline
EXT = dict(ve=0, vg=40, he=0, hg=40)            # everything in external functions
GEN = dict(ve=0, vg=0, he=0, hg=0)              # general recurrences
MIX = dict(ve=3, vg=5, he=2, hg=3)              # all three in one library
O0, O1, O3 = ("-O0",), ("-O1",), ("-O3",)


def vecs(*names):
    return [v for v in names if "avx512" not in v or have_avx512()]


def allvecs():
    return vecs("scalar", "sse", "avx", "avx2", "commonavx512", "avx512")


# ARM vectors, executed with stand-ins for the ARM intrinsics; SVE as the project's flags say (512) and with other lengths
ARM = [("asimd", "arm0"), ("sve", "arm0"), ("sve", "arm128"), ("sve", "arm256"), ("sve", "arm1024"), ("sve", "arm2048")]


def mic():
    """The Xeon Phi flags run here as long as no exp/prefetch instructions are emitted."""
    return ["micavx512"] if have_avx512() else []


class Job:
    """One library variant, one harness, several runs. Each run is
    (mode, nshards, args); shards differ in seed and in the classes visited."""

    def __init__(self, l, vec, runs, strat=GEN, harness="mon_eri.cpp", cflags=O0, cc="gcc", extra=(), env=None, cxxflags=("-O0", "-g1"), cost=1, timeout=250, oracle=True, **kw):
        self.l, self.vec, self.runs, self.strat, self.harness = l, vec, runs, strat, harness
        self.cflags, self.cc, self.extra, self.env, self.cxxflags, self.kw = cflags, cc, extra, env, cxxflags, kw
        self.cost, self.timeout, self.oracle = cost, timeout, oracle and harness != "mon_msan.cpp"


def seeds(n, salt=0):
    return [SEED * 100003 + salt * 1009 + i for i in range(n)]


AMS = "spdfghik"


def classes(l, n, ltot, salt=0, must=(), screening=False, lmin=None):
    """Classes for a sparse library of maximum angular momentum l: the ones
    given plus n chosen by the seed, with total angular momentum up to ltot
    and largest lmin..l. With screening, also those that shell pairs of them
    are screened with."""
    r = random.Random(SEED * 7919 + salt)
    out = [tuple(AMS.index(x) for x in q) for q in must]
    lmin = l - 1 if lmin is None else lmin
    allq = [q for q in itertools.product(range(l + 1), repeat=4)
            if q[0] >= q[1] and q[2] >= q[3] and q[:2] >= q[2:] and sum(q) <= ltot and max(q) >= lmin
            and (not screening or 2 * max(q[0] + q[1], q[2] + q[3]) <= max(ltot, 12))]
    r.shuffle(allq)
    out += [q for q in allq if q not in out][:n]
    if screening:
        for q in list(out):
            for x in (q[:2] * 2, q[2:] * 2):
                if x not in out:
                    out.append(x)
    return out


def execute(c, jobs, builders=3, runners=None, args=()):
    """Run the jobs. Raises BuildError / RuntimeError of the first failing
    build after everything else has been observed."""
    errors = []
    runpool = cf.ThreadPoolExecutor(max_workers=runners or NCPU)
    futs = []
    lock = threading.Lock()

    def build(nj):
        num, j = nj
        if c.enough():
            return
        t = time.time()
        kw = dict(j.strat)
        kw.update(j.kw)
        more = ["--classes", ";".join("".join(map(str, q)) for q in j.kw["sparse"]) + ";"] if j.kw.get("sparse") else []
        try:
            lib = vlib.variant(j.l, j.vec, cflags=j.cflags, cc=j.cc, **kw)
            t1 = time.time()
            h = vlib.build_harness(lib, [j.harness] if isinstance(j.harness, str) else list(j.harness), extra=j.extra, cxxflags=j.cxxflags, oracle=j.oracle)
        except BaseException as e:
            if j.cc.startswith("arm") and isinstance(e, (vlib.BuildError, RuntimeError)):
                # the stand-in headers only know the intrinsics used today
                c.log("not observable:", j.vec, str(e)[:300])
                c.observe(arm_not_observable=1)
                return
            errors.append(e)
            c.log("build failed:", repr(e)[:200])
            return
        c.log("built %s (%.1f s + harness %.1f s)" % (lib.desc, t1 - t, time.time() - t1))
        c.observe(library_variants=1)
        with lock:
            c.variants = getattr(c, "variants", []) + [lib.desc]
        for k, (mode, n, a) in enumerate(j.runs):
            for i, s in enumerate(seeds(n, 10 * num + k)):
                cmd = [h, mode, "--seed", str(s), "--shard", "%d/%d" % (i, n)] + more + list(a) + list(args)
                what = "%s on %s" % (mode, lib.desc)
                with lock:
                    futs.append(runpool.submit(c.run, cmd, what, j.timeout, j.env))

    with cf.ThreadPoolExecutor(max_workers=builders) as ex:
        list(ex.map(build, enumerate(jobs)))
    c.log("all built; %d runs" % len(futs))
    for f in list(futs):
        try:
            f.result()
        except BaseException as e:
            errors.append(e)
    runpool.shutdown()
    c.observe(harness_runs=len(futs))
    c.stats["variants"] = sorted(set(getattr(c, "variants", [])))
    for e in errors:
        if isinstance(e, vlib.BuildError):
            c.build_violation("build", e)
        else:
            raise e
    c.log("all runs finished")
