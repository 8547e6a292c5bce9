#!/usr/bin/env python3
"""C21: the generator programs under AddressSanitizer, UBSan, the checking
modes of libstdc++ and memcheck; their output is compiled, and compared between
builds by different compilers (undefined behaviour and uninitialised reads tend
to differ)."""
import hashlib, os, random, re, shutil, subprocess, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

PROGS = ["ostei_generator", "ostei_deriv1_generator", "ostei_hrr_generator", "ostei_vrr_generator"]
SAN = "-g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77", "LC_ALL": "C"}
WARN = ["-Werror=implicit-function-declaration", "-Werror=implicit-int", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=array-bounds",
        "-Werror=uninitialized", "-Werror=return-type", "-Werror=div-by-zero", "-Werror=format"]
REPORT = re.compile(r"ERROR: AddressSanitizer: ([\w-]+)|runtime error: ([^\n]*)|Assertion '([^']*)'|Error: attempt to ([^\n]*)|terminate called|WARNING: MemorySanitizer")


class Tools:
    def __init__(self, c, debug):
        self.c = c
        self.build = {}
        jobs = {"gcc": ("-O2 -D_GLIBCXX_ASSERTIONS " + SAN, "gcc", ""),
                "clang": ("-O1 -D_GLIBCXX_ASSERTIONS " + SAN + " -fsanitize=float-cast-overflow,local-bounds", "clang", ""),
                "debug": ("-O1 -D_GLIBCXX_DEBUG " + SAN, "gcc", ""),
                "gamess": ("-O2 -D_GLIBCXX_ASSERTIONS " + SAN, "gcc", "GAMESS"),
                "plain": ("-O1", "gcc", ""), "plainclang": ("-O2", "clang", ""), "plaino0": ("-O0 -ftrivial-auto-var-init=pattern", "gcc", "")}
        errs = []

        def one(k):
            try:
                self.build[k] = vlib.build_generator(jobs[k][0], jobs[k][1], jobs[k][2])
            except vlib.BuildError as e:
                errs.append(e)
        for k in jobs:
            one(k)
        for e in errs:
            c.build_violation("build", e)
        self.top = os.path.join(vlib.BUILD, "c21-%d" % os.getpid())
        shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.top)
        self.n = 0
        self.lock = threading.Lock()

    def run(self, kind, prog, args, timeout=300, cmd=()):
        """Returns (status, stdout, source, header)."""
        with self.lock:
            self.n += 1
            base = os.path.join(self.top, "r%d" % self.n)
        src, hdr = base + ".c", base + ".h"
        a = [x.replace("@SRC", src).replace("@HDR", hdr) for x in args]
        rc, out = vlib.sh(list(cmd) + [os.path.join(self.build[kind], prog)] + a, cwd=self.top, timeout=timeout, env=ENV)
        rs = [open(f, "rb").read() if os.path.exists(f) else None for f in (src, hdr)]
        for f in (src, hdr):
            if os.path.exists(f):
                os.unlink(f)
        return rc, out.replace(base, "@"), rs[0], rs[1]

    def judge(self, kind, prog, args, rc, out, valid):
        """valid: the arguments are usable, the program has to succeed"""
        c = self.c
        line = "%s (%s build) %s" % (prog, kind, " ".join(a for a in args if "@" not in a and a not in ("-o", "-oh")))
        m = REPORT.search(out)
        if m:
            c.violation("report:%s:%s" % (prog, re.sub(r"\W+", "_", (m.group(0))[:60])), "%s: %s" % (line, m.group(0)), out[:6000])
            return False
        if rc == -999:
            if valid:
                raise RuntimeError("time limit: " + line)
            c.observe(runs_stopped_for_time=1)  # (large, but valid momenta)
            return False
        if rc < 0 or rc in (77, 134, 139):
            c.violation("crash:" + prog, "%s ends with status %d" % (line, rc), out[-4000:])
            return False
        if valid and rc != 0:
            c.violation("refused:" + prog, "%s ends with status %d" % (line, rc), out[-4000:])
            return False
        return True


def weight(q, deriv):
    """rough cost of the sanitised program in seconds"""
    t = 1.0
    for x in q:
        t *= (x + 1) * (x + 2) / 2
    s = sum(q)
    return (0.02 + t * (s + 1) * 6e-6 * (6 if deriv else 1) * (1 + s / 8.0))


def thresholds(rng):
    v = rng.choice([(0, 0, 0, 0), (40, 40, 40, 40), (0, 40, 0, 40), None, None])
    if v is None:
        v = tuple(rng.randrange(0, 10) for _ in range(4))
    return ["-ve", str(v[0]), "-vg", str(v[1]), "-he", str(v[2]), "-hg", str(v[3])]


def direct(t, budget, rng):
    """Random quartets and options, straight into the programs."""
    c = t.c
    jobs = []
    # all quartets up to p, with both permutation flags
    for q in [(a, b, e, f) for a in range(2) for b in range(2) for e in range(2) for f in range(2)]:
        for p in PROGS[:2]:
            jobs.append((p, q, ["-p"] if rng.randrange(2) else [], rng.choice(["gcc", "clang", "debug", "gamess"])))
    spent = 0
    while spent < budget:
        d = rng.random() < .4
        top = rng.choice([2, 2, 3, 4, 6, 8])
        q = [rng.randrange(top + 1) for _ in range(4)]
        for i in range(rng.randrange(3)):
            q[rng.randrange(4)] = 0
        w = weight(q, d)
        if w > (6 if not THOROUGH else 60):
            continue
        kind = rng.choice(["gcc", "gcc", "clang", "gamess"] + (["debug"] if w < 1 else []))
        spent += w * (10 if kind == "debug" else 1)
        jobs.append((PROGS[int(d)], tuple(q), ["-p"] if rng.random() < .4 else [], kind))

    def one(j):
        p, q, perm, kind = j
        r = random.Random(hash((vlib.SEED,) + q + (p == PROGS[1],)))
        args = ["-q"] + [str(x) for x in q] + perm + thresholds(r) + ["-o", "@SRC", "-oh", "@HDR"]
        rc, out, src, hdr = t.run(kind, p, args, timeout=800)
        ok = t.judge(kind, p, args, rc, out, True)
        c.observe(evals=1, distinct=["%s %s %s" % (p, q, " ".join(args[5:-4]))], sanitised_runs=1)
        if ok and kind != "gamess":
            for other in ("plain", "plainclang", "plaino0"):
                rc2, out2, src2, hdr2 = t.run(other, p, args, timeout=800)
                c.observe(outputs_compared=1)
                if t.judge(other, p, args, rc2, out2, True) and (src2, hdr2, out2) != (src, hdr, out):
                    c.violation("differs:" + p, "%s %s: the output of the %s build differs from the one of the %s build" % (p, " ".join(args), other, kind))
    # longest first
    jobs.sort(key=lambda j: -weight(j[1], j[0] == PROGS[1]))
    vlib.pmap(one, jobs)


def trees(t, rng):
    """Whole libraries generated by the sanitised programs, all sources compiled."""
    c = t.c
    cfs = [(2, 1, 1, 0, 40, 0, 40), (1, 2, 1, 40, 40, 40, 40), (2, 2, 0, 3, 5, 2, 3)]
    if THOROUGH:
        cfs += [(3, 3, 0, 0, 40, 0, 40), (3, 1, 1, 0, 0, 0, 0), (2, 0, 1, 40, 40, 40, 40)]
        cfs += [(2, rng.randrange(4), 1, rng.randrange(7), rng.randrange(9), rng.randrange(6), rng.randrange(6)) for _ in range(6)]
    else:
        cfs += [(rng.choice([1, 2]), rng.randrange(3), 0, rng.randrange(7), rng.randrange(9), rng.randrange(6), rng.randrange(6))]
    for n, cf in enumerate(cfs):
        l, p, d, ve, vg, he, hg = cf
        kind = ["clang", "gcc"][n % 2]
        out = os.path.join(t.top, "tree%d" % n)
        # (a sanitiser report makes the program and so create.py fail)
        rc, log = vlib.create(l, p=p, d=d, ve=ve, vg=vg, he=he, hg=hg, gendir=t.build[kind], out=out, check=False, env=ENV)
        what = "l=%d p=%d d=%d ve=%d vg=%d he=%d hg=%d (%s build)" % (cf + (kind,))
        gen = os.path.join(out, "simint/ostei/gen")
        logs = {f: open(os.path.join(gen, f), errors="replace").read() for f in (os.listdir(gen) if os.path.isdir(gen) else []) if f.endswith(".log")}
        text = log + "".join(logs.values())
        m = REPORT.search(text)
        if m:
            f = [k for k, v in logs.items() if REPORT.search(v)]
            c.violation("report:tree:" + re.sub(r"\W+", "_", m.group(0)[:60]), "%s: %s while generating %s" % (what, m.group(0), ", ".join(f[:5])), text[max(0, m.start() - 200):m.start() + 5000])
            continue
        if rc != 0:
            c.violation("refused:tree", "create.py fails with the sanitised programs: " + what, log[-4000:])
            continue
        vec = rng.choice(vecs("scalar", "sse", "avx", "avx2", "commonavx512"))
        stage = os.path.join(t.top, "cfg%d" % n)
        rc, log = vlib.sh(["cmake", "-S", out, "-B", stage, "-DENABLE_TESTS=OFF", "-DSIMINT_VECTOR=" + vec, "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"])
        if rc != 0:
            c.violation("build", "configuring the library fails: " + what, log[-4000:])
            continue
        files = sorted(f for f in os.listdir(gen) if f.endswith(".c"))

        def comp(f):
            for cc in ("gcc", "clang"):
                rc, log = vlib.sh([cc, "-std=c99", "-D_POSIX_C_SOURCE=200809L", "-fopenmp-simd", "-fsyntax-only"] + (WARN + ["-Wuninitialized"]) + vlib.vec_flags(vec)
                                  + ["-I" + out, "-I" + os.path.join(stage, "stage"), os.path.join(gen, f)])
                if rc != 0:
                    c.violation("compile:" + cc, "%s of %s (%s) does not compile cleanly with %s" % (f, what, vec, cc), log[:4000])
            c.observe(evals=1, distinct=["%s of l=%d p=%d d=%d ve=%d vg=%d he=%d hg=%d" % ((f,) + cf)], sources_compiled=1)
        vlib.pmap(comp, files)
        # declared and defined functions agree (the headers alone)
        for h in sorted(f for f in os.listdir(gen) if f.endswith(".h")):
            for cc, x in (("gcc", "c"), ("clang", "c"), ("g++", "c++")):
                # (C++ has no restrict; the vectorisation headers are C)
                if x == "c++" and not h.startswith("ostei"):
                    continue
                rc, log = vlib.sh([cc, "-x", x, "-fsyntax-only"] + vlib.vec_flags(vec) + ["-I" + out, "-I" + os.path.join(stage, "stage"), os.path.join(gen, h)])
                if rc != 0 and x == "c":
                    c.violation("header:" + cc, "%s of %s (%s) does not compile with %s" % (h, what, vec, cc), log[:4000])
        shutil.rmtree(out, ignore_errors=True)
        shutil.rmtree(stage, ignore_errors=True)


def hostile(t, n, rng):
    """Malformed and extreme command lines: any exit status, but no crash."""
    c = t.c
    nums = ["0", "1", "2", "3", "-1", "-2147483648", "2147483647", "2147483648", "4294967296", "1e3", "0x1", "", " ", "1 ", "+1", "abc", "61", "60", "25", "--", "-q", "99999999999999999999999"]
    flags = ["-q", "-o", "-oh", "-ve", "-vg", "-he", "-hg", "-p", "-bra", "-bra_i", "-ket_k", "-center_j", "-center_k", "-center_l", "-x", "", "-h", "--help"]

    def one(i):
        r = random.Random(vlib.SEED * 1000003 + i)
        p = PROGS[i % 4]
        k = 2 if "hrr" in p else 4
        a = ["-q"] + [r.choice(["0", "1", "0", "2", "1", r.choice(nums)]) for _ in range(k)] + ["-o", "@SRC", "-oh", "@HDR"]
        for f in ("-ve", "-vg", "-he", "-hg"):
            if r.random() < .4:
                a += [f, r.choice(["0", "3", "-5", "2147483647", "-2147483648", r.choice(nums)])]
        if "hrr" in p:
            a += [x for x in ("-bra", "-bra_i", "-ket_k") if r.random() < .4]
        if "vrr" in p:
            a += [x for x in ("-center_j", "-center_k", "-center_l") if r.random() < .3]
        for _ in range(r.randrange(4)):
            op = r.randrange(4)
            if op == 0 and a:
                a.pop(r.randrange(len(a)))
            elif op == 1:
                a.insert(r.randrange(len(a) + 1), r.choice(flags + nums))
            elif op == 2 and a:
                a[r.randrange(len(a))] = r.choice(flags + nums + ["A" * 5000, "/", "/nonexistent/x", "\xc3\xa9\x01"])
            else:
                x, y = r.randrange(len(a)), r.randrange(len(a))
                a[x], a[y] = a[y], a[x]
        # never write anywhere but into the scratch directory
        safe, prev = [], ""
        for x in a:
            if prev in ("-o", "-oh") and not x.startswith("@") and x not in ("", "/", "/nonexistent/x"):
                x = "@SRC" if prev == "-o" else "@HDR"
            safe.append(x)
            prev = x
        # (large but valid momenta only cost time)
        big = [int(x) for x in safe if re.fullmatch(r"\+?\d{1,2}", x.strip())]
        if len([x for x in big if 2 < x < 61]) > 1 or (len(big) > 0 and max(big) > 2 and any("2" == x.strip() for x in safe)):
            safe = [x if not (re.fullmatch(r"\+?\d{1,2}", x.strip()) and int(x) > 2) else "2147483647" for x in safe]
        kind = ["gcc", "clang", "gamess"][i % 3]
        rc, out, src, hdr = t.run(kind, p, safe, timeout=60)
        t.judge(kind, p, safe, rc, out, False)
        c.observe(evals=1, distinct=["hostile %s %s" % (p, hashlib.md5(repr(safe).encode()).hexdigest()[:8])], hostile_command_lines=1, hostile_rejected=int(rc != 0))
    vlib.pmap(one, range(n))


def recurrences(t, rng):
    """The programs for single recurrence steps, all centres and directions."""
    c = t.c
    jobs = []
    top = 4 if THOROUGH else 3
    for a in range(top + 1):
        for b in range(top + 1):
            for x in (["-bra"], ["-bra", "-bra_i"], [], ["-ket_k"]):
                # (raising the first index of a doublet needs one to move)
                jobs.append((PROGS[2], [str(a), str(b)] + x, True))
            for x, q in (([], (a + 1, 0, b, 0)), (["-center_k"], (a, 0, b + 1, 0)), (["-center_j"], (0, a + 1, b, 0)), (["-center_l"], (a, 0, 0, b + 1)), (["-center_j"], (0, a + 1, 0, b)), (["-center_l"], (0, a, 0, b + 1))):
                jobs.append((PROGS[3], [str(z) for z in q] + x, True))
    if not THOROUGH:
        jobs = rng.sample(jobs, 60)

    def one(ij):
        i, (p, a, valid) = ij
        kind = ["gcc", "clang", "gamess", "debug"][i % 4]
        args = ["-q"] + a + ["-o", "@SRC", "-oh", "@HDR"]
        rc, out, src, hdr = t.run(kind, p, args)
        ok = t.judge(kind, p, args, rc, out, valid)
        c.observe(evals=1, distinct=["%s %s" % (p, " ".join(a))], sanitised_runs=1)
        if ok and kind != "gamess":
            rc2, out2, src2, hdr2 = t.run("plainclang", p, args)
            if (src2, hdr2) != (src, hdr):
                c.violation("differs:" + p, "%s %s: the output of the clang build differs from the one of the %s build" % (p, " ".join(args), kind))
    vlib.pmap(one, list(enumerate(jobs)))


def memcheck(t, n, rng):
    """Uninitialised values: the plain programs under memcheck."""
    c = t.c

    def one(i):
        r = random.Random(vlib.SEED * 31 + i)
        p = PROGS[i % 4]
        if p == PROGS[2]:
            a = [str(r.randrange(1, 3)), str(r.randrange(1, 3))] + r.choice([["-bra"], ["-bra", "-bra_i"], [], ["-ket_k"]])
        elif p == PROGS[3]:
            a = r.choice([["1", "0", "1", "0"], ["2", "0", "1", "0"], ["0", "2", "1", "0", "-center_j"], ["1", "0", "0", "2", "-center_l"], ["1", "0", "2", "0", "-center_k"]])
        else:
            a = [str(r.randrange(2 + (p == PROGS[0]))) for _ in range(4)] + thresholds(r) + (["-p"] if r.random() < .5 else [])
        args = ["-q"] + a + ["-o", "@SRC", "-oh", "@HDR"]
        rc, out, src, hdr = t.run("plain", p, args, timeout=600, cmd=["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--track-origins=no"])
        c.observe(evals=1, distinct=["memcheck %s %s" % (p, " ".join(a))], memcheck_runs=1)
        if rc == -999:
            raise RuntimeError("memcheck: time limit")
        if rc == 99:
            m = re.search(r"==\d+== ((?:Conditional|Use of|Invalid|Syscall)[^\n]*)", out)
            c.violation("memcheck:" + p, "%s %s: %s" % (p, " ".join(a), m.group(1) if m else "memcheck error"), out[:5000])
        elif rc != 0:
            c.violation("refused:" + p, "%s %s ends with status %s" % (p, " ".join(a), rc), out[-3000:])
    vlib.pmap(one, range(n))


def check(c):
    c.rule = "distinct (program, quartet, options) runs, generated sources compiled, and malformed command lines"
    c.assumptions = ["leaks are not judged (the programs exit after one task)", "quartets are limited by the time the sanitised programs need (up to about 8 angular momentum units per centre, far less in all four)",
                     "'compiles cleanly' means no errors and none of the warnings about missing declarations, wrong pointer types, bounds and uninitialised variables; unused variables do not count"]
    rng = random.Random(vlib.SEED * 613 + 21)
    t = Tools(c, True)
    try:
        if not c.viol:
            recurrences(t, rng)
            c.log("recurrence programs done")
            direct(t, 2500 if THOROUGH else 50, rng)
            c.log("direct runs done")
            hostile(t, 12000 if THOROUGH else 1600, rng)
            c.log("hostile command lines done")
            memcheck(t, 120 if THOROUGH else 16, rng)
            c.log("memcheck done")
            trees(t, rng)
    finally:
        shutil.rmtree(t.top, ignore_errors=True)
    c.finish(300)


vlib.main(check, "C21")
