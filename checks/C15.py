#!/usr/bin/env python3
"""C15: the generator driver and the generator programs, run under injected
schedules, crashes and faults; recorded trees, invocation logs and exit
statuses are judged offline."""
import os, random, re, shutil, signal, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

PROGS = ["ostei_generator", "ostei_deriv1_generator", "ostei_hrr_generator", "ostei_vrr_generator"]
AM = "spdfghi"


def opts(l, p, d, ve, vg, he, hg):
    return ["-l", str(l), "-p", str(p), "-d", str(d), "-ve", str(ve), "-vg", str(vg), "-he", str(he), "-hg", str(hg)]


def signature(top):
    """Content of a generated tree. Declarations in the generated headers and
    entries of the source lists may come in any order."""
    sig = {}
    for d, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            r = os.path.relpath(p, top)
            if f.endswith(".log"):
                continue
            s = open(p, "rb").read()
            if r.startswith("simint/ostei/gen/"):
                t = s.decode()
                if f.endswith(".h"):
                    t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", t, flags=re.S)
                    chunks, rest = [], []
                    for line in t.splitlines():
                        if line.lstrip().startswith("#") or line.strip() in ("}", 'extern "C" {'):
                            chunks.append(line.strip())
                            rest.append("\n")
                        else:
                            rest.append(line)
                    # function bodies of inline functions stay as they are
                    chunks += [" ".join(x.split()) for x in "\n".join(rest).split(";")]
                    s = repr(sorted(x for x in chunks if x)).encode()
                elif f.startswith("filelist_"):
                    s = repr(sorted(set(t.split()))).encode()
            sig[r] = s
    return sig


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append("only in the second: " + k)
        elif k not in b:
            out.append("missing from the second: " + k)
        elif a[k] != b[k]:
            out.append("differs: " + k)
    return out


class World:
    def __init__(self, c):
        self.c = c
        self.real = vlib.build_generator()
        self.top = os.path.join(vlib.BUILD, "c15-%d" % os.getpid())
        shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.top)
        self.fake = os.path.join(self.top, "gen")
        os.makedirs(self.fake)
        for p in PROGS:
            shutil.copy(os.path.join(vlib.SRC, "faultgen.sh"), os.path.join(self.fake, p))
            os.chmod(os.path.join(self.fake, p), 0o755)
        self.shim = os.path.join(self.top, "wrdelay.so")
        rc, log = vlib.sh(["gcc", "-O1", "-shared", "-fPIC", os.path.join(vlib.SRC, "wrdelay.c"), "-o", self.shim, "-ldl"])
        if rc != 0:
            raise RuntimeError(log)
        self.n = 0
        self.lock = threading.Lock()

    def newdir(self, tag="t"):
        with self.lock:
            self.n += 1
            return os.path.join(self.top, "%s%d" % (tag, self.n))

    def create(self, o, out, n=1, hashseed="0", fault="", match="*", jitter=False, fake=None, timeout=240, kill_after=None, pipe=None, cwd=None, outarg=None):
        """returns (status, output, invocations, faults hit); status -999 = hang"""
        log = self.newdir("log")
        open(log, "w").close()
        env = dict(os.environ, FG_LOG=log, FG_REAL=self.real, FG_FAULT=fault, FG_MATCH=match, FG_SCRATCH=self.top, PYTHONHASHSEED=hashseed,
                   FG_JITTER="1" if jitter else "", FG_PRELOAD=self.shim if jitter else "", LC_ALL="C")
        cmd = [sys.executable, os.path.join(vlib.REPO, "create.py"), "-n", str(n), "-g", fake or self.fake] + o + [outarg or out]
        so = open(log + ".out", "wb")
        p = subprocess.Popen(cmd, cwd=cwd or self.top, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE if pipe else so, stderr=so, start_new_session=True)
        if pipe:
            p.stdout.read(pipe)
            p.stdout.close()
        try:
            if kill_after is not None:
                try:
                    p.wait(kill_after)
                except subprocess.TimeoutExpired:
                    pass
                rc = p.poll()
            else:
                rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = -999
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        so.close()
        calls = open(log, errors="replace").read().splitlines()
        text = open(log + ".out", errors="replace").read()
        os.unlink(log); os.unlink(log + ".out")
        return rc, text, [x for x in calls if not x.startswith("FAULT ")], [x for x in calls if x.startswith("FAULT ")]


def configs():
    rng = random.Random(vlib.SEED * 7919 + 15)
    q = [(2, 2, 1, 3, 5, 2, 3), (2, 1, 1, 0, 40, 0, 40), (1, 0, 1, 0, 0, 0, 0), (2, 3, 0, 1, 3, 1, 2)]
    # and two drawn at random
    for _ in range(2 if not THOROUGH else 12):
        q.append((rng.choice([1, 2]) if not THOROUGH else rng.choice([1, 2, 3]), rng.randrange(0, 4), rng.randrange(2), rng.randrange(0, 5), rng.randrange(0, 7), rng.randrange(0, 4), rng.randrange(0, 5)))
    return q


def complete(w, o, out, sig):
    """Every requested class is declared and defined in a listed source."""
    l, d = int(o[1]), int(o[5])
    c = w.c
    gen = "simint/ostei/gen/"
    for dd in range(d + 1):
        for ll in range(l + 1):
            fl = gen + "filelist_d%d_%d" % (dd, ll)
            if fl not in sig:
                c.violation("incomplete:filelist", "create.py %s: no %s" % (" ".join(o), fl))
                continue
            names = eval(sig[fl].decode())
            for f in names:
                p = os.path.join(out, "simint", f)
                if not os.path.isfile(p) or os.path.getsize(p) < 20:
                    c.violation("incomplete:source", "create.py %s: %s lists %s, which is missing or empty" % (" ".join(o), fl, f))
            text = ""
            for f in names:
                try:
                    text += open(os.path.join(out, "simint", f)).read()
                except OSError:
                    pass
            defined = set(re.findall(r"\b((?:ostei|ostei_deriv1)_[a-z]_[a-z]_[a-z]_[a-z])\s*\(", text))
            p = int(o[3])
            n = 0
            for a in range(ll + 1):
                for b in range(ll + 1):
                    for e in range(ll + 1):
                        for f in range(ll + 1):
                            if (a < b or e < f) and max(a, b, e, f) >= p:
                                continue
                            for k in range(dd + 1):
                                fn = ("ostei_" if k == 0 else "ostei_deriv1_") + "_".join(AM[x] for x in (a, b, e, f))
                                n += 1
                                if fn not in defined:
                                    c.violation("incomplete:class", "create.py %s: %s not in the sources listed in %s" % (" ".join(o), fn, fl))
            c.observe(classes_found=n)


def determinism(w):
    c = w.c
    rng = random.Random(vlib.SEED * 104729)
    jobs = []
    refs = {}

    def ref(cf):
        o = opts(*cf)
        out = w.newdir("ref")
        t = time.time()
        rc, text, calls, _ = w.create(o, out, 1, "0")
        if rc != 0:
            c.violation("fails:" + ("hang" if rc == -999 else "clean"), "create.py %s ended with status %s" % (" ".join(o), rc), text[-3000:])
            return
        refs[cf] = (o, out, signature(out), calls, time.time() - t)
        complete(w, o, out, refs[cf][2])
        c.observe(evals=1, distinct=["ref " + " ".join(o)], generator_invocations=len(calls))
    vlib.pmap(ref, configs())

    def compare(cf, out, what, rc, text, calls):
        o, rout, rsig, rcalls, _ = refs[cf]
        if rc != 0:
            c.violation("fails:" + what, "create.py %s (%s) ended with status %s" % (" ".join(o), what, rc), text[-3000:])
            return
        dd = diff(rsig, signature(out))
        if dd:
            c.violation("differs:" + what, "create.py %s: the tree generated %s differs from the one of a single process in a new directory: %s" % (" ".join(o), what, "; ".join(dd[:6])))
        order = [" ".join(x.split()[:6]) for x in calls]
        c.observe(evals=1, distinct=["%s %s %08x" % (what, " ".join(o), hash(tuple(order)) & 0xffffffff)], trees_compared=1, files_compared=len(rsig),
                  generator_invocations=len(calls), invocation_orders_different=int(order != [" ".join(x.split()[:6]) for x in rcalls]))

    def one(job):
        cf, kind, seed = job
        if cf not in refs:
            return
        r = random.Random(seed)
        o, rout, rsig, rcalls, dt = refs[cf]
        out = w.newdir("cmp")
        hs = str(r.randrange(1, 2**31))
        n = r.choice([2, 3, 5, 8, 16])
        if kind == "parallel":
            rc, text, calls, _ = w.create(o, out, n, hs, jitter=True)
            compare(cf, out, "with several processes", rc, text, calls)
        elif kind == "hashseed":
            rc, text, calls, _ = w.create(o, out, 1, hs)
            compare(cf, out, "with another hash seed", rc, text, calls)
        elif kind == "twice":
            for k in range(2):
                rc, text, calls, _ = w.create(o, out, n, hs)
            compare(cf, out, "a second time into the same directory", rc, text, calls)
        elif kind == "stale":
            other = r.choice([x for x in refs if x != cf])
            rc, text, calls, _ = w.create(refs[other][0], out, 4, hs)
            # foreign leftovers
            for f in ("ostei_f_f_f_f.c", "hrr_J_f_f.c", "filelist_d1_6"):
                try:
                    open(os.path.join(out, "simint/ostei/gen", f), "w").write("stale\n")
                except OSError:
                    pass
            rc, text, calls, _ = w.create(o, out, n, hs)
            compare(cf, out, "into a directory holding another configuration", rc, text, calls)
        elif kind == "killed":
            rc, text, calls, _ = w.create(o, out, n, hs, kill_after=r.random() * max(dt, 0.4))
            c.observe(runs_killed=int(rc is None))
            rc, text, calls, _ = w.create(o, out, r.choice([1, 4]), hs)
            compare(cf, out, "after a killed run", rc, text, calls)
        elif kind == "failed":
            call = r.choice(rcalls)
            rc, text, calls, hit = w.create(o, out, n, hs, fault="kill", match=pattern(call))
            rc, text, calls, _ = w.create(o, out, r.choice([1, 4]), hs)
            compare(cf, out, "after a failed run", rc, text, calls)
        elif kind == "relative":
            os.makedirs(os.path.join(w.top, "cwd dir"), exist_ok=True)
            rel = os.path.basename(out) + " with space"
            rc, text, calls, _ = w.create(o, os.path.join(w.top, "cwd dir", rel), n, hs, cwd=os.path.join(w.top, "cwd dir"), outarg="./" + rel + "/")
            compare(cf, os.path.join(w.top, "cwd dir", rel), "into a relative path", rc, text, calls)
            out = os.path.join(w.top, "cwd dir", rel)
        elif kind == "direct":
            rc, text, calls, _ = w.create(o, out, n, hs, fake=w.real)
            compare(cf, out, "without the recording stand-ins", rc, text, rcalls)
        shutil.rmtree(out, ignore_errors=True)

    kinds = ["parallel", "hashseed", "twice", "stale", "killed", "failed", "relative", "direct"]
    reps = {"parallel": 3, "killed": 2, "failed": 2}
    jobs = []
    for cf in refs:
        for k in kinds:
            for i in range(reps.get(k, 1) * (4 if THOROUGH else 1)):
                jobs.append((cf, k, rng.randrange(1 << 30)))
    vlib.pmap(one, jobs, 8)
    return refs


def pattern(call):
    """Shell pattern for this invocation, whatever the output directory."""
    out = []
    for x in call.split():
        out.append("*/" + os.path.basename(x) if "/" in x else x)
    return " ".join(out) + " *"


def faults(w, refs):
    c = w.c
    rng = random.Random(vlib.SEED * 15485863)
    cf = (1, 1, 1, 0, 40, 0, 40)
    o = opts(*cf)
    rc, text, calls, _ = w.create(o, w.newdir("ref"), 1)
    if rc != 0:
        c.violation("fails:clean", "create.py %s ended with status %s" % (" ".join(o), rc), text[-3000:])
        return
    by = {p: [x for x in calls if x.startswith(p + " ")] for p in PROGS}
    kinds = ["exit1", "exit77", "late1", "segv", "kill", "late9", "srcfull", "hdrfull", "logfull", "fsize", "nomem", "nosrc"]
    jobs = []
    for p in PROGS:
        if not by[p]:
            c.log("no invocation of", p)
            continue
        for k in kinds:
            if k == "logfull" and p not in PROGS[:2]:
                continue  # create.py reads the standard output of the first two only
            for i in range(1 if not THOROUGH else 6):
                # first, last and random positions
                call = [by[p][0], by[p][-1], rng.choice(by[p])][rng.randrange(3)]
                jobs.append((p, k, call, rng.choice([1, 1, 4, 8])))
    # (the driver deletes and recreates nothing between the invocations)
    for p in PROGS[:3]:
        if by[p]:
            jobs.append((p, "rmdir", by[p][0], 4))

    def one(j):
        p, k, call, n = j
        out = w.newdir("f")
        rc, text, calls, hit = w.create(o, out, n, "0", fault=k, match=pattern(call), timeout=120)
        shutil.rmtree(out, ignore_errors=True)
        if not hit:
            return
        c.observe(evals=1, distinct=["%s in %s" % (k, p)], faults_injected=1)
        if rc == 0:
            c.violation("silent:%s:%s" % (p, k), "create.py -n %d %s exits with status 0 although '%s' failed (%s)" % (n, " ".join(o), call, k), text[-2500:])
        elif rc == -999:
            c.violation("hang:%s:%s" % (p, k), "create.py -n %d %s hangs when '%s' fails (%s)" % (n, " ".join(o), call, k), text[-2500:])
    vlib.pmap(one, jobs, 8)

    # standard output going away
    def piped(j):
        nb, n = j
        cf = (2, 1, 1, 0, 40, 0, 40)
        o = opts(*cf)
        out = w.newdir("p")
        rc, text, calls, _ = w.create(o, out, n, "0", pipe=nb, timeout=120, fake=w.real)
        c.observe(evals=1, distinct=["reader leaves after %d bytes" % nb], outputs_closed=1)
        if rc == -999:
            c.violation("hang:stdout", "create.py -n %d %s hangs when the reader of its standard output leaves after %d bytes" % (n, " ".join(o), nb), text[-2500:])
        elif rc == 0 and (cf not in refs or diff(refs[cf][2], signature(out))):
            c.violation("silent:stdout", "create.py -n %d %s reports success with an incomplete tree when the reader of its standard output leaves after %d bytes" % (n, " ".join(o), nb), text[-2500:])
        shutil.rmtree(out, ignore_errors=True)
    vlib.pmap(piped, [(1, 4), (2000, 4), (9000, 8)] + ([(rng.randrange(1, 40000), rng.choice([2, 4, 8])) for _ in range(12)] if THOROUGH else []), 4)


def programs(w):
    """The generator programs themselves: unusable arguments, unwritable output."""
    c = w.c
    d = w.newdir("prog")
    os.makedirs(d)
    src, hdr = os.path.join(d, "o.c"), os.path.join(d, "o.h")
    afile = os.path.join(d, "file")
    open(afile, "w").close()
    for p in PROGS:
        exe = os.path.join(w.real, p)
        am = ["2", "1"] if "hrr" in p else (["2", "1", "1", "0"] if "vrr" not in p else ["1", "0", "1", "0"])
        good = ["-q"] + am + ["-o", src, "-oh", hdr]
        extra = []
        bad = [([], "no arguments"), (["-q"] + am + ["-o", src], "no header"), (["-q"] + am + ["-oh", hdr], "no source"), (["-o", src, "-oh", hdr], "no quartet"),
               (["-o", src, "-oh", hdr, "-q"] + am[:-1], "short quartet"), (good + ["-zz"], "unknown option"), (good + ["3"], "stray argument"),
               (good + ["-ve"], "option without value"), (["-q"] + am + ["-o"], "-o without value"),
               (["-q"] + am + ["-o", os.path.join(d, "no/such/dir.c"), "-oh", hdr], "source in a missing directory"),
               (["-q"] + am + ["-o", src, "-oh", os.path.join(d, "no/such/dir.h")], "header in a missing directory"),
               (["-q"] + am + ["-o", d, "-oh", hdr], "source is a directory"), (["-q"] + am + ["-o", src, "-oh", d], "header is a directory"),
               (["-q"] + am + ["-o", os.path.join(afile, "x.c"), "-oh", hdr], "source below a file"),
               (["-q"] + am + ["-o", "/dev/full", "-oh", hdr], "full disk (source)"), (["-q"] + am + ["-o", src, "-oh", "/dev/full"], "full disk (header)")]
        for x in ("x", "1x", "", "-1", "1.5", "99999999999999999999", "-99999999999999999999", "--", "0x", "2-", "2147483647", "1000"):
            for i in range(len(am)):
                bad.append((["-q"] + am[:i] + [x] + am[i + 1:] + ["-o", src, "-oh", hdr], "bad momentum"))
        for x in ("x", "", "1x", "3,5", "99999999999999999999"):
            for f in ("-ve", "-vg", "-he", "-hg"):
                bad.append((good + [f, x], "bad threshold"))
        rc, out = vlib.sh([exe] + good, cwd=d, timeout=60)
        if rc != 0:
            c.violation("program:%s:good" % p, "%s %s ends with status %s" % (p, " ".join(good), rc), out[-2000:])

        def one(b):
            i, (a, what) = b
            # own output files
            a = [x.replace(src, src + str(i)).replace(hdr, hdr + str(i)) if x in (src, hdr) else x for x in a]
            rc, out = vlib.sh([exe] + a, cwd=d, timeout=60)
            c.observe(evals=1, distinct=["%s: %s" % (p, what)], bad_command_lines=1)
            if rc == 0:
                c.violation("program:%s:%s" % (p, what.replace(" ", "_")), "%s exits with status 0: %s (%s)" % (p, what, " ".join(a)), out[-2000:])
            elif rc == -999:
                c.violation("program:%s:%s" % (p, what.replace(" ", "_")), "%s hangs: %s (%s)" % (p, what, " ".join(a)), out[-2000:])
            elif rc < 0:
                c.violation("program:%s:%s" % (p, what.replace(" ", "_")), "%s crashes (signal %d): %s (%s)" % (p, -rc, what, " ".join(a)), out[-2000:])
        vlib.pmap(one, list(enumerate(bad)), 8)
        # standard output holds the requirements create.py reads
        if p not in PROGS[:2]:
            rc = 1
        else:
            rc, out = vlib.sh(["sh", "-c", 'exec "$0" "$@" > /dev/full', exe] + good, cwd=d, timeout=60)
            c.observe(evals=1, distinct=["%s: full disk (standard output)" % p], bad_command_lines=1)
        if rc == 0:
            c.violation("program:%s:stdout" % p, "%s exits with status 0 although its standard output could not be written" % p)
        # file size limits: at any limit, success means complete output
        for f in (src, hdr):
            open(f, "w").close()
        vlib.sh([exe] + good, cwd=d, timeout=60)
        want = (open(src, "rb").read(), open(hdr, "rb").read())
        for lim in sorted({0, 1, max(0, len(want[0]) // 1024 - 1), len(want[0]) // 1024, len(want[0]) // 2048}):
            for f in (src, hdr):
                open(f, "w").close()
            rc, out = vlib.sh(["bash", "-c", 'ulimit -c 0; ulimit -f %d; trap "" XFSZ; exec "$0" "$@"' % lim, exe] + good, cwd=d, timeout=60)
            got = (open(src, "rb").read(), open(hdr, "rb").read())
            c.observe(evals=1, distinct=["%s: size limit" % p], size_limits=1)
            if rc == 0 and got != want:
                c.violation("program:%s:size" % p, "%s exits with status 0 with truncated output (file size limit %d kB)" % (p, lim))

    # the driver
    full = dict(zip("lpdng", ("1", "1", "0", "1", w.fake)))

    def cmdline(**kw):
        a = []
        v = dict(full)
        v.update(kw)
        out = v.pop("out", None) or w.newdir("bad")
        for k, x in v.items():
            if x is not None:
                a += ["-" + k, x]
        return a + ([] if out == "-" else [out])
    lists = []
    for x in ("-1", "x", "1.5", "62", "1000", ""):
        lists.append((cmdline(l=x), "maximum angular momentum '%s'" % x))
    for x in ("2", "3", "-1", "x", ""):
        lists.append((cmdline(d=x), "derivative order '%s'" % x))
    for x in ("0", "-3", "x"):
        lists.append((cmdline(n=x), "process count '%s'" % x))
    for x in ("l", "p", "g"):
        lists.append((cmdline(**{x: None}), "no -" + x))
    lists.append((cmdline(p="x"), "bad -p"))
    lists.append((cmdline(out="-"), "no output directory"))
    lists.append((cmdline(out=os.path.join(afile, "tree")), "output below a file"))
    lists.append((cmdline() + ["-zz"], "unknown option"))
    lists.append((cmdline() + ["-ve", "x"], "bad -ve"))
    lists.append((cmdline(g=os.path.join(d, "nowhere")), "no generator directory"))
    for p in PROGS:
        g = w.newdir("part")
        shutil.copytree(w.fake, g)
        os.unlink(os.path.join(g, p))
        lists.append((cmdline(g=g, d="1"), "no " + p))
        g = w.newdir("part")
        shutil.copytree(w.fake, g)
        os.chmod(os.path.join(g, p), 0o644)
        lists.append((cmdline(g=g, d="1") + ["-ve", "0", "-vg", "40", "-he", "0", "-hg", "40"], p + " not executable"))
        g = w.newdir("part")
        shutil.copytree(w.fake, g)
        open(os.path.join(g, p), "w").write("not a program\n")
        os.chmod(os.path.join(g, p), 0o755)
        lists.append((cmdline(g=g, d="1") + ["-ve", "0", "-vg", "40", "-he", "0", "-hg", "40"], p + " not a program"))

    def two(b):
        a, what = b
        env = dict(FG_LOG=os.path.join(d, "log"), FG_REAL=w.real, FG_FAULT="", FG_JITTER="", FG_PRELOAD="")
        rc, out = vlib.sh([sys.executable, os.path.join(vlib.REPO, "create.py")] + a, cwd=d, timeout=120, env=env)
        c.observe(evals=1, distinct=["create.py: " + what], bad_command_lines=1)
        if rc == 0:
            c.violation("driver:" + what.replace(" ", "_"), "create.py exits with status 0: %s (%s)" % (what, " ".join(a)), out[-2000:])
        elif rc == -999:
            c.violation("driver:" + what.replace(" ", "_"), "create.py hangs: %s (%s)" % (what, " ".join(a)), out[-2000:])
    vlib.pmap(two, lists, 8)


def library(w, refs):
    """The trees are not only equal: they build and hold every class."""
    c = w.c
    o = opts(2, 2, 1, 3, 5, 2, 3)
    cf = (2, 2, 1, 3, 5, 2, 3)
    if cf not in refs:
        return
    out = w.newdir("lib")
    rc, text, calls, _ = w.create(o, out, 8, "12345", jitter=True)
    if rc != 0:
        c.violation("fails:parallel", "create.py %s ended with status %s" % (" ".join(o), rc), text[-3000:])
        return
    lib = vlib.build_lib(out, "avx2", cflags=O0)
    lib.vec, lib.maxder = "avx2", 1
    h = vlib.build_harness(lib, ["mon_eri.cpp"], cxxflags=("-O0", "-g1"))
    jobs = [[h, m, "--seed", str(s), "--shard", "%d/8" % i, "--cases", "2"] for m in ("eri", "deriv") for i, s in enumerate(seeds(8, 77))]
    vlib.pmap(lambda x: c.run(x, "%s on the library generated by 8 processes" % x[1], 250), jobs, 8)
    shutil.rmtree(lib.build, ignore_errors=True)


def check(c):
    c.rule = "distinct (kind of run, configuration, invocation order), (fault, program) and (malformed command line, program) combinations"
    c.assumptions = ["a tree is its files without the logs; declarations in generated headers and entries of the source lists may come in any order",
                     "faults are injected by stand-ins for the generator programs, /dev/full and size limits; all in a scratch directory"]
    w = World(c)
    try:
        refs = determinism(w)
        c.log("trees compared")
        faults(w, refs)
        c.log("faults injected")
        programs(w)
        c.log("command lines tried")
        library(w, refs)
    finally:
        shutil.rmtree(w.top, ignore_errors=True)
    c.finish(200)


vlib.main(check, "C15")
