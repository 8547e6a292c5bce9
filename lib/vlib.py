"""Shared machinery of the checks: builds (generator, generated sources,
library variants, harnesses) from the current working tree of /repo, running
harnesses, evidence files, known findings and verdicts.

Everything is built under /verif/build (git-ignored); directories are keyed by
a hash of the sources and the flags, so that nothing stale is ever used."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(VERIF, "src")
NCPU = os.cpu_count() or 8

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


class BuildError(Exception):
    """A build of the tree under test failed (log has the details)."""
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.what, self.log = what, log


def sh(cmd, cwd=None, timeout=800, env=None, stdin=None, stop=None):
    """Run, return (rc, output). rc -999 on timeout, -998 if stop() said so."""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL if stdin is None else stdin, env=e,
                         start_new_session=True, text=True, errors="replace")
    end = time.time() + timeout
    while True:
        left = end - time.time()
        try:
            out, _ = p.communicate(timeout=max(0.01, min(left, 2) if stop else left))
            return p.returncode, out
        except subprocess.TimeoutExpired:
            stopped = stop is not None and stop()
            if not stopped and time.time() < end:
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, _ = p.communicate()
            return (-998 if stopped else -999), out


def _hash_tree(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for top in paths:
        if os.path.isfile(top):
            files = [top]
        else:
            files = []
            for d, ds, fs in os.walk(top):
                ds.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, REPO).encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


_repo_hash = {}


def gen_hash():
    if "g" not in _repo_hash:
        _repo_hash["g"] = _hash_tree([os.path.join(REPO, p) for p in ("CMakeLists.txt", "generator")])
    return _repo_hash["g"]


def skel_hash():
    if "s" not in _repo_hash:
        _repo_hash["s"] = _hash_tree([os.path.join(REPO, p) for p in ("create.py", "skel")])
    return _repo_hash["s"]


class _Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.path = path + ".lock"

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _stamped(d):
    return os.path.exists(os.path.join(d, ".ok"))


def _stamp(d):
    open(os.path.join(d, ".ok"), "w").close()


def compilers(cc):
    """The C and C++ compilers called cc. "armN" is gcc with stand-ins for the ARM
    headers and vectors of N bits (0: as the project's flags say)."""
    if not cc.startswith("arm"):
        return cc, {"gcc": "g++", "clang": "clang++"}[cc]
    w = os.path.join(SRC, "arm", "cc.sh")
    d = os.path.join(BUILD, "%s-%s" % (cc, _hash_tree([os.path.join(SRC, "arm", f) for f in sorted(os.listdir(os.path.join(SRC, "arm")))], "")[:8]))
    with _Lock(d):
        if not _stamped(d):
            os.makedirs(d, exist_ok=True)
            for n in ("gcc", "g++"):
                f = os.path.join(d, n)
                open(f, "w").write("#!/bin/bash\nexec bash %s %s %s \"$@\"\n" % (w, n, cc[3:]))
                os.chmod(f, 0o755)
            _stamp(d)
    return os.path.join(d, "gcc"), os.path.join(d, "g++")


def build_generator(flags="-O1", cc="gcc", ordering=""):
    cxx = compilers(cc)[1]
    d = os.path.join(BUILD, "gen-" + gen_hash() + "-" + hashlib.sha256((flags + cc + ordering).encode()).hexdigest()[:8])
    with _Lock(d):
        if not _stamped(d):
            shutil.rmtree(d, ignore_errors=True)
            cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                   "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_COMPILER=" + cxx,
                   "-DCMAKE_CXX_FLAGS=" + flags]
            if ordering:
                cmd.append("-DSIMINT_ORDERING=" + ordering)
            rc, out = sh(cmd)
            if rc != 0:
                raise BuildError("configuring the generator failed", out)
            rc, out = sh(["ninja", "-C", d, "-j", str(NCPU)])
            if rc != 0:
                raise BuildError("building the generator failed", out)
            _stamp(d)
    return os.path.join(d, "generator", "ostei")


def create(l, p=None, d=0, ve=0, vg=0, he=0, hg=0, n=None, gendir=None, out=None, check=True, env=None):
    """Run create.py; returns the source directory (and output if check=False)."""
    if gendir is None:
        gendir = build_generator()
    if p is None:
        p = l
    if n is None:
        n = NCPU
    opts = ["-l", str(l), "-p", str(p), "-d", str(d), "-ve", str(ve), "-vg", str(vg), "-he", str(he), "-hg", str(hg)]
    cached = out is None
    if cached:
        key = hashlib.sha256((gendir + " ".join(opts)).encode()).hexdigest()[:12]
        out = os.path.join(BUILD, "src-%s-%s-%s" % (gen_hash()[:8], skel_hash(), key))
    with _Lock(out):
        if cached and _stamped(out):
            return out
        if cached:
            shutil.rmtree(out, ignore_errors=True)
        rc, log = sh([sys.executable, os.path.join(REPO, "create.py"), "-n", str(n), "-g", gendir] + opts + [out],
                     cwd=BUILD, env=env)
        if not check:
            return rc, log
        if rc != 0:
            raise BuildError("create.py %s failed with status %s" % (" ".join(opts), rc), log)
        if cached:
            _stamp(out)
    return out


def canonical(q):
    """The member of a class's orbit that create.py generates code for."""
    orbit = {(r[0], r[1], r[2], r[3]) for p in (q, q[2:] + q[:2]) for a in (p[:2], p[1::-1]) for b in (p[2:], p[:1:-1]) for r in (tuple(a) + tuple(b),)}
    return orbit


def create_sparse(l, quartets, d=0, ve=0, vg=0, he=0, hg=0):
    """Sources for maximum angular momentum l that hold only some classes (with
    all their permutations). Only the names of the others are declared, so that
    programs are linked with SPARSE_LINK and must not use them."""
    gendir = build_generator()
    want = set([(0, 0, 0, 0)])
    for q in quartets:
        want |= canonical(tuple(q))
    spec = "".join("%d%d%d%d;" % q for q in sorted(want))
    opts = ["-l", str(l), "-p", "0", "-d", str(d), "-ve", str(ve), "-vg", str(vg), "-he", str(he), "-hg", str(hg)]
    key = hashlib.sha256((gendir + " ".join(opts) + spec + _hash_tree([os.path.join(SRC, "sparsegen.c")])).encode()).hexdigest()[:12]
    out = os.path.join(BUILD, "src-%s-%s-sp%s" % (gen_hash()[:8], skel_hash(), key))
    bind = out + "-bin"
    with _Lock(out):
        if _stamped(out):
            return out
        shutil.rmtree(out, ignore_errors=True)
        shutil.rmtree(bind, ignore_errors=True)
        os.makedirs(bind)
        for f in os.listdir(gendir):
            if os.path.isfile(os.path.join(gendir, f)) and not f.startswith(("ostei_generator", "ostei_deriv1_generator")):
                os.symlink(os.path.join(gendir, f), os.path.join(bind, f))
        w = os.path.join(bind, "sparsegen")
        rc, log = sh(["gcc", "-O1", "-o", w, os.path.join(SRC, "sparsegen.c")])
        if rc != 0:
            raise RuntimeError("compiling sparsegen.c failed\n" + log)
        for f in ("ostei_generator", "ostei_deriv1_generator"):
            os.symlink(w, os.path.join(bind, f))
        env = dict(os.environ, SIMINT_SPARSE=spec, SIMINT_SPARSE_REAL=gendir)
        rc, log = sh([sys.executable, os.path.join(REPO, "create.py"), "-n", str(NCPU), "-g", bind] + opts + [out], cwd=BUILD, env=env)
        if rc != 0:
            raise BuildError("create.py %s failed with status %s" % (" ".join(opts), rc), log)
        gen = os.path.join(out, "simint", "ostei", "gen")
        names = {"_".join("spdfghik"[x] for x in q) for q in want}
        for f in os.listdir(gen):
            if f.startswith("filelist"):
                fp = os.path.join(gen, f)
                t = open(fp).read()
                t = re.sub(r"[^\s;]*/ostei_(?:deriv1_)?([spdfghik]_[spdfghik]_[spdfghik]_[spdfghik])\.c\s*",
                           lambda m: m.group(0) if m.group(1) in names else "", t)
                open(fp, "w").write(t)
        _stamp(out)
    return out


SPARSE_LINK = ["-no-pie", "-Wl,--unresolved-symbols=ignore-all"]


class Lib:
    def __init__(self, src, build, cc, flags, link, name):
        self.src, self.build, self.cc, self.flags, self.link, self.name = src, build, cc, flags, link, name
        self.a = os.path.join(build, "simint", "libsimint.a")
        self.inc = ["-I" + src, "-I" + os.path.join(build, "stage")]


def vec_flags(vec):
    """Compiler flags a user of this variant needs for the intrinsics headers."""
    v = vec[7:] if vec.startswith("scalar-") else vec
    return {"scalar": [], "asimd": [], "sve": ["-msve-vector-bits=512"], "sse": ["-msse2"], "avx": ["-mavx"], "avx2": ["-mavx2", "-mfma"],
            "commonavx512": ["-mavx512f", "-mavx512cd", "-mfma"],
            "avx512": ["-mavx512f", "-mavx512cd", "-mavx512bw", "-mavx512dq", "-mavx512vl", "-mfma"],
            "micavx512": ["-mavx512f", "-mavx512cd", "-mavx512pf", "-mavx512er", "-mfma"]}[v]


def have_avx512():
    try:
        t = open("/proc/cpuinfo").read()
        return all("avx512" + x in t for x in ("f", "cd", "bw", "dq", "vl"))
    except OSError:
        return False


def build_lib(src, vec, cflags=("-O1",), cc="gcc", maxam=None, maxder=None, fortran=False, jobs=None, tests=False, name=None, generator="Ninja", cmake=()):
    """Build the library with the project's own CMake files. cflags is handed
    over through SIMINT_C_FLAGS, as documented by the project."""
    cflags = list(cflags)
    ccname, (cc, cxx) = cc, compilers(cc)
    key = hashlib.sha256(repr((src, vec, cflags, cc, maxam, maxder, fortran, tests) + ((generator,) if generator != "Ninja" else ()) + tuple(cmake)).encode()).hexdigest()[:12]
    d = os.path.join(BUILD, "lib-" + key)
    link = [f for f in cflags if f.startswith("-fsanitize")]
    with _Lock(d):
        if not _stamped(d):
            shutil.rmtree(d, ignore_errors=True)
            cmd = ["cmake", "-S", src, "-B", d, "-G", generator, "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                   "-DENABLE_TESTS=" + ("ON" if tests else "OFF"), "-DSIMINT_VECTOR=" + vec,
                   "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_CXX_COMPILER=" + cxx,
                   "-DSIMINT_C_FLAGS=" + ";".join(cflags)]
            if maxam is not None:
                cmd.append("-DSIMINT_MAXAM=%d" % maxam)
            if maxder is not None:
                cmd.append("-DSIMINT_MAXDER=%d" % maxder)
            if fortran:
                cmd.append("-DENABLE_FORTRAN=ON")
            cmd += list(cmake)
            rc, out = sh(cmd)
            if rc != 0:
                raise BuildError("configuring the library (%s, %s) failed" % (src, vec), out)
            tool = "ninja" if generator == "Ninja" else "make"
            rc, out = sh([tool, "-C", d, "-j", str(jobs or NCPU), "simint"])
            if rc != 0:
                rc, out = sh([tool, "-C", d, "-j", "2", "simint"])
            if rc == -999:
                raise RuntimeError("building the library (%s, %s) timed out" % (src, vec))
            if rc != 0:
                raise BuildError("building the library (%s, %s) failed" % (src, vec), out)
            _stamp(d)
    return Lib(src, d, ccname, cflags, link, name or vec)


_oracle_lock = threading.Lock()


def compile_obj(src, flags, cc, out):
    """Compile one of our own sources."""
    rc, log = sh([cc] + list(flags) + ["-c", src, "-o", out])
    if rc != 0:
        raise RuntimeError("compiling %s failed\n%s" % (src, log))
    return out


def compile_obj_user(src, flags, cc, out):
    """The same, where failing to compile is the fault of the tree under test."""
    rc, log = sh([cc] + list(flags) + ["-c", src, "-o", out])
    if rc != 0:
        raise BuildError("a program using the Fortran module does not compile", log)
    return out


def oracle_obj(cc="g++", flags=("-O2",)):
    srcs = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.startswith("oracle")]
    key = _hash_tree(srcs, cc + repr(flags))
    out = os.path.join(BUILD, "oracle-" + key + ".o")
    with _Lock(out):
        if not os.path.exists(out):
            compile_obj(os.path.join(SRC, "oracle.cpp"), ["-std=c++17", "-ffp-contract=off"] + list(flags), cc, out + ".tmp")
            os.rename(out + ".tmp", out)
    return out


def build_harness(lib, sources, extra=(), oracle=True, cxxflags=("-O1", "-g"), oflags=("-O2",)):
    """Compile harness sources (C++) against one library variant."""
    cxx = compilers(lib.cc)[1]
    hk = _hash_tree([os.path.join(SRC, s) for s in sorted(os.listdir(SRC)) if s != "arm"], repr((lib.build, sources, list(extra), oracle, list(cxxflags), list(oflags))))
    out = os.path.join(lib.build, "h-" + hk[:12])
    with _Lock(out):
        if os.path.exists(out):
            return out
        flags = ["-std=gnu++17", "-fopenmp-simd", "-Wno-ignored-attributes"] + list(cxxflags) + lib.inc + vec_flags_of(lib) + lib.link + list(extra)
        objs = []
        for s in sources:
            o = out + "-" + os.path.basename(s) + ".o"
            if s.endswith(".f90"):
                compile_obj_user(os.path.join(SRC, s), ["-cpp", "-ffree-line-length-none", "-I" + os.path.join(lib.build, "simint"), "-J" + os.path.join(lib.build),
                                                   "-DSIMINT_OSTEI_MAXDER=%d" % lib.maxder] + [f for f in cxxflags if f.startswith(("-O", "-g"))] + lib.link, "gfortran", o)
                objs += [o, "-lgfortran"]
                continue
            compile_obj(os.path.join(SRC, s), flags, cxx, o)
            objs.append(o)
        if oracle:
            # MSan needs an instrumented oracle
            if any("memory" in f for f in lib.link):
                objs.append(oracle_obj(cxx, tuple(oflags) + tuple(lib.link)))
            else:
                objs.append(oracle_obj("g++", tuple(oflags)))
        rc, log = sh([cxx] + lib.link + objs + [lib.a, "-lpthread"] + (["-lgfortran"] if "-lgfortran" in objs else []) + [ "-lquadmath" if cxx != "clang++" else "-lm", "-lmvec", "-lm", "-o", out + ".tmp"])
        if rc != 0:
            if "libsimint.a(" in log or re.search(r"undefined reference to .simint_(compute|create|init|final|eri|copy|free|allocate|fill|cat|normalize)", log):
                raise BuildError("a program cannot be linked with the library (%s, %s)" % (lib.src, getattr(lib, "vec", "")), log)
            raise RuntimeError("linking harness failed\n" + log)
        os.rename(out + ".tmp", out)
    return out


def vec_flags_of(lib):
    return vec_flags(lib.vec) if hasattr(lib, "vec") else []


def variant(l, vec, p=None, d=0, ve=0, vg=0, he=0, hg=0, cflags=("-O1",), cc="gcc", maxam=None, maxder=None, jobs=None, gendir=None, fortran=False, generator="Ninja", cmake=(), sparse=None):
    if sparse:
        src = create_sparse(l, sparse, d=d, ve=ve, vg=vg, he=he, hg=hg)
        p = 0
    else:
        src = create(l, p=p, d=d, ve=ve, vg=vg, he=he, hg=hg, gendir=gendir)
    lib = build_lib(src, vec, cflags=cflags, cc=cc, maxam=maxam, maxder=maxder, jobs=jobs, fortran=fortran, generator=generator, cmake=cmake)
    lib.vec = vec
    lib.maxder = d if maxder is None else maxder
    lib.desc = "l=%d p=%s d=%d ve=%d vg=%d he=%d hg=%d %s %s %s%s%s" % (
        l, l if p is None else p, d, ve, vg, he, hg, vec, cc, " ".join(cflags),
        "" if maxam is None else " MAXAM=%d" % maxam, "" if maxder is None else " MAXDER=%d" % maxder)
    if sparse:
        lib.link = lib.link + SPARSE_LINK
        lib.desc += " only " + " ".join("".join("spdfghik"[x] for x in q) for q in sparse)
    if cmake:
        lib.desc += " " + " ".join(cmake)
    if fortran:
        lib.desc += " Fortran, " + generator
    return lib


def pmap(fn, items, workers=NCPU):
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.viol = []
        self.evals = 0
        self.distinct = set()
        self.ndistinct = 0
        self.samples = []
        self.stats = {}
        self.assumptions = []
        self.rule = ""
        self.repdir = os.path.join(BUILD, "replay", pid)
        shutil.rmtree(self.repdir, ignore_errors=True)
        os.makedirs(self.repdir, exist_ok=True)
        self.lock = threading.Lock()
        self.known = []
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == pid:
                    self.known.append((m.group(2), m.group(3).strip()))
        self.known_hit = set()

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def violation(self, key, text, replay=""):
        """key identifies the failing input/site; listed keys are findings."""
        with self.lock:
            for k, t in self.known:
                if re.fullmatch(k, key):
                    if k not in self.known_hit:
                        self.known_hit.add(k)
                    return
            n = len(self.viol)
            path = os.path.join(self.repdir, "v%03d.txt" % n)
            if n < 40:
                with open(path, "w") as f:
                    f.write("property %s\nkey %s\nseed %d tier %s\n%s\n\n%s\n" % (self.pid, key, SEED, TIER, text, replay))
            if not self.viol:
                self.tviol = time.time()
            self.viol.append((key, text, path))
            if n < 8:
                self.log("violation:", key, text.splitlines()[0][:300] if text else "")

    def build_violation(self, key, e):
        self.violation(key, e.what, e.log[-6000:])

    def observe(self, evals=0, distinct=(), samples=(), **stats):
        with self.lock:
            self.evals += evals
            self.distinct.update(distinct)
            for s in samples:
                if len(self.samples) < 12:
                    self.samples.append(s)
            for k, v in stats.items():
                if isinstance(v, (int, float)) and k in self.stats:
                    if k.startswith("max_"):
                        self.stats[k] = max(self.stats[k], v)
                    else:
                        self.stats[k] += v
                else:
                    self.stats[k] = v

    def enough(self):
        """True when a verdict was reached a while ago, so that whatever still
        runs (it may hang for the same reason) is not waited for, or when the
        time allowed for a quick check is nearly used up."""
        now = time.time()
        return bool(self.viol) and now > self.tviol + 60 or TIER == "quick" and now > self.t0 + 840

    def run(self, cmd, what, timeout=600, env=None, retry_timeout=True):
        """Run a harness that prints JSON lines; feed them into this check.
        Returns the list of objects. Crashes and sanitizer reports of the
        harness are violations (the harness itself is exercised on clean
        trees); timeouts are retried once, then reported as hangs."""
        full_env = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:max_allocation_size_mb=8192",
                    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
                    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1",
                    "MSAN_OPTIONS": "exitcode=77", "OMP_NUM_THREADS": "1", "LC_ALL": "C"}
        full_env.update(env or {})
        if self.enough():
            self.observe(runs_cut_short=1)
            return []
        rc, out = sh(cmd, timeout=timeout, env=full_env, stop=self.enough)
        if rc == -999 and retry_timeout:
            rc, out = sh(cmd, timeout=timeout * (1 if TIER == "quick" else 2), env=full_env, stop=self.enough)
        for _ in range(5):
            # ASLR occasionally collides with TSan's shadow; nothing ran then
            if rc != 0 and "ThreadSanitizer: unexpected memory mapping" in out:
                rc, out = sh(cmd, timeout=timeout, env=full_env, stop=self.enough)
        if rc != 0 and "ThreadSanitizer: unexpected memory mapping" in out:
            raise RuntimeError("ThreadSanitizer cannot run here: " + out[-500:])
        objs = []
        done = False
        rest = []
        for line in out.splitlines():
            if line.startswith("@@"):
                try:
                    o = json.loads(line[2:])
                except ValueError:
                    rest.append(line)
                    continue
                objs.append(o)
                t = o.get("t")
                if t == "viol":
                    self.violation(o.get("key", "?"), "%s: %s" % (what, o.get("msg", "")), json.dumps(o) + "\ncommand: " + " ".join(cmd))
                elif t == "stat":
                    self.observe(evals=o.get("evals", 0), distinct=o.get("distinct", []), **o.get("stats", {}))
                elif t == "sample":
                    self.observe(samples=[{"variant": what, "case": o.get("s")}])
                elif t == "done":
                    done = True
            else:
                rest.append(line)
        tail = "\n".join(rest)
        if rc == -998:
            self.observe(runs_cut_short=1)
        elif rc == -999:
            self.violation("hang:" + crash_key(tail), "%s: did not terminate within its time limit" % what, " ".join(cmd) + "\n" + tail[-4000:])
        elif rc == 3:
            raise RuntimeError("harness error in %s: %s\n%s" % (what, " ".join(cmd), tail[-3000:]))
        elif rc != 0 or not done:
            self.violation("crash:" + crash_key(tail), "%s: harness ended with status %s%s\n%s" % (what, rc, "" if done else " before completing", summary_line(tail)),
                           " ".join(cmd) + "\n" + tail[-12000:])
        return objs

    def finish(self, min_evals=1):
        for k, t in self.known:
            if k in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        cov = {"evaluations": int(self.evals), "distinct_nontrivial": int(len(self.distinct) + self.ndistinct),
               "rule": self.rule, "samples": self.samples or ["(none)"]}
        cov.update(self.stats)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if self.viol:
            for key, text, path in self.viol[:10]:
                print("  %s: %s" % (key, text[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, self.viol[0][2]))
            sys.exit(1)
        if self.evals < min_evals:
            print("observed too little: %d < %d evaluations" % (self.evals, min_evals))
            sys.exit(2)
        self.log("held on %d evaluations (%d distinct)" % (self.evals, cov["distinct_nontrivial"]))
        sys.exit(0)


def summary_line(tail):
    for line in tail.splitlines():
        if "SUMMARY:" in line or "runtime error" in line or "WARNING: ThreadSanitizer" in line or "Assertion" in line:
            return line.strip()
    return tail[-300:]


def crash_key(tail):
    m = re.search(r"(\w+Sanitizer): ([\w-]+)", tail)
    kind = m.group(2) if m else ("ub" if "runtime error" in tail else "abnormal")
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([\w~:]+)", tail)
    fr = [f for f in fr if f.startswith(("simint", "ostei", "boys", "VRR", "HRR", "hrr", "vrr"))] or fr[:1]
    return kind + (":" + fr[0] if fr else "")


def main(fn, pid, level="exploration"):
    """Entry point of a check: anything unexpected in the machinery is an error
    (exit 2), never a verdict."""
    c = Check(pid, level)
    try:
        fn(c)
    except BuildError as e:
        # a configuration of the project that does not build computes nothing
        print("cannot build the tree under test: %s\n%s" % (e.what, e.log[-4000:]))
        c.build_violation("build", e)
        c.finish()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        if c.viol:
            # what was observed before remains observed
            c.finish()
        sys.exit(2)
    sys.exit(2)
