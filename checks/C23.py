#!/usr/bin/env python3
"""C23: an installed library, used from another project."""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from runs import *

CONSUMER = """cmake_minimum_required(VERSION 3.5)
project(consumer C CXX)
find_package(simint %(version)s CONFIG REQUIRED COMPONENTS %(comp)s)
foreach(v FOUND VERSION INCLUDE_DIR INCLUDE_DIRS LIBRARY LIBRARIES VECTOR MAXAM MAXDER)
  message(STATUS "VAR ${v}=${simint_${v}}")
endforeach()
if(BUILD_PROGRAMS)
  set(CMAKE_CXX_STANDARD 17)
  add_executable(mon mon_eri.cpp)
  target_compile_options(mon PRIVATE -O0 -fopenmp-simd %(vflags)s)
  target_link_libraries(mon simint::simint ${ORACLE} m mvec)
  add_executable(plain plain.c)
  target_compile_options(plain PRIVATE -Wall -Wextra -Werror=implicit-function-declaration %(vflags)s)
  target_link_libraries(plain simint::simint m)
  # without the target, from the documented variables
  add_executable(plainvar plain.c)
  target_include_directories(plainvar PRIVATE ${simint_INCLUDE_DIRS})
  target_compile_options(plainvar PRIVATE %(vflags)s)
  target_link_libraries(plainvar ${simint_LIBRARIES} m)
endif()
"""

PLAIN = r"""#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "simint/simint.h"
int main(void)
{
    simint_init();
    struct simint_shell sh;
    simint_initialize_shell(&sh);
    simint_allocate_shell(1, &sh);
    sh.am = 0; sh.nprim = 1; sh.x = sh.y = sh.z = 0.25; sh.alpha[0] = 1.3; sh.coef[0] = 1.0;
    simint_normalize_shells(1, &sh);
    struct simint_multi_shellpair p;
    simint_initialize_multi_shellpair(&p);
    simint_create_multi_shellpair(1, &sh, 1, &sh, &p, 0);
    double * work = (double*)SIMINT_ALLOC(simint_ostei_workmem(0, SIMINT_OSTEI_MAXAM));
    double v = 0, s = 0;
    int n = simint_compute_eri(&p, &p, 0.0, work, &v);
    n += simint_compute_overlap(&sh, &sh, &s);
    printf("%d %d %d %.17g %.17g\n", n, SIMINT_OSTEI_MAXAM, SIMINT_OSTEI_MAXDER, v, s);
    SIMINT_FREE(work);
    simint_free_shell(&sh);
    simint_free_multi_shellpair(&p);
    simint_finalize();
    /* (ss|ss) of four identical functions: 2 sqrt(a/pi) */
    return !(n == 2 && fabs(v - 2*sqrt(1.3/acos(-1.0))) < 1e-13 && fabs(s - 1) < 1e-14);
}
"""
FORT = """program consumer
  use iso_c_binding
  use SimintFortran
  implicit none
  call simint_init()
  call simint_finalize()
  print *, 'fortran ok'
end program
"""


PUBLIC = ("simint.h", "simint_init.h", "simint_eri.h", "simint_oneelectron.h", "shell/shell.h", "shell/shell_screen.h", "boys/boys.h", "ostei/ostei.h",
          "osoei/osoei.h", "recur_lookup.h", "vectorization/vectorization.h")


def one(c, n, cfg):
    l, d, strat, vec, shared, maxam, maxder, extra, cc = cfg
    tag = "%s %s%s%s %s" % (vec, "shared" if shared else "static", "" if maxam is None else " MAXAM=%d" % maxam, "" if maxder is None else " MAXDER=%d" % maxder, " ".join(extra))
    src = vlib.create(l, d=d, **strat)
    am = l if maxam is None else maxam
    der = d if maxder is None else maxder
    top = os.path.join(vlib.BUILD, "inst-%d-%d" % (os.getpid(), n))
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    try:
        # the project is built from a copy that is gone when the consumer is built
        shutil.copytree(src, top + "/src")
        fort = "-DENABLE_FORTRAN=ON" in extra
        cmd = ["cmake", "-S", top + "/src", "-B", top + "/bld", "-G", "Unix Makefiles" if fort else "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
               "-DENABLE_TESTS=OFF", "-DSIMINT_VECTOR=" + vec, "-DSIMINT_C_FLAGS=-O0", "-DCMAKE_C_COMPILER=" + cc,
               "-DCMAKE_CXX_COMPILER=" + {"gcc": "g++", "clang": "clang++"}[cc], "-DCMAKE_INSTALL_PREFIX=" + top + "/first"]
        if shared is not None:
            cmd.append("-DBUILD_SHARED_LIBS=" + ("ON" if shared else "OFF"))
        if maxam is not None:
            cmd.append("-DSIMINT_MAXAM=%d" % maxam)
        if maxder is not None:
            cmd.append("-DSIMINT_MAXDER=%d" % maxder)
        for what, k in (("configure", cmd + list(extra)), ("build", ["cmake", "--build", top + "/bld", "-j", "4"]), ("install", ["cmake", "--install", top + "/bld"])):
            rc, out = vlib.sh(k)
            if rc == -999:
                raise RuntimeError(what + " timed out")
            if rc != 0:
                c.violation("%s:%s" % (what, vec), "%s failed for %s" % (what, tag), out[-6000:])
                return
        # the examples that were built along must run
        ex = [f for f in sorted(os.listdir(top + "/bld/examples")) if f.startswith("example") and os.access(top + "/bld/examples/" + f, os.X_OK) and not os.path.isdir(top + "/bld/examples/" + f)]
        outs = {}
        for f in ex:
            rc, out = vlib.sh([top + "/bld/examples/" + f], timeout=60)
            if am < 1:
                continue        # the examples need p functions
            c.observe(evals=1, examples_run=1, distinct=["example %s %s" % (f, vec)])
            if rc != 0 or re.search(r"\b(nan|inf)\b", out, re.I):
                c.violation("example:" + f, "%s (%s): status %s" % (f, tag, rc), out[-3000:])
            outs[f] = out
        with c.lock:
            c.exout = getattr(c, "exout", [])
            c.exout.append((tag, outs))
        if len(ex) < 3 + (der > 0) + fort:
            c.violation("examples", "%s: only %s were built" % (tag, ex))
        shutil.rmtree(top + "/src")
        shutil.rmtree(top + "/bld")
        inst = top + "/moved elsewhere"
        os.rename(top + "/first", inst)
        # find_package tells the truth
        os.makedirs(top + "/con")
        shutil.copy(os.path.join(vlib.SRC, "mon_eri.cpp"), top + "/con")
        for f in os.listdir(vlib.SRC):
            if f.endswith((".hpp", ".h")):
                shutil.copy(os.path.join(vlib.SRC, f), top + "/con")
        with open(top + "/con/plain.c", "w") as f:
            f.write(PLAIN)
        kind = "shared" if shared else "static"
        other = "static" if shared else "shared"
        vflags = " ".join(vlib.vec_flags(vec))

        def configure(name, version, comp, build):
            os.makedirs(top + "/c-" + name)
            with open(top + "/con/CMakeLists.txt", "w") as f:
                f.write(CONSUMER % dict(version=version, comp=comp, vflags=vflags))
            rc, out = vlib.sh(["cmake", "-S", top + "/con", "-B", top + "/c-" + name, "-DCMAKE_PREFIX_PATH=" + inst, "-DCMAKE_FIND_USE_PACKAGE_REGISTRY=OFF",
                               "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_CXX_COMPILER=" + {"gcc": "g++", "clang": "clang++"}[cc],
                               "-DORACLE=" + vlib.oracle_obj(), "-DBUILD_PROGRAMS=" + ("ON" if build else "OFF")])
            return rc, out
        for k, (version, comp, want) in enumerate([("", kind, True), ("0.8", "am%d der%d" % (am, der), True), ("0.7", "%s am0 der0" % kind, True),
                                                   ("", "am%d" % (am + 1), False), ("", "der%d" % (der + 1), False), ("", "am10", False), ("", other, False), ("", "bogus", False),
                                                   ("9.0", kind, False)]):
            rc, out = configure("q%d" % k, version, comp, False)
            c.observe(evals=1, package_requests=1, distinct=["find_package %s %s %s" % (version, comp, kind)])
            if (rc == 0) != want:
                c.violation("find_package:%s_%s" % (version, comp.replace(" ", "_")), "%s: find_package(simint %s COMPONENTS %s) %s" % (tag, version, comp, "refused" if want else "accepted"), out[-3000:])
        rc, out = configure("build", "", "%s am%d der%d" % (kind, am, der), True)
        if rc != 0:
            c.violation("consumer-configure", "%s: a project using the installation cannot be configured" % tag, out[-3000:])
            return
        var = dict(re.findall(r"VAR (\w+)=(.*)", out))
        expect = dict(FOUND="1", VERSION="0.8", VECTOR=vec.lower(), MAXAM=str(am), MAXDER=str(der))
        for k in expect:
            c.observe(evals=1, package_variables=1)
            if var.get(k, "").strip().upper() != expect[k].upper() and not (k == "FOUND" and var.get(k)) and not (k == "VERSION" and var.get(k, "").startswith("0.")):
                c.violation("variable:" + k, "%s: simint_%s is '%s', expected '%s'" % (tag, k, var.get(k), expect[k]), out[-3000:])
        for k in ("INCLUDE_DIR", "INCLUDE_DIRS", "LIBRARY", "LIBRARIES"):
            if not os.path.exists(var.get(k, "")) or not os.path.realpath(var[k]).startswith(os.path.realpath(inst)):
                c.violation("variable:" + k, "%s: simint_%s='%s' is not inside the moved installation" % (tag, k, var.get(k)), out[-3000:])
        rc, out = vlib.sh(["cmake", "--build", top + "/c-build", "-j", "4"])
        if rc != 0:
            c.violation("consumer-build", "%s: a project using the installation does not build" % tag, out[-6000:])
            return
        # every public header is there and is usable on its own
        for h in PUBLIC:
            if not os.path.exists(os.path.join(vlib.REPO, "skel", "simint", h)):
                continue        # the project has no such header
            for suffix, comp, std in ((".c", cc, "-std=gnu99"), (".cpp", {"gcc": "g++", "clang": "clang++"}[cc], "-std=gnu++17")):
                f = top + "/con/header" + suffix
                with open(f, "w") as fh:
                    fh.write('#include "simint/%s"\nint main(void) { return 0; }\n' % h)
                rc, out = vlib.sh([comp, std, "-w", "-I" + var.get("INCLUDE_DIR", "")] + vlib.vec_flags(vec) + ["-c", f, "-o", top + "/con/header.o"])
                c.observe(evals=1, headers_compiled=1)
                if rc != 0:
                    c.violation("header:" + h, "%s: a %s program that includes only simint/%s does not compile" % (tag, "C" if suffix == ".c" else "C++", h), out[-3000:])
                    break
        libdir = os.path.dirname(var.get("LIBRARY", ""))
        env = {"LD_LIBRARY_PATH": libdir}
        for prog in ("plain", "plainvar"):
            rc, out = vlib.sh([top + "/c-build/" + prog], timeout=60, env=env)
            c.observe(evals=1, consumers_run=1)
            f = out.split()
            if rc != 0 or len(f) < 3 or f[1] != str(am) or f[2] != str(der):
                c.violation("consumer-result", "%s: %s ended with status %s: %s" % (tag, prog, rc, out[:300]), out)
        for mode in ["avail", "eri"] + (["deriv"] if der > 0 else []):
            c.run([top + "/c-build/mon", mode, "--seed", str(SEED * 31 + n), "--cases", "1", "--budget", "20"], "%s with installed %s" % (mode, tag), 250, env)
        if fort:
            with open(top + "/con/f.f90", "w") as f:
                f.write(FORT)
            mods = [r for r, _, fs in os.walk(inst) if "simintfortran.mod" in fs]
            if not mods:
                c.violation("fortran-module", "%s: the Fortran module is not installed" % tag)
            else:
                rc, out = vlib.sh(["gfortran", "-I" + mods[0], "-J" + top, top + "/con/f.f90", "-o", top + "/con/f", var.get("LIBRARY", ""), "-lm"])
                rc2, out2 = vlib.sh([top + "/con/f"], env=env) if rc == 0 else (1, "")
                c.observe(evals=1, consumers_run=1)
                if rc != 0 or rc2 != 0 or "fortran ok" not in out2:
                    c.violation("fortran-consumer", "%s: a Fortran program using the installation fails" % tag, out[-3000:] + out2[-2000:])
        c.observe(installations=1)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def numbers(t):
    t = re.sub(r"workmem returns \d+", "", t)      # depends on the vector length
    return [float(x) for x in re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?(?![\w.])", t)]


def check(c):
    c.rule = "distinct example programs, find_package requests and (class, geometry, exponents) combinations computed through installations"
    c.assumptions = ["consumers add the compiler's vector flags and libm themselves, as the package does not export them",
                     "CMake packages only (the project has no pkg-config file)"]
    avx512 = have_avx512()
    cfgs = [
        (2, 1, GEN, "avx2", True, None, None, (), "gcc"),
        (2, 1, GEN, "sse", False, 1, 0, (), "clang"),
        (2, 1, GEN, "scalar", None, 2, 1, ("-DENABLE_FORTRAN=ON",), "gcc"),
        (1, 1, EXT, "avx", True, None, None, ("-DSIMINT_STANDALONE=True", "-DENABLE_FORTRAN=ON"), "gcc"),
        (1, 0, MIX, "scalar-avx2", False, None, None, ("-DCMAKE_INSTALL_LIBDIR=lib/deep", "-DCMAKE_INSTALL_INCLUDEDIR=inc"), "gcc"),
        (1, 1, INL, "avx512" if avx512 else "avx2", True, 1, 0, (), "gcc"),
        (1, 0, GEN, "sse", True, 0, None, (), "clang"),
    ]
    if THOROUGH:
        for k, v in enumerate(allvecs()):
            for sh in (True, False, None):
                for cc in ("gcc", "clang"):
                    st = [GEN, EXT, MIX][(k + SEED) % 3]
                    cfgs.append((2, 1, st, v, sh, None, None, ("-DENABLE_FORTRAN=ON",) if cc == "gcc" and sh is not None else (), cc))
                    cfgs.append((2, 1, GEN, v, sh, (k + SEED) % 3, (k + SEED) % 2, (), cc))
    pre = sorted(set((x[0], x[1], tuple(sorted(x[2].items()))) for x in cfgs))
    vlib.oracle_obj()
    for l, d, s in pre:
        vlib.create(l, d=d, **dict(s))
    vlib.pmap(lambda t: one(c, *t), list(enumerate(cfgs)), 4)
    # the examples print the same everywhere
    first = {}
    for tag, outs in getattr(c, "exout", []):
        for f, o in outs.items():
            v = numbers(o)
            first.setdefault(f.replace("_f90", ""), (tag, v))
            tag0, v0 = first[f.replace("_f90", "")]
            if "f90" in f:
                continue        # prints in another format
            c.observe(evals=len(v), example_numbers_compared=len(v))
            if len(v) != len(v0) or any(abs(a - b) > 1e-8 * max(1, abs(a)) for a, b in zip(v, v0)):
                c.violation("example-output:" + f, "%s prints different numbers with %s and with %s" % (f, tag, tag0), o[:2000])
    c.finish(5000)


vlib.main(check, "C23")
