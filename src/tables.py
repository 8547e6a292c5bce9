"""Monitor of the scripts under python/ that write the tables compiled into the
library and the generator (run with python3-vt, which has mpmath).

Every script is run for many options; what it wrote is compiled, dumped from a
running program and judged against an independent computation. The committed
tables are dumped and judged the same way. For the grid of the Boys function,
the library's own evaluation is run on the regenerated grid, under ASan/UBSan,
for arguments up to the very end of the grid."""
import itertools, json, math, os, random, re, subprocess, sys

try:
    from mpmath import mp, mpf
except ImportError:
    print("mpmath is missing")
    sys.exit(3)

REPO, TMP, TIER, SEED = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
THOROUGH = TIER == "thorough"
R = random.Random(SEED)
PY = os.path.join(REPO, "python")
SKEL = os.path.join(REPO, "skel")
mp.dps = 60
AM = "spdfghiklmnoqrtuvwxyzabce"
evals, distinct, nviol = 0, set(), 0
maxrel = 0.0


def emit(o):
    print("@@" + json.dumps(o), flush=True)


def viol(key, msg):
    global nviol
    nviol += 1
    if nviol <= 200:
        emit({"t": "viol", "key": key, "msg": msg[:1500]})


def seen(n, what):
    global evals
    evals += n
    distinct.add(what)


def sh(cmd, cwd=None, stdin=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=700,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {})))
    return p.returncode, p.stdout


count = itertools.count()


def newdir(tag):
    d = os.path.join(TMP, "%s%d" % (tag, next(count)))
    os.makedirs(d)
    return d


def script(path, opts, outputs, key):
    """Run a script in a directory of its own; returns the directory or None."""
    d = newdir(os.path.basename(path).split(".")[0])
    rc, out = sh([sys.executable, os.path.join(PY, path)] + opts, cwd=d)
    what = "%s %s" % (path, " ".join(opts))
    if rc != 0:
        viol("script:" + key, "%s ended with status %d: %s" % (what, rc, " ".join(out.strip().splitlines()[-2:])))
        return None
    for o in outputs:
        if not os.path.isfile(os.path.join(d, o)):
            viol("script:" + key, "%s ended with status 0 but did not write %s" % (what, o))
            return None
    return d


def prog(d, text, key, what, cxx=False, flags=(), stdin=None, more=()):
    """Compile and run a program that dumps a table; returns its lines or None."""
    src = os.path.join(d, "dump." + ("cpp" if cxx else "c"))
    open(src, "w").write(text)
    rc, out = sh(["g++" if cxx else "gcc", "-O0", "-w"] + list(flags) + [src] + list(more) + ["-o", os.path.join(d, "dump"), "-lm"], cwd=d)
    if rc != 0:
        if "committed" in key or "evaluation" in what:
            # internal names and headers may change; that the library builds is observed elsewhere
            seen(0, "not observable: " + key)
            print("not observable: %s: %s" % (what, " ".join(out.strip().splitlines()[:4])))
        else:
            viol("compile:" + key, "%s: the table does not compile: %s" % (what, " ".join(out.strip().splitlines()[:4])))
        return None
    rc, out = sh([os.path.join(d, "dump")], cwd=d, stdin=stdin, env={"ASAN_OPTIONS": "detect_leaks=0"})
    if rc != 0:
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*)", out)
        viol("run:" + key, "%s: %s" % (what, m.group(1) if m else "status %d" % rc))
        return None
    return out.splitlines()


def close(v, ref, key, what, tol=5e-16):
    """v is a number as a double of the running program."""
    global maxrel
    r = mpf(ref)
    e = abs(mpf(v) - r) / abs(r) if r != 0 else abs(mpf(v))
    maxrel = max(maxrel, float(e))
    if not e <= tol:
        viol(key, "%s: %r instead of %s (relative error %.3g)" % (what, v, mp.nstr(r, 20), float(e)))
        return False
    return True


# ------------------------------------------------------------ Boys function
_F = {}


def boys(n, x):
    """F_n(x), by a confluent hypergeometric function."""
    k = (n, x)
    if k not in _F:
        _F[k] = mp.hyp1f1(n + mpf(1) / 2, n + mpf(3) / 2, -mpf(x)) / (2 * n + 1)
    return _F[k]


def grid_dump(d, inc, key, what):
    return prog(d, '#include "%s.c"\n#include "%s.h"\n#include <stdio.h>\nint main(void){int n=sizeof(boys_shortgrid)/sizeof(boys_shortgrid[0]),m=sizeof(boys_shortgrid[0])/sizeof(double);'
                'printf("%%d %%d %%d %%d %%.17g %%.17g %%.17g %%.17g\\n",n,m,BOYS_SHORTGRID_NPOINT,BOYS_SHORTGRID_MAXN,(double)BOYS_SHORTGRID_MAXX,(double)BOYS_SHORTGRID_SPACE,(double)BOYS_SHORTGRID_LOOKUPFAC,(double)BOYS_SHORTGRID_LOOKUPFAC2);'
                'for(int i=0;i<n;i++)for(int j=0;j<m;j++)printf("%%.17g\\n",boys_shortgrid[i][j]);return 0;}\n' % (inc, inc), key, what)


def judge_grid(lines, key, what, maxn=None, maxx=None, space=None):
    if lines is None:
        return None
    h = lines[0].split()
    n, m, npt, hn = map(int, h[:4])
    hx, hs, lf, lf2 = map(float, h[4:])
    if (n, m) != (npt, hn + 1):
        viol("size:" + key, "%s: table of %d x %d, but the header announces %d points and orders up to %d" % (what, n, m, npt, hn))
        return None
    if maxn is not None and hn != maxn:
        viol("size:" + key, "%s: highest order %d" % (what, hn))
    if maxx is not None:
        close(hx, maxx, "header:" + key, what + " end of the grid")
        close(hs, space, "header:" + key, what + " spacing")
        sp = mpf(space)
    else:
        sp = mpf(repr(hs))
    close(lf, 1 / sp, "header:" + key, what + " lookup factor")
    close(lf2, sp / 2, "header:" + key, what + " lookup offset")
    bad = 0
    for i in range(n):
        x = sp * i
        for j in range(m):
            v = float(lines[1 + i * m + j])
            if not close(v, boys(j, x), "value:" + key, "%s: F_%d(%s), row %d" % (what, j, mp.nstr(x, 8), i)):
                bad += 1
            if bad > 5:
                return None
    seen(n * m, "%s %dx%d" % (key, n, m))
    # the point next to any argument below the end has to be in the table
    last = int(lf * (math.nextafter(hx, 0) + lf2))
    if last >= n:
        viol("end:" + key, "%s: arguments just below %g use point %d, the table has %d" % (what, hx, last, n))
        return None
    return n, m, hx, float(sp)


VEC = "#pragma once\n#define SIMINT_SCALAR\n"


def eval_grid(d, base, size, key, what):
    """The library's evaluation with this grid."""
    n, m, hx, sp = size
    top = min(m - 1 - 7, 24)
    if top < 0:
        return
    inc = os.path.join(d, "inc", "simint")
    os.makedirs(os.path.join(inc, "boys"))
    os.makedirs(os.path.join(inc, "vectorization"))
    os.rename(os.path.join(d, base + ".h"), os.path.join(inc, "boys", "boys_shortgrid.h"))
    for v in ("vector_config.h",):
        open(os.path.join(inc, "vectorization", v), "w").write(VEC)
    # the headers are found next to the including file first: copy them
    for f in os.listdir(os.path.join(SKEL, "simint", "boys")):
        if f.endswith(".h") and f != "boys_shortgrid.h":
            open(os.path.join(inc, "boys", f), "w").write(open(os.path.join(SKEL, "simint", "boys", f)).read())
    xs = [0.0, math.nextafter(hx, 0), hx * (1 - 1e-9)]
    for i in sorted(set([0, 1, n // 2, n - 3, n - 2, n - 1])):
        for e in (-0.5 + 1e-9, -0.25, 0, 0.3, 0.5 - 1e-9):
            xs.append(sp * (i + e))
    xs += [R.uniform(0, hx) for _ in range(60 if THOROUGH else 12)]
    xs = [x for x in xs if 0 <= x < hx]
    orders = sorted(set([0, 1, 2, 3, 4, 5, top // 2, top]) & set(range(top + 1)))
    text = ('#include "simint/boys/boys.h"\n#include <stdio.h>\n'
            'int main(void){double x;int n;while(scanf("%lf %d",&x,&n)==2){SIMINT_DBLTYPE F[64];boys_F_split(F,SIMINT_DBLSET1(x),n);for(int i=0;i<=n;i++)printf("%.17g\\n",((double*)F)[i*SIMINT_SIMD_LEN]);}return 0;}\n')
    lines = prog(d, text, key, what + " (evaluation)", more=[os.path.join(d, base + ".c")], flags=["-std=gnu99", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DSIMINT_SCALAR", "-I" + os.path.join(d, "inc"), "-I" + SKEL],
                 stdin="".join("%.17g %d\n" % (x, o) for x in xs for o in orders))
    if lines is None:
        return
    if len(lines) != sum(o + 1 for o in orders) * len(xs):
        raise RuntimeError("%d lines instead of %d" % (len(lines), sum(o + 1 for o in orders) * len(xs)))
    k = 0
    for x in xs:
        for o in orders:
            def rel(q):
                lo = max(x - sp, 0)
                return (mpf(sp) / 2) ** 8 / 40320 * boys(q + 8, lo) / boys(q, x)
            t = max(rel(q) for q in (range(o + 1) if o < 4 else [o])) * mpf("1.02") + mpf("4e-14")
            for q in range(o + 1):
                v = float(lines[k])
                k += 1
                r = boys(q, x)
                if not abs(v - r) <= t * r:
                    viol("evaluate:" + key, "%s: F_%d(%.17g) evaluated with this grid: %r instead of %s" % (what, q, x, v, mp.nstr(r, 18)))
                    return
    seen(k, key + " evaluated")


def do_boys():
    d = newdir("committed")
    b = os.path.join(SKEL, "simint", "boys", "boys_shortgrid")
    sz = judge_grid(grid_dump(d, b, "committed:shortgrid", "committed Boys grid"), "committed:shortgrid", "committed Boys grid")
    cases = [(38, "36.5", "0.1", 40), (8, "4", "0.25", 256), (11, "3.27", "0.1", 50), (12, "5.02", "0.1", 50), (9, "2", "0.125", 30),
             (10, "6", "0.5", 50), (7, "1", "1", 50), (13, "7.3", "0.05", 50), (8, "0.3", "0.1", 50), (14, "2.5", "0.2", 50), (7, "0.04", "0.1", 50),
             (2, "1.5", "0.25", 50)]
    for _ in range(24 if THOROUGH else 5):
        sp = R.choice(["0.05", "0.1", "0.125", "0.0625", "0.2", "0.25", "0.3"])
        cases.append((R.randint(7, 30), "%.4g" % R.uniform(0.2, 8), sp, R.choice([30, 50, 100])))
    for n, x, sp, dps in cases:
        key = "shortgrid"
        o = ["--filename", "grid", "--max-n", str(n), "--max-x", x, "--spacing", sp, "--dps", str(dps)]
        what = "gen_boys_shortgrid.py " + " ".join(o[2:])
        d = script("boys/gen_boys_shortgrid.py", o, ["grid.c", "grid.h"], key)
        if d is None:
            continue
        sz = judge_grid(grid_dump(d, "grid", key, what), key, what, n, x, sp)
        if sz:
            eval_grid(d, "grid", sz, key, what)
    # long-range factors
    def longfac(d, inc, key, what, maxn=None):
        l = prog(d, '#include <stdio.h>\n#include "%s"\nint main(void){printf("%%d\\n",BOYS_LONGFAC_MAXN);for(int i=0;i<(int)(sizeof(boys_longfac)/sizeof(double));i++)printf("%%.17g\\n",boys_longfac[i]);return 0;}\n' % inc, key, what)
        if l is None:
            return
        if len(l) - 1 != int(l[0]) + 1 or (maxn is not None and int(l[0]) != maxn):
            viol("size:" + key, "%s: %d entries, highest order %s" % (what, len(l) - 1, l[0]))
        for i, v in enumerate(l[1:]):
            close(float(v), mp.gamma(i + mpf(1) / 2) / 2, "value:" + key, "%s: factor %d" % (what, i))
        seen(len(l) - 1, key + " %d" % len(l))
    longfac(newdir("committed"), os.path.join(SKEL, "simint", "boys", "boys_longfac.h"), "committed:longfac", "committed long-range factors")
    for n in [0, 1, 2, 31, 60, 100] + [R.randint(0, 90) for _ in range(6)]:
        o = ["--filename", "lf", "--max-n", str(n)] + R.choice([[], ["--dps", "50"]])
        d = script("boys/gen_boys_longfac.py", o, ["lf.h"], "longfac")
        if d:
            longfac(d, "lf.h", "longfac", "gen_boys_longfac.py " + " ".join(o[2:]), n)
    # cutoffs
    for n, sp, eps in [(0, "0.5", 6), (3, "0.25", 8), (5, "0.5", 10)] + ([(12, "0.1", 14)] if THOROUGH else []):
        o = ["--spacing", sp, "--max-n", str(n), "--eps", str(eps)]
        rc, out = sh([sys.executable, os.path.join(PY, "boys", "cutoff_finder.py")] + o)
        got = {int(m.group(1)): m.group(2) for m in re.finditer(r"^\s*(\d+)\s+([0-9.]+)\s*$", out, re.M)}
        if rc != 0 or sorted(got) != list(range(n + 1)):
            viol("script:cutoff", "cutoff_finder.py %s: status %d, cutoffs for %s" % (" ".join(o), rc, sorted(got)))
            continue
        for k, v in got.items():
            x, s = mpf(v), mpf(sp)
            def diff(y):
                return mp.gamma(k + mpf(1) / 2) / (2 * mp.power(y, k + mpf(1) / 2)) - boys(k, y)
            e = mp.power(10, -eps)
            if not diff(x) < e or (x > s and diff(x - s) < e):
                viol("value:cutoff", "cutoff_finder.py %s: the cutoff of order %d is not %s" % (" ".join(o), k, v))
        seen(n + 1, "cutoff %d %s %d" % (n, sp, eps))


# ---------------------------------------------------------- normalisation
def do_norm():
    def norm(d, inc, key, what, maxl=None):
        l = prog(d, '#include <stdio.h>\n#include "%s.c"\n#include "%s.h"\nint main(void){printf("%%d\\n",SHELL_PRIM_NORMFAC_MAXL);for(int i=0;i<(int)(sizeof(norm_fac)/sizeof(double));i++)printf("%%.17g\\n",norm_fac[i]);return 0;}\n' % (inc, inc), key, what)
        if l is None:
            return
        if len(l) - 1 != int(l[0]) + 1 or (maxl is not None and int(l[0]) != maxl):
            viol("size:" + key, "%s: %d entries, highest angular momentum %s" % (what, len(l) - 1, l[0]))
        for i, v in enumerate(l[1:]):
            # pi^(3/2) (2l-1)!!/2^l = pi gamma(l+1/2)
            close(float(v), mp.pi * mp.gamma(i + mpf(1) / 2), "value:" + key, "%s: angular momentum %d" % (what, i))
        seen(len(l) - 1, key + " %d" % len(l))
    norm(newdir("committed"), os.path.join(SKEL, "simint", "shell", "shell_constants"), "committed:norm", "committed normalisation constants")
    for n in [0, 1, 2, 20, 50] + [R.randint(0, 60) for _ in range(5)]:
        o = ["--filename", "sc", "--max-am", str(n)] + R.choice([[], ["--dps", "40"]])
        d = script("gen_shellconstants.py", o, ["sc.c", "sc.h"], "norm")
        if d:
            norm(d, "sc", "norm", "gen_shellconstants.py " + " ".join(o[2:]), n)


# ---------------------------------------------------------------- orders
def canon(l):
    return [(i, j, l - i - j) for i in range(l, -1, -1) for j in range(l - i, -1, -1)]


def do_order():
    def order(d, inc, key, what, maxl=None, exact=True):
        l = prog(d, '#include <cstdio>\n#include "%s"\nint main(){for(auto&k:gorder_map)for(auto&e:k.second)printf("o %%d %%d %%d %%d\\n",(int)k.first,e[0],e[1],e[2]);for(auto&k:gindex_map)for(auto&e:k.second)printf("i %%d %%d\\n",(int)k.first,e);return 0;}\n' % inc,
                 key, what, cxx=True, flags=["-std=c++11"])
        if l is None:
            return
        o, ix = {}, {}
        for s in l:
            w = s.split()
            if w[0] == "o":
                o.setdefault(int(w[1]), []).append(tuple(map(int, w[2:])))
            else:
                ix.setdefault(int(w[1]), []).append(int(w[2]))
        if maxl is not None and sorted(o) != list(range(maxl + 1)):
            viol("size:" + key, "%s: orders for angular momenta %s" % (what, sorted(o)))
        if sorted(o) != list(range(len(o))) or sorted(o) != sorted(ix):
            viol("size:" + key, "%s: angular momenta %s and %s" % (what, sorted(o), sorted(ix)))
            return
        for a in o:
            if (o[a] != canon(a)) if exact else (sorted(o[a]) != sorted(canon(a))):
                viol("value:" + key, "%s: order of angular momentum %d is wrong" % (what, a))
            if ix[a] != [i | j << 8 | k << 16 for i, j, k in o[a]]:
                viol("value:" + key, "%s: indices of angular momentum %d are wrong" % (what, a))
            seen(len(o[a]), key + " %d" % a)
    order(newdir("committed"), os.path.join(REPO, "generator", "Ordering_Psi4.cpp"), "committed:Ordering_Psi4", "committed Ordering_Psi4.cpp")
    order(newdir("committed"), os.path.join(REPO, "generator", "Ordering_GAMESS.cpp"), "committed:Ordering_GAMESS", "committed Ordering_GAMESS.cpp", exact=False)
    for n in sorted(set([0, 1, 2, 5, 24] + [R.randint(3, 30) for _ in range(6 if THOROUGH else 2)])):
        o = ["--filename", "ord.cpp", "--max-am", str(n)]
        d = script("gen_ordering.py", o, ["ord.cpp"], "ordering")
        if d:
            order(d, "ord.cpp", "ordering", "gen_ordering.py --max-am %d" % n, n)

    def recur(d, src, hdr, key, what, maxl=None):
        h = open(hdr).read()
        h = re.sub(r"recurinfo_array\s*\[\s*\d+\s*\]", "recurinfo_array[]", h)
        h = re.sub(r"am_recur_map\s*\[\s*\d+\s*\]", "am_recur_map[]", h)
        for sub in ("simint", "simint/ostei"):
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            open(os.path.join(d, sub, "recur_lookup.h"), "w").write(h)
        l = prog(d, '#include <stdio.h>\n#include "%s"\nint main(void){for(int i=0;i<(int)(sizeof(am_recur_map)/sizeof(int));i++)printf("m %%d\\n",am_recur_map[i]);'
                 'for(int i=0;i<(int)(sizeof(recurinfo_array)/sizeof(recurinfo_array[0]));i++){struct RecurInfo const*r=&recurinfo_array[i];printf("r %%d %%d %%d %%d",r->ijk[0],r->ijk[1],r->ijk[2],r->dir);for(int a=0;a<3;a++)for(int b=0;b<3;b++)printf(" %%d",r->idx[a][b]);printf("\\n");}return 0;}\n' % src,
                 key, what, flags=["-I" + d])
        if l is None:
            return
        m = [int(s.split()[1]) for s in l if s[0] == "m"]
        r = [tuple(map(int, s.split()[1:])) for s in l if s[0] == "r"]
        L = len(m) - 1
        if maxl is not None and L != maxl or len(r) != sum(len(canon(a)) for a in range(L + 1)):
            viol("size:" + key, "%s: %d angular momenta, %d entries" % (what, len(m), len(r)))
            return
        start = 0
        for a in range(L + 1):
            if m[a] != start:
                viol("value:" + key, "%s: angular momentum %d starts at %d" % (what, a, m[a]))
            c = canon(a)
            pos = {g: {e: i for i, e in enumerate(canon(g))} for g in range(max(a - 2, 0), a + 2)}
            for i, e in enumerate(c):
                row = r[start + i]
                want = []
                for x in range(3):
                    for step in (-1, -2, 1):
                        f = list(e)
                        f[x] += step
                        want.append(pos.get(a + step, {}).get(tuple(f), -1))
                if row[:3] != e or list(row[4:]) != want or (a > 0 and not (0 <= row[3] <= 2 and e[row[3]] > 0)):
                    viol("value:" + key, "%s: entry %s of angular momentum %d is %s" % (what, e, a, row))
                    return
            start += len(c)
            seen(len(c), key + " %d" % a)
    for s in ("simint", os.path.join("simint", "ostei")):
        p = os.path.join(SKEL, s, "recur_lookup.c")
        if os.path.exists(p):
            recur(newdir("committed"), p, os.path.join(SKEL, s, "recur_lookup.h"), "committed:" + s + "/recur_lookup", "committed %s/recur_lookup.c" % s)
    for n in sorted(set([0, 1, 2, 3, 18] + [R.randint(3, 24) for _ in range(5 if THOROUGH else 2)])):
        d = script("gen_recurinfo.py", ["--filename", "rl", "--max-am", str(n)], ["rl.c"], "recurinfo")
        if d:
            recur(d, "rl.c", os.path.join(SKEL, "simint", "recur_lookup.h"), "recurinfo", "gen_recurinfo.py --max-am %d" % n, n)


# ------------------------------------------------------- dispatch tables
def do_fill():
    def fill(d, src, l, der, key, what, only=None):
        """Compile with every routine name defined to its code."""
        inc = os.path.join(d, "i", "simint", "ostei")
        os.makedirs(os.path.join(inc, "gen"))
        names = "ostei_deriv%d" % der if der else "ostei"
        for built in sorted(set([l, max(l - 1, 0), 0] if only is None else only)):
            qs = list(itertools.product(range(l + 1), repeat=4))
            decl = "\n".join("void %s_%s(void);" % (names, "_".join(AM[x] for x in q)) for q in qs)
            cfg = "#pragma once\n#define SIMINT_OSTEI_MAXAM %d\n#define SIMINT_OSTEI_MAXDER %d\n#define SIMINT_OSTEI_DERIV1_MAXAM %d\n" % (built, der, built if der else -1)
            ost = "#pragma once\n#include \"simint/ostei/ostei_config.h\"\ntypedef void (*simint_osteifunc)(void);\n"
            for f, t in (("ostei_config.h", cfg), ("ostei.h", ost), ("ostei_init.h", "#pragma once\n"), ("gen/ostei_generated.h", decl if not der else ""), ("gen/ostei_deriv1_generated.h", decl if der else "")):
                open(os.path.join(inc, f), "w").write(t + "\n")
            n = built + 1
            call = "simint_%s_init();" % (names if der else "ostei")
            text = ('#include "%s"\n#include <stdio.h>\n#undef AMSIZE\n#undef DERSIZE\nsimint_osteifunc simint_osteifunc_array[%d][%d][%d][%d][%d];\n%s\nstruct nm{simint_osteifunc f;int q[4];}nm[]={%s};\n'
                    'int main(void){%s for(int D=0;D<%d;D++)for(int a=0;a<%d;a++)for(int b=0;b<%d;b++)for(int c=0;c<%d;c++)for(int e=0;e<%d;e++){simint_osteifunc f=simint_osteifunc_array[D][a][b][c][e];int k=-1;if(f)for(int i=0;i<(int)(sizeof(nm)/sizeof(nm[0]));i++)if(nm[i].f==f){k=i;break;}'
                    'printf("%%d %%d %%d %%d %%d ",D,a,b,c,e);if(k<0)printf("%%s\\n",f?"other":"none");else printf("%%d %%d %%d %%d\\n",nm[k].q[0],nm[k].q[1],nm[k].q[2],nm[k].q[3]);}return 0;}\n'
                    % (src, der + 1, n, n, n, n, "\n".join("void %s_%s(void){}" % (names, "_".join(AM[x] for x in q)) for q in qs if max(q) <= built),
                       ",".join("{%s_%s,{%d,%d,%d,%d}}" % ((names, "_".join(AM[x] for x in q)) + q) for q in qs if max(q) <= built), call, der + 1, n, n, n, n))
            o = prog(d, text, key, "%s, library of maximum angular momentum %d" % (what, built), flags=["-I" + os.path.join(d, "i"), "-fno-ipa-icf"])
            if o is None:
                return
            for s in o:
                w = s.split()
                q = tuple(map(int, w[1:5]))
                if int(w[0]) == der:
                    if w[5:] != [str(x) for x in q]:
                        viol("value:" + key, "%s, library of maximum angular momentum %d: class %s is computed by %s" % (what, built, "".join(AM[x] for x in q), " ".join(w[5:])))
                        return
                elif w[5] != "none":
                    viol("value:" + key, "%s fills derivative order %s" % (what, w[0]))
            seen(len(o), "%s %d %d %d" % (key, l, built, der))
    for n, der in [(0, 0), (0, 1), (1, 0), (2, 1), (4, 0), (5, 1)] + ([(7, 0), (7, 1), (9, 0)] if THOROUGH else []):
        d = script("gen_fill.py", ["-l", str(n), "-d", str(der), "fill.c"], ["fill.c"], "fill")
        if d:
            fill(d, "fill.c", n, der, "fill", "gen_fill.py -l %d -d %d" % (n, der))
    for der, f in ((0, "ostei_init.c"), (1, "ostei_deriv1_init.c")):
        p = os.path.join(SKEL, "simint", "ostei", f)
        if os.path.exists(p):
            fill(newdir("committed"), p, 7, der, "committed:" + f, "committed " + f, only=[0, 1, 3, 7] if THOROUGH else [2, 5, 7])


os.makedirs(TMP, exist_ok=True)
for f in (do_norm, do_order, do_fill, do_boys):
    f()
emit({"t": "stat", "evals": evals, "distinct": sorted(distinct), "stats": {"table_entries_judged": evals, "tables_dumped": next(count), "max_relative_error": maxrel}})
emit({"t": "sample", "s": "gen_boys_shortgrid.py --max-n 8 --max-x 4 --spacing 0.25, evaluated up to the last double below 4"})
emit({"t": "done"})
