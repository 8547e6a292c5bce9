#!/opt/veriftools/pyvenv/bin/python
"""Compares the monitors' reference implementation (src/oracle.cpp) with the
textbook definition of the integrals evaluated by mpmath: the Gaussian
transform of 1/r, Wick's theorem for the Cartesian moments, quadrature over
the transform variable, numerical differentiation for the nuclear derivatives.
Shares no formula with the oracle (McMurchie-Davidson) or with the library
(Obara-Saika). Not a check: run by hand after changing the oracle."""
import functools, os, random, subprocess, sys
import mpmath as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mp.mp.dps = 34


def carts(l):
    return [(i, j, l - i - j) for i in range(l, -1, -1) for j in range(l - i, -1, -1)]


def wick(e, mean, cov):
    """E[prod y_k^e_k] for jointly normal y."""
    @functools.lru_cache(None)
    def f(t):
        for k in range(len(t)):
            if t[k]:
                r = list(t); r[k] -= 1
                v = mean[k] * f(tuple(r))
                for m in range(len(t)):
                    if r[m]:
                        q = list(r); q[m] -= 1
                        v += r[m] * cov[k][m] * f(tuple(q))
                return v
        return mp.mpf(1)
    return f(tuple(e))


def pair(a, A, b, B):
    p = a + b
    return p, [(a * x + b * y) / p for x, y in zip(A, B)], mp.exp(-a * b / p * sum((x - y) ** 2 for x, y in zip(A, B)))


def eri_prim(sh, comps):
    (a, A), (b, B), (c, C), (d, D) = sh
    p, P, Kab = pair(a, A, b, B)
    q, Q, Kcd = pair(c, C, d, D)
    rho = p * q / (p + q)

    def integrand(t):
        if t >= 1:
            t = 1 - mp.mpf(10) ** -30
        u2 = rho * t * t / (1 - t * t)
        det = p * q + u2 * (p + q)
        c11, c12, c22 = (q + u2) / det / 2, u2 / det / 2, (p + u2) / det / 2
        cov = [[c11, c11, c12, c12], [c11, c11, c12, c12], [c12, c12, c22, c22], [c12, c12, c22, c22]]
        r = mp.sqrt(rho) / (1 - t * t) ** mp.mpf('1.5')
        for x in range(3):
            m1 = ((q + u2) * p * P[x] + u2 * q * Q[x]) / det
            m2 = (u2 * p * P[x] + (p + u2) * q * Q[x]) / det
            mean = [m1 - A[x], m1 - B[x], m2 - C[x], m2 - D[x]]
            r *= mp.pi / mp.sqrt(det) * mp.exp(-p * q * u2 / det * (P[x] - Q[x]) ** 2) * wick([cc[x] for cc in comps], mean, cov)
        return r
    return 2 / mp.sqrt(mp.pi) * Kab * Kcd * mp.quad(integrand, [0, mp.mpf(1) / 2, 1])


def eri(shells, comps):
    v = mp.mpf(0)
    for a in shells[0][2]:
        for b in shells[1][2]:
            for c in shells[2][2]:
                for d in shells[3][2]:
                    v += a[1] * b[1] * c[1] * d[1] * eri_prim([(a[0], shells[0][1]), (b[0], shells[1][1]), (c[0], shells[2][1]), (d[0], shells[3][1])], comps)
    return v


def ovl1(a, A, b, B, i, j):
    p = a + b
    m = (a * A + b * B) / p
    c = 1 / (2 * p)
    return mp.sqrt(mp.pi / p) * mp.exp(-a * b / p * (A - B) ** 2) * wick((i, j), [m - A, m - B], [[c, c], [c, c]])


def one(kind, shells, comps, Z=None, R=None):
    v = mp.mpf(0)
    (i, j), A, B = comps, shells[0][1], shells[1][1]
    for a, ca in shells[0][2]:
        for b, cb in shells[1][2]:
            S = lambda x, dj=0: ovl1(a, A[x], b, B[x], i[x], j[x] + dj) if j[x] + dj >= 0 else mp.mpf(0)
            if kind == "ovl":
                w = S(0) * S(1) * S(2)
            elif kind == "ke":
                w = mp.mpf(0)
                for x in range(3):
                    t = -2 * b * b * S(x, 2) + b * (2 * j[x] + 1) * S(x) - mp.mpf(j[x] * (j[x] - 1)) / 2 * S(x, -2)
                    for y in range(3):
                        if y != x:
                            t *= S(y)
                    w += t
            else:
                p, P, K = pair(a, A, b, B)

                def f(t):
                    if t >= 1:
                        t = 1 - mp.mpf(10) ** -30
                    u2 = p * t * t / (1 - t * t)
                    r = mp.sqrt(p) / (1 - t * t) ** mp.mpf('1.5')
                    cc = 1 / (2 * (p + u2))
                    for x in range(3):
                        m = (p * P[x] + u2 * R[x]) / (p + u2)
                        r *= mp.sqrt(mp.pi / (p + u2)) * mp.exp(-p * u2 / (p + u2) * (P[x] - R[x]) ** 2) * wick((i[x], j[x]), [m - A[x], m - B[x]], [[cc, cc], [cc, cc]])
                    return r
                w = -Z * K * 2 / mp.sqrt(mp.pi) * mp.quad(f, [0, mp.mpf(1) / 2, 1])
            v += ca * cb * w
    return v


def main():
    rng = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
    exe = os.path.join(V, "build", "selftest")
    subprocess.check_call(["g++", "-O2", "-std=c++17", "-ffp-contract=off", os.path.join(V, "tools/selftest.cpp"), os.path.join(V, "src/oracle.cpp"), "-lquadmath", "-o", exe])

    def shell(lmax, np):
        return (rng.randint(0, lmax), [rng.uniform(-1.5, 1.5) for _ in range(3)],
                [(10 ** rng.uniform(-1, 1), rng.choice([-1, 1]) * rng.uniform(.3, 2)) for _ in range(rng.randint(1, np))])

    def enc(s):
        return " ".join([str(s[0]), str(len(s[2]))] + [repr(x) for x in s[1]] + ["%r %r" % t for t in s[2]])

    def hp(s):
        return (s[0], [mp.mpf(x) for x in s[1]], [(mp.mpf(a), mp.mpf(c)) for a, c in s[2]])
    jobs = []
    for k in range(10):
        jobs.append(("boys", [], (10 ** rng.uniform(-3, 2.5), 28)))
    for k in range(12):
        for kind in ("ovl", "ke", "pot"):
            jobs.append((kind, [shell(5, 3) for _ in range(2)], (rng.uniform(-5, 5), [rng.uniform(-2, 2) for _ in range(3)])))
    for k in range(8):
        jobs.append(("eri", [shell(3, 2) for _ in range(4)], None))
    for k in range(4):
        jobs.append(("deriv", [shell(2, 1) for _ in range(4)], None))
    text = ""
    for kind, s, x in jobs:
        if kind == "boys":
            text += "boys %r %d\n" % x
        else:
            text += kind + " " + ("%r %r %r %r " % tuple([x[0]] + x[1]) if kind == "pot" else "") + " ".join(enc(t) for t in s) + "\n"
    out = subprocess.run([exe], input=text, text=True, stdout=subprocess.PIPE, check=True).stdout.splitlines()
    worst = {}
    n = 0
    for (kind, s, x), line in zip(jobs, out):
        w = [float.fromhex(t) for t in line.split()]
        got = [mp.mpf(w[i]) + mp.mpf(w[i + 1]) for i in range(0, len(w), 2)]
        if kind == "boys":
            for m in range(x[1] + 1):
                X = mp.mpf(x[0])
                ref = mp.gammainc(m + mp.mpf(1) / 2, 0, X) / (2 * X ** (m + mp.mpf(1) / 2))
                worst[kind] = max(worst.get(kind, 0), abs(got[m] / ref - 1))
                n += 1
            continue
        h = [hp(t) for t in s]
        big = max(abs(g) for g in got)
        if kind in ("ovl", "ke", "pot"):
            al = [(i, j) for i in carts(s[0][0]) for j in carts(s[1][0])]
            pick = rng.sample(range(len(al)), min(6, len(al)))
            for k in pick:
                ref = one(kind, h, al[k], mp.mpf(x[0]) if kind == "pot" else None, [mp.mpf(t) for t in x[1]])
                worst[kind] = max(worst.get(kind, 0), abs(got[k] - ref) / big)
                n += 1
            continue
        al = [(i, j, k, l) for i in carts(s[0][0]) for j in carts(s[1][0]) for k in carts(s[2][0]) for l in carts(s[3][0])]
        for k in rng.sample(range(len(al)), min(2, len(al))):
            if kind == "eri":
                ref = eri(h, al[k])
                worst[kind] = max(worst.get(kind, 0), abs(got[k] - ref) / big)
                n += 1
                continue
            ce, xyz = rng.randrange(4), rng.randrange(3)

            def moved(t):
                hh = [(u[0], list(u[1]), u[2]) for u in h]
                hh[ce][1][xyz] += t
                return eri(hh, al[k])
            e = mp.mpf(10) ** -5
            ref = (8 * (moved(e) - moved(-e)) - (moved(2 * e) - moved(-2 * e))) / (12 * e)
            worst[kind] = max(worst.get(kind, 0), abs(got[12 * k + 3 * ce + xyz] - ref) / big)
            n += 1
    ok = True
    for k, v in worst.items():
        lim = 1e-17 if k != "deriv" else 1e-15
        ok &= v < lim
        print("%-6s largest deviation %s (limit %g)" % (k, mp.nstr(v, 3), lim))
    print("%d values compared: %s" % (n, "ok" if ok else "DISAGREE"))
    sys.exit(0 if ok else 1)


main()
