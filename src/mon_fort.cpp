// C17: the same calls through the Fortran module and through C.
#include "gen.hpp"
#include "guard.hpp"

extern "C" {
void f_sizes(int *);
void f_init(void);
void f_finalize(void);
void f_work(int, int, long long *);
void f_read_shell(const simint_shell *, long long *, double *, int *);
void f_read_pair(const simint_multi_shellpair *, int ntot, int deriv, long long *, int *, double *, int *);
void f_build(int n1, int am1, const int * np1, const double * xyz1, const double * al1, const double * co1,
             int n2, int am2, const int * np2, const double * xyz2, const double * al2, const double * co2,
             int how, int norm, int list, int screen, simint_shell * A, simint_shell * B, simint_multi_shellpair * P);
void f_free(int n1, simint_shell * A, int n2, simint_shell * B, simint_multi_shellpair * P);
int f_eri(int deriv, const simint_multi_shellpair * P, const simint_multi_shellpair * Q, double tol, double * work, double * out);
int f_eri_own(int deriv, int mx, int first, const simint_multi_shellpair * P, const simint_multi_shellpair * Q, double tol, double * out);
int f_oe(int what, int n, const double *, const double *, const double *, const double *, simint_shell * A, simint_shell * B, double * out);
}

static Report R;
static Opts O;

// C's view of the same fields, in the same order
static void read_shell(const simint_shell & g, std::vector<long long> & i, std::vector<double> & d)
{
    i = {g.am, g.nprim, (long long)g.memsize};
    d = {g.x, g.y, g.z};
    d.insert(d.end(), g.alpha, g.alpha+g.nprim);
    d.insert(d.end(), g.coef, g.coef+g.nprim);
}
static int padded(const simint_multi_shellpair & P)
{
    int n = 0;
    for(int s = 0; s < P.nshell12; s++)
    {
        n += P.nprim12[s];
        if((s+1) % SIMINT_NSHELL_SIMD == 0 || s+1 == P.nshell12) n = SIMINT_SIMD_ROUND(n);
    }
    return n;
}
static void read_pair(const simint_multi_shellpair & P, std::vector<long long> & i, std::vector<double> & d)
{
    i = {P.am1, P.am2, P.nprim, P.nshell12, P.nshell12_clip, (long long)P.memsize};
    i.insert(i.end(), P.nprim12, P.nprim12+P.nshell12);
    d.clear();
    const int n = padded(P), s = P.nshell12;
    auto add = [&](const double * p, int k) { d.insert(d.end(), p, p+k); };
    add(P.AB_x, s); add(P.AB_y, s); add(P.AB_z, s);
    for(const double * p : {P.x,P.y,P.z,P.PA_x,P.PA_y,P.PA_z,P.PB_x,P.PB_y,P.PB_z,P.alpha}) add(p, n);
#if SIMINT_OSTEI_MAXDER > 0
    add(P.alpha2, n); add(P.beta2, n);
#endif
    add(P.prefac, n);
    if(P.screen) add(P.screen, n);
    d.push_back(P.screen_max);
}

static bool same(const std::vector<double> & a, const std::vector<double> & b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), 8*a.size()); }

struct Side
{
    std::vector<OShell> s1, s2;     // data
    int l1, l2, list, screen, how, norm;
    // Fortran's objects and C's
    std::vector<simint_shell> fA, fB, cA, cB;
    simint_multi_shellpair fP, cP;
    std::vector<std::pair<int,int>> idx;
    std::string desc() const
    {
        std::string s = strf("how %d norm %d list %d screen %d ", how, norm, list, screen);
        for(auto & x : s1) s += show(x);
        s += " | ";
        for(auto & x : s2) s += show(x);
        return s;
    }
};

static void flat(const std::vector<OShell> & s, std::vector<int> & np, std::vector<double> & xyz, std::vector<double> & al, std::vector<double> & co)
{
    for(auto & o : s)
    {
        const bool zero = o.alpha[0] == 0;
        np.push_back(zero ? 0 : o.nprim());
        xyz.push_back(o.x); xyz.push_back(o.y); xyz.push_back(o.z);
        if(zero) continue;
        al.insert(al.end(), o.alpha.begin(), o.alpha.end());
        co.insert(co.end(), o.coef.begin(), o.coef.end());
    }
}

static void gen_side(Rng & r, Side & S, int l1, int l2)
{
    S.l1 = l1; S.l2 = l2;
    S.list = r.i(2); S.screen = r.i(3); S.how = r.i(4); S.norm = r.p(0.3);
    const int n1 = S.list ? r.i(1,3) : r.i(1, SIMINT_NSHELL_SIMD+1), n2 = S.list ? r.i(1,3) : n1;
    auto mk = [&](int l)
    {
        Centers C = gen_centers(r, r.i(GEO_TARGET));
        OShell s; s.am = l; s.x = C.c[0][0]; s.y = C.c[0][1]; s.z = C.c[0][2];
        gen_prims(r, s, r.i(1,3), r.i(2));
        for(double & c : s.coef) if(c == 0) c = 0.5;
        return s;
    };
    for(int i = 0; i < n1; i++) S.s1.push_back(mk(l1));
    for(int i = 0; i < n2; i++) S.s2.push_back(mk(l2));
    if(l2 == 0 && !S.norm && r.p(0.2)) zero_oshell(S.s2[r.i(n2)]);
    if(S.list) { for(int i = 0; i < n1; i++) for(int j = 0; j < n2; j++) S.idx.push_back({i,j}); }
    else for(int i = 0; i < n1; i++) S.idx.push_back({i,i});
    // Fortran
    simint_shell gs; memset(&gs, 0xCD, sizeof(gs));
    S.fA.assign(n1, gs); S.fB.assign(n2, gs);
    memset(&S.fP, 0xCD, sizeof(S.fP));
    std::vector<int> np1, np2; std::vector<double> x1, x2, a1, a2, c1, c2;
    flat(S.s1, np1, x1, a1, c1); flat(S.s2, np2, x2, a2, c2);
    a1.push_back(0); a2.push_back(0); c1.push_back(0); c2.push_back(0);
    f_build(n1, l1, np1.data(), x1.data(), a1.data(), c1.data(), n2, l2, np2.data(), x2.data(), a2.data(), c2.data(), S.how, S.norm, S.list, S.screen, S.fA.data(), S.fB.data(), &S.fP);
    // C
    auto cmk = [&](const OShell & o)
    {
        if(o.alpha[0] != 0) return mkshell(o);
        simint_shell z; simint_initialize_shell(&z); simint_create_zero_shell(&z); return z;
    };
    for(auto & o : S.s1) S.cA.push_back(cmk(o));
    for(auto & o : S.s2) S.cB.push_back(cmk(o));
    if(S.norm) { simint_normalize_shells(n1, S.cA.data()); simint_normalize_shells(n2, S.cB.data()); }
    simint_initialize_multi_shellpair(&S.cP);
    if(S.list) simint_create_multi_shellpair(n1, S.cA.data(), n2, S.cB.data(), &S.cP, S.screen);
    else
    {
        std::vector<simint_shell> ab;
        for(int i = 0; i < n1; i++) { ab.push_back(S.cA[i]); ab.push_back(S.cB[i]); }
        simint_create_multi_shellpair2(n1, ab.data(), &S.cP, S.screen);
    }
}

static void check_side(Side & S)
{
    std::vector<long long> ci, fi, xi;
    std::vector<double> cd, fd, xd;
    for(int side = 0; side < 2; side++)
    {
        auto & F = side ? S.fB : S.fA; auto & C = side ? S.cB : S.cA;
        for(size_t k = 0; k < F.size(); k++)
        {
            R.evals++;
            read_shell(C[k], ci, cd);
            read_shell(F[k], xi, xd);
            fi.assign(16, -77); fd.assign(cd.size()+64, NAN);
            int nr = 0;
            f_read_shell(&C[k], fi.data(), fd.data(), &nr);     // a C object read by Fortran
            fi.resize(3); fd.resize(nr);
            xi[2] = ci[2]; // a re-created shell may keep a larger block
            if(xi != ci || !same(xd, cd)) R.viol("shell:contents", "shell %zu made through Fortran differs from the one made in C; %s", k, S.desc().c_str());
            if(fi != ci || !same(fd, cd)) R.viol("shell:fields", "Fortran reads other values from a C shell (am %lld nprim %lld memsize %lld); %s", fi[0], fi[1], fi[2], S.desc().c_str());
            R.add("shells");
        }
    }
    read_pair(S.cP, ci, cd);
    for(int k = 0; k < 2; k++)
    {
        simint_multi_shellpair & P = k ? S.fP : S.cP;
        fi.assign(64+2*P.nshell12, -77); fd.assign(cd.size()*2+64, NAN);
        int ni = 0, nr = 0;
        f_read_pair(&P, padded(S.cP), SIMINT_OSTEI_MAXDER, fi.data(), &ni, fd.data(), &nr);
        fi.resize(ni); fd.resize(nr);
        R.evals++;
        R.add("pair_objects");
        if(fi != ci || !same(fd, cd))
        {
            size_t q = 0; while(q < fd.size() && q < cd.size() && !memcmp(&fd[q], &cd[q], 8)) q++;
            R.viol(k ? "pair:fortran" : "pair:fields", "Fortran's view of the %s object differs from C's (value %zu of %zu/%zu: %.17g, %.17g); %s", k ? "Fortran" : "C", q, fd.size(), cd.size(), q < fd.size() ? fd[q] : 0.0, q < cd.size() ? cd[q] : 0.0, S.desc().c_str());
        }
    }
}

int main(int argc, char ** argv)
{
    O = parse(argc, argv);
    Rng r0(mix(O.seed, 91000+O.shard));
    if(r0.p(0.5)) f_init(); else simint_init();
    f_init();
    int sz[2];
    f_sizes(sz);
    if(sz[0] != (int)sizeof(simint_shell)) R.viol("size:shell", "the shell type has %d bytes in Fortran, %zu in C", sz[0], sizeof(simint_shell));
    if(sz[1] != (int)sizeof(simint_multi_shellpair)) R.viol("size:pair", "the shell pair type has %d bytes in Fortran, %zu in C", sz[1], sizeof(simint_multi_shellpair));
    if(R.nviol) return R.done();
    for(int d = 0; d <= SIMINT_OSTEI_MAXDER; d++) for(int l = 0; l <= (d ? SIMINT_OSTEI_DERIV1_MAXAM : SIMINT_OSTEI_MAXAM); l++)
    {
        long long w[2] = {-1,-1};
        f_work(d, l, w);
        R.evals++;
        if(w[0] != (long long)simint_eri_worksize(d, l) || w[1] != (long long)simint_eri_workmem(d, l))
            R.viol("worksize", "order %d am %d: Fortran %lld %lld, C %zu %zu", d, l, w[0], w[1], simint_eri_worksize(d, l), simint_eri_workmem(d, l));
    }
    const int L = SIMINT_OSTEI_MAXAM;
    for(int cs = 0; cs < O.cases; cs++)
    {
        Rng r(mix(O.seed, 92000+O.shard*1000003ull+cs));
        const int am[4] = {r.i(0,L), r.i(0,L), r.i(0,L), r.i(0,L)};
        Side P, Q;
        gen_side(r, P, am[0], am[1]); gen_side(r, Q, am[2], am[3]);
        check_side(P); check_side(Q);
        const int mx = maxam4(am[0],am[1],am[2],am[3]);
        for(int dv = 0; dv <= SIMINT_OSTEI_MAXDER; dv++)
        {
            if(dv && mx > SIMINT_OSTEI_DERIV1_MAXAM) continue;
            const double tol = (P.screen && Q.screen && r.p(0.5)) ? (r.p(0.5) ? 1e-6 : 1e3) : 0.0;
            const size_t n = (size_t)ncart(am[0])*ncart(am[1])*ncart(am[2])*ncart(am[3])*(dv ? 12 : 1)*P.idx.size()*Q.idx.size();
            Guarded w(simint_eri_worksize(dv, mx)), o[5] = {Guarded(n, 7.0), Guarded(n, 7.0), Guarded(n, 7.0), Guarded(n, 7.0), Guarded(n, 7.0)};
            int ret[5];
            ret[0] = dv ? simint_compute_eri_deriv(dv, &P.cP, &Q.cP, tol, w.p(), o[0].p()) : simint_compute_eri(&P.cP, &Q.cP, tol, w.p(), o[0].p());
            ret[1] = f_eri(dv, &P.fP, &Q.fP, tol, w.p(), o[1].p());
            ret[4] = f_eri_own(dv, mx, r.i(1,9), &P.fP, &Q.fP, tol, o[4].p());
            // exchanged objects
            ret[2] = f_eri(dv, &P.cP, &Q.fP, tol, w.p(), o[2].p());
            ret[3] = dv ? simint_compute_eri_deriv(dv, &P.fP, &Q.cP, tol, w.p(), o[3].p()) : simint_compute_eri(&P.fP, &Q.cP, tol, w.p(), o[3].p());
            R.evals++;
            R.distinct.insert(strf("%d%d%d%d/%d/how%d%d", am[0],am[1],am[2],am[3], dv, P.how, Q.how));
            static const char * W[] = {"C", "Fortran", "Fortran with a C object", "C with a Fortran object", "Fortran with a workspace of its own"};
            for(int k = 1; k < 5; k++)
                if(ret[k] != ret[0] || memcmp(o[k].p(), o[0].p(), 8*n) || o[k].damaged() != Guarded::LONG_MIN_)
                    R.viol(strf("eri:%d:%d", dv, k), "%s gives other integrals of (%d%d|%d%d) order %d than C (returned %d, %d); %s; %s", W[k], am[0],am[1],am[2],am[3], dv, ret[k], ret[0], P.desc().c_str(), Q.desc().c_str());
            R.add(ret[0] < 0 ? "calls_screened_out" : "integral_calls", 5);
        }
        // one-electron integrals
        double Z[3] = {1, r.u(0,20), 3}, x[3] = {r.u(-2,2), r.u(-2,2), 0}, y[3] = {r.u(-2,2), r.u(-2,2), 1}, z[3] = {r.u(-2,2), r.u(-2,2), 2};
        auto & B = r.p(0.5) ? Q.s1 : P.s1;
        auto & fB = &B == &Q.s1 ? Q.fA : P.fA; auto & cB = &B == &Q.s1 ? Q.cA : P.cA;
        const int nq = r.i(0,3);
        for(int what = 0; what < 3; what++)
        {
            const size_t n = (size_t)ncart(P.cA[0].am)*ncart(cB[0].am);
            Guarded o1(n, 7.0), o2(n, 7.0);
            const int r1 = what == 0 ? simint_compute_overlap(&P.cA[0], &cB[0], o1.p()) : what == 1 ? simint_compute_ke(&P.cA[0], &cB[0], o1.p()) : simint_compute_potential(nq, Z, x, y, z, &P.cA[0], &cB[0], o1.p());
            const int r2 = f_oe(what, nq, Z, x, y, z, &P.fA[0], &fB[0], o2.p());
            R.evals++;
            if(r1 != r2 || memcmp(o1.p(), o2.p(), 8*n) || o2.damaged() != Guarded::LONG_MIN_) R.viol(strf("oneelectron:%d", what), "one-electron integrals (%d) differ: returned %d and %d, first element %.17g and %.17g", what, r1, r2, o1[0], o2[0]);
            R.add("one_electron_calls");
        }
        for(Side * S : {&P, &Q})
        {
            f_free((int)S->fA.size(), S->fA.data(), (int)S->fB.size(), S->fB.data(), &S->fP);
            if(S->fA[0].ptr || S->fB[0].ptr || S->fP.ptr) R.viol("free", "objects freed through Fortran still hold memory");
            simint_free_shells((int)S->cA.size(), S->cA.data()); simint_free_shells((int)S->cB.size(), S->cB.data());
            simint_free_multi_shellpair(&S->cP);
        }
        if(r.p(0.05)) { f_finalize(); f_init(); }
        R.sample("(%d%d|%d%d): shells, pairs, integrals through Fortran, C and mixed agree; %s", am[0],am[1],am[2],am[3], P.desc().substr(0,300).c_str());
    }
    f_finalize();
    return R.done();
}
