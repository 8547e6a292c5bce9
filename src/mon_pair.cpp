// Monitors for shells and shell pairs: contents (C20), lifecycle histories
// (C08), normalisation (C16), init/finalize histories (C18), tables (C22).
#include "gen.hpp"
#include "guard.hpp"
#include "simint/shell/shell_screen.h"
#include "simint/shell/shell_constants.h"
#include "simint/recur_lookup.h"
#include <malloc.h>

static Report R;
static Opts O;

// ---------------------------------------------------------------- model
struct MPair { OShell a, b; bool same; };      // one shell pair
struct MPrim { double al, x[3], pa[3], pb[3], pre, a2, b2, scr, scrs; double xs, xe; };

static double prim_est(const OShell & a, int i, const OShell & b, int j, int method, double * slack)
{
    *slack = 0;
    if(method == SIMINT_SCREEN_SCHWARZ)
    {
        double sc;
        const double d = o_prim_diag(a,i,b,j,&sc);
        *slack = 200*DBL_EPSILON*sc;
        return d;
    }
    const double p = a.alpha[i]+b.alpha[j], rho = a.alpha[i]*b.alpha[j]/p;
    const double R2 = (a.x-b.x)*(a.x-b.x)+(a.y-b.y)*(a.y-b.y)+(a.z-b.z)*(a.z-b.z);
    const double g = std::sqrt(2.0)*std::pow(3.14159265358979323846, 2.5)*std::pow(1/p, 2.5)*std::exp(-2*rho*R2);
    const double v = g*a.coef[i]*a.coef[i]*b.coef[j]*b.coef[j];
    *slack = (100 + 10*2*rho*R2)*DBL_EPSILON*v + 1e-290;
    return v;
}

static std::vector<MPrim> model(const MPair & m, int method)
{
    std::vector<MPrim> v;
    const OShell & A = m.a; const OShell & B = m.b;
    const long double d[3] = {(long double)A.x-B.x, (long double)A.y-B.y, (long double)A.z-B.z};
    const long double R2 = d[0]*d[0]+d[1]*d[1]+d[2]*d[2];
    const long double PI = 3.14159265358979323846264338328L;
    for(int i = 0; i < A.nprim(); i++) for(int j = 0; j < (m.same ? i+1 : B.nprim()); j++)
    {
        MPrim q;
        const long double a = A.alpha[i], b = B.alpha[j], p = a+b;
        q.al = (double)p;
        const long double P[3] = {(a*A.x+b*B.x)/p, (a*A.y+b*B.y)/p, (a*A.z+b*B.z)/p};
        const double ca[3] = {A.x,A.y,A.z}, cb[3] = {B.x,B.y,B.z};
        q.xs = 0;
        for(int k = 0; k < 3; k++)
        {
            q.x[k] = (double)P[k]; q.pa[k] = (double)(P[k]-ca[k]); q.pb[k] = (double)(P[k]-cb[k]);
            q.xs = std::max(q.xs, std::fabs(ca[k])+std::fabs(cb[k]));
        }
        q.xe = (double)(R2*a*b/p);
        q.pre = (double)((long double)A.coef[i]*B.coef[j]*expl(-R2*a*b/p)*sqrtl(2.0L)*powl(PI, 1.25L)/p);
        q.a2 = (double)(2*a); q.b2 = (double)(2*b);
        if(m.same && i != j) { q.pre *= 2; q.a2 = q.b2 = (double)p; }
        q.scr = q.scrs = 0;
        if(method) q.scr = prim_est(A, i, B, j, method, &q.scrs);
        v.push_back(q);
    }
    return v;
}

static bool near(double v, double ref, double tol) { return std::fabs(v-ref) <= tol; }

// compare an object with its model; returns "" or what is wrong
static std::string check_pairs(const simint_multi_shellpair & P, const std::vector<MPair> & m, int method, double expect_max = -1)
{
    const double E = DBL_EPSILON;
    const int n = (int)m.size();
    if(P.nshell12 != n) return strf("nshell12 is %d, expected %d", P.nshell12, n);
    if(P.nshell12_clip != n) return strf("nshell12_clip is %d, expected %d", P.nshell12_clip, n);
    if(P.am1 != m[0].a.am || P.am2 != m[0].b.am) return strf("am %d %d, expected %d %d", P.am1, P.am2, m[0].a.am, m[0].b.am);
    if(method && !P.screen) return "screen is NULL";
    if(!method && P.screen) return "screen is set although there is no screening";
    int idx = 0, total = 0;
    double mxs = 0;
    for(int s = 0; s < n; s++)
    {
        const OShell & A = m[s].a; const OShell & B = m[s].b;
        const double xs = 4*E*(std::fabs(A.x)+std::fabs(B.x)+std::fabs(A.y)+std::fabs(B.y)+std::fabs(A.z)+std::fabs(B.z));
        if(!near(P.AB_x[s], A.x-B.x, xs) || !near(P.AB_y[s], A.y-B.y, xs) || !near(P.AB_z[s], A.z-B.z, xs))
            return strf("pair %d: AB (%g %g %g)", s, P.AB_x[s], P.AB_y[s], P.AB_z[s]);
        std::vector<MPrim> v = model(m[s], method);
        if(P.nprim12[s] != (int)v.size()) return strf("pair %d of %d: nprim12 is %d, expected %zu", s, n, P.nprim12[s], v.size());
        total += P.nprim12[s];
        std::vector<char> used(v.size(), 0);
        for(int k = 0; k < P.nprim12[s]; k++, idx++)
        {
            bool found = false;
            for(size_t q = 0; q < v.size() && !found; q++)
            {
                if(used[q]) continue;
                const MPrim & w = v[q];
                // centres: a few roundings of the coordinates; exponents: of the sum
                const double tx = 16*E*w.xs;
                bool ok = near(P.alpha[idx], w.al, 4*E*w.al);
                ok = ok && near(P.x[idx], w.x[0], tx) && near(P.y[idx], w.x[1], tx) && near(P.z[idx], w.x[2], tx);
                ok = ok && near(P.PA_x[idx], w.pa[0], tx) && near(P.PA_y[idx], w.pa[1], tx) && near(P.PA_z[idx], w.pa[2], tx);
                ok = ok && near(P.PB_x[idx], w.pb[0], tx) && near(P.PB_y[idx], w.pb[1], tx) && near(P.PB_z[idx], w.pb[2], tx);
                ok = ok && near(P.prefac[idx], w.pre, (20 + 10*w.xe)*E*std::fabs(w.pre) + 1e-300);
#if SIMINT_OSTEI_MAXDER > 0
                ok = ok && near(P.alpha2[idx], w.a2, 4*E*w.a2) && near(P.beta2[idx], w.b2, 4*E*w.b2);
#endif
                if(method) ok = ok && near(P.screen[idx], w.scr, w.scrs + 1e-290);
                if(ok) { used[q] = 1; found = true; }
            }
            if(!found)
                return strf("pair %d of %d (same %d): entry %d of %d is none of the expected primitive pairs: alpha %.17g x (%.17g %.17g %.17g) prefac %.17g screen %.17g; A=%s B=%s", s, n, m[s].same, k, P.nprim12[s],
                            P.alpha[idx], P.x[idx], P.y[idx], P.z[idx], P.prefac[idx], method ? P.screen[idx] : 0.0, show(A).c_str(), show(B).c_str());
            if(method) mxs = std::max(mxs, P.screen[idx]);
        }
        if(((s+1) % SIMINT_NSHELL_SIMD) == 0 || s+1 == n)
        {
            const int up = SIMINT_SIMD_ROUND(idx);
            for(; idx < up; idx++)
            {
                R.add("padding_entries");
                const double * f[] = {P.x,P.y,P.z,P.PA_x,P.PA_y,P.PA_z,P.PB_x,P.PB_y,P.PB_z,P.alpha};
                if(P.prefac[idx] != 0) return strf("padding after pair %d: prefac %g", s, P.prefac[idx]);
                for(auto p : f) if(!std::isfinite(p[idx])) return strf("padding after pair %d is not finite", s);
                if(!(P.alpha[idx] > 0)) return strf("padding after pair %d: alpha %g", s, P.alpha[idx]);
                if(method && P.screen[idx] != 0) return strf("padding after pair %d: screen %g", s, P.screen[idx]);
#if SIMINT_OSTEI_MAXDER > 0
                if(!std::isfinite(P.alpha2[idx]) || !std::isfinite(P.beta2[idx])) return strf("padding after pair %d: alpha2 %g", s, P.alpha2[idx]);
#endif
            }
        }
    }
    if(P.nprim != total) return strf("nprim is %d, expected %d", P.nprim, total);
    if(method && P.screen_max != mxs) return strf("screen_max is %.17g, the largest screening value %.17g", P.screen_max, mxs);
    if(!method && !(P.screen_max >= 1e90) && expect_max < 0) return strf("screen_max is %g without screening", P.screen_max);
    R.evals += total;
    R.add("primitive_pairs_checked", total);
    // arrays inside the allocation and not overlapping
    std::vector<std::pair<char*, size_t>> arr;
    const size_t np = (size_t)idx*sizeof(double), ns = (size_t)n*sizeof(double);
    for(double * p : {P.x,P.y,P.z,P.PA_x,P.PA_y,P.PA_z,P.PB_x,P.PB_y,P.PB_z,P.alpha,P.prefac}) arr.push_back({(char*)p,np});
#if SIMINT_OSTEI_MAXDER > 0
    arr.push_back({(char*)P.alpha2,np}); arr.push_back({(char*)P.beta2,np});
#endif
    if(method) arr.push_back({(char*)P.screen,np});
    for(double * p : {P.AB_x,P.AB_y,P.AB_z}) arr.push_back({(char*)p,ns});
    arr.push_back({(char*)P.nprim12,(size_t)n*sizeof(int)});
    std::sort(arr.begin(), arr.end());
    for(size_t i = 0; i < arr.size(); i++)
    {
        if(arr[i].first < (char*)P.ptr || arr[i].first+arr[i].second > (char*)P.ptr+P.memsize) return "an array lies outside the allocation";
        if(i && arr[i-1].first+arr[i-1].second > arr[i].first) return "two arrays overlap";
    }
    return "";
}

static OShell rshell(Rng & r, int am, int maxprim, int regime, const double * c)
{
    OShell s;
    s.am = am; s.x = c[0]; s.y = c[1]; s.z = c[2];
    gen_prims(r, s, r.i(1, maxprim), regime);
    return s;
}

static std::string show_pairs(const std::vector<MPair> & m)
{
    std::string s;
    for(auto & p : m) s += strf("(%d,%d prims%s) ", p.a.nprim(), p.b.nprim(), p.same ? " same" : "");
    return s.substr(0, 800);
}

// ---------------------------------------------------------------- C20
static void mode_pair()
{
    for(int cs = 0; cs < O.cases; cs++)
    {
        Rng r(mix(O.seed, 31000+O.shard*1000003ull+cs));
        const int method = r.i(3);
        const int l1 = r.i(0, method == 1 ? std::min(3, SIMINT_OSTEI_MAXAM) : SIMINT_OSTEI_MAXAM), l2 = r.i(0, method == 1 ? std::min(3, SIMINT_OSTEI_MAXAM) : SIMINT_OSTEI_MAXAM);
        const int mp = r.p(0.02) ? 30 : r.i(4) == 0 ? 7 : 3;
        ShellList X;
        std::vector<simint_shell> ga, gb;
        std::vector<MPair> m;
        const bool zeros = r.p(0.1);
        auto newshell = [&](int am, const double * c)
        {
            OShell s = rshell(r, am, mp, r.i(5), c);
            if(zeros && am == 0 && r.p(0.3)) { zero_oshell(s); simint_shell z; simint_initialize_shell(&z); simint_create_zero_shell(&z); X.o.push_back(s); X.g.push_back(z); }
            else X.add(s);
            return (int)X.o.size()-1;
        };
        int how = r.i(5);
        Pairs P;
        if(how == 4)
        {
            const int n1 = r.i(1,4), n2 = r.i(1,5);
            std::vector<int> i1, i2;
            for(int i = 0; i < n1; i++) { Centers C = gen_centers(r, r.i(NGEO)); i1.push_back(newshell(l1, C.c[0])); }
            for(int i = 0; i < n2; i++)
            {
                Centers C = gen_centers(r, r.i(NGEO));
                if(l1 == l2 && r.p(0.4)) i2.push_back(i1[r.i(n1)]); else i2.push_back(newshell(l2, C.c[1]));
            }
            std::vector<simint_shell> a, b;
            for(int i : i1) a.push_back(X.g[i]);
            for(int i : i2) b.push_back(X.g[i]);
            for(int i : i1) for(int j : i2) m.push_back({X.o[i], X.o[j], i == j});
            bool bad = false;
            for(auto & p : m) if(p.a.alpha[0] == 0 && p.b.alpha[0] == 0) bad = true;
            if(bad) continue;
            if(r.p(0.5)) simint_create_multi_shellpair(n1, a.data(), n2, b.data(), &P.P, method);
            else { simint_allocate_multi_shellpair(n1, a.data(), n2, b.data(), &P.P, method); simint_fill_multi_shellpair(n1, a.data(), n2, b.data(), &P.P, method); }
            std::string w = check_pairs(P.P, m, method);
            R.distinct.insert(strf("list/%d%d/%d/%d", l1, l2, method, (n1*n2) % SIMINT_NSHELL_SIMD));
            if(!w.empty()) R.viol(strf("pair:list:m%d", method), "created from lists of %d and %d shells: %s; %s", n1, n2, w.c_str(), show_pairs(m).c_str());
            R.add("objects");
            continue;
        }
        const int n = (mp == 3 && (method != 1 || l1 + l2 <= 1) && r.p(0.02)) ? r.i(60, 400) : r.i(5) == 0 ? r.i(2*SIMINT_NSHELL_SIMD, 3*SIMINT_NSHELL_SIMD+1) : r.i(1, SIMINT_NSHELL_SIMD+2);
        for(int i = 0; i < n; i++)
        {
            Centers C = gen_centers(r, r.i(NGEO));
            const int a = newshell(l1, C.c[0]);
            const bool same = l1 == l2 && r.p(0.25);
            int b = same ? a : newshell(l2, C.c[1]);
            if(X.o[a].alpha[0] == 0 && X.o[b].alpha[0] == 0)
            {
                // no pair of two dummies
                OShell s = rshell(r, l2, mp, r.i(5), C.c[1]);
                X.add(s); b = (int)X.o.size()-1;
            }
            ga.push_back(X.g[a]); gb.push_back(X.g[b]);
            m.push_back({X.o[a], X.o[b], a == b});
        }
        auto sub = [&](int lo, int hi, Pairs & p) { mkpairs(p, std::vector<simint_shell>(ga.begin()+lo, ga.begin()+hi), std::vector<simint_shell>(gb.begin()+lo, gb.begin()+hi), method); };
        if(how == 0) sub(0, n, P);
        else if(how == 3)
        {
            // re-use of an object with other contents
            int lo = r.i(n), hi = r.i(lo+1, n);
            const int m2 = r.i(3);
            mkpairs(P, std::vector<simint_shell>(ga.begin()+lo, ga.begin()+hi), std::vector<simint_shell>(gb.begin()+lo, gb.begin()+hi), (m2 == 1 && l1+l2 > 6) ? 2 : m2);
            sub(0, n, P);
        }
        else
        {
            std::vector<Pairs*> ps;
            std::vector<const simint_multi_shellpair*> h;
            for(int lo = 0; lo < n; )
            {
                int hi = how == 2 ? lo+1 : std::min(n, lo + r.i(1, r.p(0.5) ? 3 : 2*SIMINT_NSHELL_SIMD));
                ps.push_back(new Pairs); sub(lo, hi, *ps.back()); h.push_back(&ps.back()->P);
                lo = hi;
            }
            uint64_t h0 = 1, h1 = 1;
            for(auto p : ps) { h0 = hash_bytes(&p->P, sizeof(p->P), h0); h0 = hash_bytes(p->P.x, p->P.memsize, h0); }
            if(how == 1) simint_cat_multi_shellpair((int)h.size(), h.data(), &P.P, method);
            else simint_cat_shellpairs((int)h.size(), h.data(), &P.P, method);
            for(auto p : ps) { h1 = hash_bytes(&p->P, sizeof(p->P), h1); h1 = hash_bytes(p->P.x, p->P.memsize, h1); }
            if(h0 != h1) R.viol("pair:catinput", "concatenation changed one of its inputs");
            for(auto p : ps) delete p;
        }
        static const char * HOW[] = {"pairs", "cat", "catsingle", "reuse"};
        std::string w = check_pairs(P.P, m, method);
        R.add("objects");
        R.distinct.insert(strf("%s/%d%d/%d/%d", HOW[how], l1, l2, method, n % SIMINT_NSHELL_SIMD));
        if(!w.empty()) R.viol(strf("pair:%s:m%d", HOW[how], method), "%s of %d pairs, screening %d: %s; %s", HOW[how], n, method, w.c_str(), show_pairs(m).c_str());
        R.sample("%s of %d pairs am %d %d screening %d: %s", HOW[how], n, l1, l2, method, show_pairs(m).c_str());
    }
}

// ---------------------------------------------------------------- C08
static void mode_life()
{
    const int NSH = 7, NPR = 5;
    for(int cs = 0; cs < O.cases; cs++)
    {
        Rng r(mix(O.seed, 41000+O.shard*1000003ull+cs));
        mallopt(M_PERTURB, r.i(256));
        struct S { simint_shell g; OShell o; bool live = false; bool ini = false; };
        struct P { simint_multi_shellpair p; std::vector<MPair> m; int method = 0; bool live = false; uint64_t h = 0; bool loosemax = false; };
        std::vector<S> s(NSH);
        std::vector<P> p(NPR);
        std::string hist;
        // garbage before initialisation
        for(auto & x : s) memset(&x.g, 0xCD, sizeof(x.g));
        for(auto & x : p) memset(&x.p, 0xCD, sizeof(x.p));
        // initialise, one by one or as arrays
        {
            std::vector<simint_shell> t(NSH); memset(t.data(), 0xCD, sizeof(simint_shell)*NSH);
            if(r.p(0.5)) simint_initialize_shells(NSH, t.data()); else for(auto & x : t) simint_initialize_shell(&x);
            for(int i = 0; i < NSH; i++) s[i].g = t[i];
            std::vector<simint_multi_shellpair> u(NPR); memset(u.data(), 0xCD, sizeof(u[0])*NPR);
            if(r.p(0.5)) simint_initialize_multi_shellpairs(NPR, u.data()); else for(auto & x : u) simint_initialize_multi_shellpair(&x);
            for(int i = 0; i < NPR; i++) p[i].p = u[i];
        }
        auto phash = [](P & x)
        {
            uint64_t h = hash_bytes(&x.p, sizeof(x.p));
            if(x.p.ptr) h = hash_bytes(x.p.ptr, malloc_usable_size(x.p.ptr) < x.p.memsize ? 0 : x.p.memsize, h);
            return h;
        };
        auto shell_ok = [&](S & x) -> bool
        {
            return x.g.am == x.o.am && x.g.nprim == x.o.nprim() && x.g.x == x.o.x && x.g.y == x.o.y && x.g.z == x.o.z
                && !memcmp(x.g.alpha, x.o.alpha.data(), 8*x.o.alpha.size()) && !memcmp(x.g.coef, x.o.coef.data(), 8*x.o.coef.size());
        };
        auto verify_all = [&](const char * op, int touched_pair)
        {
            for(int i = 0; i < NSH; i++)
            {
                R.evals++;
                if(s[i].live && !shell_ok(s[i]))
                    R.viol(strf("life:shell:%s", op), "after %s shell %d is not what it should be (am %d nprim %d, expected %s); history: %s", op, i, s[i].g.am, s[i].g.nprim, show(s[i].o).c_str(), hist.c_str());
                for(int j = 0; j < i; j++)
                    if(s[i].live && s[j].live && s[i].g.ptr == s[j].g.ptr) R.viol(strf("life:alias:%s", op), "after %s shells %d and %d share memory; history: %s", op, i, j, hist.c_str());
            }
            for(int i = 0; i < NPR; i++)
            {
                if(!p[i].live) continue;
                R.evals++;
                if(i == touched_pair)
                {
                    std::string w = check_pairs(p[i].p, p[i].m, p[i].method, p[i].loosemax ? 1 : -1);
                    if(!w.empty()) R.viol(strf("life:pair:%s", op), "after %s shell pair %d: %s; history: %s", op, i, w.c_str(), hist.c_str());
                    p[i].h = phash(p[i]);
                }
                else if(phash(p[i]) != p[i].h) { R.viol(strf("life:other:%s", op), "%s changed shell pair %d; history: %s", op, i, hist.c_str()); p[i].h = phash(p[i]); }
            }
            R.add(std::string("op_") + op);
        };
        const int nops = r.i(20, 70);
        const int lcap = std::min(2, SIMINT_OSTEI_MAXAM);
        for(int op = 0; op < nops; op++)
        {
            const int i = r.i(NSH), j = r.i(NSH), k = r.i(NPR);
            switch(r.i(15))
            {
                case 0: case 1: case 2: // create or re-create
                {
                    double c[3] = {r.u(-2,2), r.u(-2,2), r.u(-2,2)};
                    OShell o = rshell(r, r.i(0, lcap), r.p(0.3) ? 9 : 3, r.i(2), c);
                    if(o.am == 0 && r.p(0.03)) gen_prims(r, o, r.i(10, 13), 0);
                    hist += strf("create(%d,n=%d,l=%d) ", i, o.nprim(), o.am);
                    simint_create_shell(o.nprim(), o.am, o.x, o.y, o.z, o.alpha.data(), o.coef.data(), &s[i].g);
                    s[i].o = o; s[i].live = true;
                    verify_all("create", -1);
                } break;
                case 3: // allocate, then fill by hand
                {
                    double c[3] = {r.u(-2,2), r.u(-2,2), r.u(-2,2)};
                    OShell o = rshell(r, r.i(0, lcap), 6, 0, c);
                    hist += strf("allocate(%d,n=%d) ", i, o.nprim());
                    simint_allocate_shell(o.nprim(), &s[i].g);
                    s[i].g.am = o.am; s[i].g.nprim = o.nprim(); s[i].g.x = o.x; s[i].g.y = o.y; s[i].g.z = o.z;
                    for(int t = 0; t < o.nprim(); t++) { s[i].g.alpha[t] = o.alpha[t]; s[i].g.coef[t] = o.coef[t]; }
                    s[i].o = o; s[i].live = true;
                    verify_all("allocate", -1);
                } break;
                case 4: case 5: // copy
                    if(!s[i].live || i == j) break;
                    hist += strf("copy(%d->%d) ", i, j);
                    simint_copy_shell(&s[i].g, &s[j].g);
                    s[j].o = s[i].o; s[j].live = true;
                    verify_all("copy", -1);
                    break;
                case 6:
                {
                    hist += strf("free(%d) ", i);
                    if(r.p(0.2)) { simint_shell t[2] = {s[i].g, s[j].g}; if(i != j) { simint_free_shells(2, t); s[i].g = t[0]; s[j].g = t[1]; s[j].live = false; hist += strf("free(%d) ", j); } else simint_free_shell(&s[i].g); }
                    else simint_free_shell(&s[i].g);
                    s[i].live = false;
                    if(r.p(0.3)) { simint_free_shell(&s[i].g); hist += "again "; }
                    verify_all("free", -1);
                } break;
                case 7: // normalise
                {
                    if(!s[i].live || s[i].o.alpha[0] == 0) break;
                    hist += strf("normalize(%d) ", i);
                    std::vector<double> old = s[i].o.coef;
                    simint_normalize_shells(1, &s[i].g);
                    for(int t = 0; t < s[i].o.nprim(); t++) s[i].o.coef[t] = s[i].g.coef[t];
                    bool fin = true;
                    for(double v : s[i].o.coef) fin = fin && std::isfinite(v);
                    double any = 0;
                    for(double v : old) any = std::max(any, std::fabs(v));
                    if(!fin) { if(any > 0 && s[i].o.nprim() == 1) R.viol("life:normalize", "normalisation gave a non-finite coefficient; history: %s", hist.c_str()); simint_free_shell(&s[i].g); s[i].live = false; }
                    verify_all("normalize", -1);
                } break;
                case 8:
                {
                    hist += strf("zero(%d) ", i);
                    simint_create_zero_shell(&s[i].g);
                    zero_oshell(s[i].o); s[i].live = true;
                    verify_all("zero", -1);
                } break;
                case 9: case 10: // pairs from pairs of shells
                case 11:         // ... from lists
                {
                    // shells of one angular momentum on either side
                    std::vector<int> c1, c2;
                    if(!s[i].live || !s[j].live) break;
                    for(int t = 0; t < NSH; t++)
                    {
                        if(s[t].live && s[t].o.am == s[i].o.am) c1.push_back(t);
                        if(s[t].live && s[t].o.am == s[j].o.am) c2.push_back(t);
                    }
                    std::vector<MPair> m;
                    const int method = r.i(3);
                    std::vector<simint_shell> ab, a, b;
                    const bool list = r.i(3) == 0;
                    int n1 = 0, n2 = 0;
                    if(list)
                    {
                        n1 = r.i(1,3); n2 = r.i(1,3);
                        std::vector<int> x, y;
                        for(int t = 0; t < n1; t++) x.push_back(c1[r.i((int)c1.size())]);
                        for(int t = 0; t < n2; t++) y.push_back(c2[r.i((int)c2.size())]);
                        for(int t : x) a.push_back(s[t].g);
                        for(int t : y) b.push_back(s[t].g);
                        for(int t : x) for(int u : y) m.push_back({s[t].o, s[u].o, t == u});
                    }
                    else
                    {
                        const int n = r.i(1, SIMINT_NSHELL_SIMD+2);
                        for(int t = 0; t < n; t++)
                        {
                            const int x = c1[r.i((int)c1.size())], y = c2[r.i((int)c2.size())];
                            ab.push_back(s[x].g); ab.push_back(s[y].g);
                            m.push_back({s[x].o, s[y].o, x == y});
                        }
                    }
                    bool bad = false;
                    for(auto & q : m) if(q.a.alpha[0] == 0 && q.b.alpha[0] == 0) bad = true;
                    if(bad) break;
                    hist += strf("pairs%s(%d,n=%zu,scr=%d) ", list ? "list" : "", k, m.size(), method);
                    if(list) simint_create_multi_shellpair(n1, a.data(), n2, b.data(), &p[k].p, method);
                    else if(r.p(0.3)) { simint_allocate_multi_shellpair2((int)m.size(), ab.data(), &p[k].p, method); simint_fill_multi_shellpair2((int)m.size(), ab.data(), &p[k].p, method); }
                    else simint_create_multi_shellpair2((int)m.size(), ab.data(), &p[k].p, method);
                    p[k].m = m; p[k].method = method; p[k].live = true; p[k].loosemax = false;
                    verify_all(list ? "pairlist" : "pairs", k);
                } break;
                case 12: // concatenate
                {
                    const int a = r.i(NPR), b = r.i(NPR), c = r.i(NPR);
                    std::vector<int> in{a, b};
                    if(r.p(0.4)) in.push_back(c);
                    if(r.p(0.2)) in.pop_back();
                    bool bad = false;
                    int method = 2;
                    for(int t : in) if(!p[t].live) bad = true;
                    for(int t : in)
                    {
                        if(bad) break;
                        if(t == k || p[t].m[0].a.am != p[in[0]].m[0].a.am || p[t].m[0].b.am != p[in[0]].m[0].b.am) bad = true;
                        if(p[t].method != p[in[0]].method) bad = true;
                    }
                    if(bad) break;
                    method = p[in[0]].method;
                    int single = 1;
                    std::vector<const simint_multi_shellpair*> h;
                    std::vector<MPair> m;
                    for(int t : in) { h.push_back(&p[t].p); if(p[t].m.size() != 1) single = 0; m.insert(m.end(), p[t].m.begin(), p[t].m.end()); }
                    if(m.size() > 60) break;
                    hist += strf("cat(%zu objects -> %d,n=%zu,scr=%d%s) ", in.size(), k, m.size(), method, single ? ",single" : "");
                    if(single && r.p(0.7)) simint_cat_shellpairs((int)h.size(), h.data(), &p[k].p, method);
                    else simint_cat_multi_shellpair((int)h.size(), h.data(), &p[k].p, method);
                    p[k].m = m; p[k].method = method; p[k].live = true; p[k].loosemax = false;
                    verify_all("cat", k);
                } break;
                case 13:
                    hist += strf("freepair(%d) ", k);
                    if(r.p(0.2)) { simint_multi_shellpair t[1] = {p[k].p}; simint_free_multi_shellpairs(1, t); p[k].p = t[0]; }
                    else simint_free_multi_shellpair(&p[k].p);
                    p[k].live = false;
                    if(r.p(0.3)) { simint_free_multi_shellpair(&p[k].p); hist += "again "; }
                    verify_all("freepair", -1);
                    break;
                case 14: // integrals from the object and from a fresh one
                {
                    if(!p[k].live) break;
                    int q = r.i(NPR);
                    if(!p[q].live) q = k;
                    double work = 1;
                    for(int side = 0; side < 2; side++)
                    {
                        double np = 0;
                        for(auto & mp : p[side ? q : k].m) np += (double)mp.a.nprim()*mp.b.nprim();
                        work *= np*(1 + ncart(p[side ? q : k].m[0].a.am)*ncart(p[side ? q : k].m[0].b.am)/5.0);
                    }
                    if(work > 2e7) break;
                    hist += strf("compute(%d,%d) ", k, q);
                    struct F { ShellList A, B; Pairs P; };
                    auto fresh = [&](P & x, F & f)
                    {
                        std::vector<simint_shell> a, b;
                        for(auto & mp : x.m)
                        {
                            f.A.add(mp.a); a.push_back(f.A.g.back());
                            if(mp.same) { b.push_back(f.A.g.back()); } else { f.B.add(mp.b); b.push_back(f.B.g.back()); }
                        }
                        mkpairs(f.P, a, b, x.method);
                    };
                    F f1, f2;
                    fresh(p[k], f1); fresh(p[q], f2);
                    const int am[4] = {p[k].m[0].a.am, p[k].m[0].b.am, p[q].m[0].a.am, p[q].m[0].b.am};
                    const int mx = maxam4(am[0],am[1],am[2],am[3]);
                    const size_t nc = (size_t)ncart(am[0])*ncart(am[1])*ncart(am[2])*ncart(am[3]);
                    const size_t n = nc*p[k].m.size()*p[q].m.size();
                    Guarded w(simint_eri_worksize(0, mx)), o1(n), o2(n);
                    const int r1 = simint_compute_eri(&p[k].p, &p[q].p, 0.0, w.p(), o1.p());
                    const int r2 = simint_compute_eri(&f1.P.P, &f2.P.P, 0.0, w.p(), o2.p());
                    R.evals++;
                    R.add("integral_batches_compared");
                    if(r1 != r2 || r1 != (int)(p[k].m.size()*p[q].m.size())) R.viol("life:computeret", "compute returned %d and %d; history: %s", r1, r2, hist.c_str());
                    else if(memcmp(o1.p(), o2.p(), n*8))
                    {
                        for(size_t t = 0; t < n; t++)
                        {
                            if(o1[t] == o2[t]) continue;
                            if(!std::isnan(o1[t]-o2[t]) && std::fabs(o1[t]-o2[t]) <= 100*DBL_EPSILON*std::fabs(o2[t])) continue;
                            const size_t qq = t/nc; const int bi = (int)(qq/p[q].m.size()), ki = (int)(qq%p[q].m.size());
                            ORef ref;
                            o_eri_scale(p[k].m[bi].a, p[k].m[bi].b, p[q].m[ki].a, p[q].m[ki].b, ref, false);
                            const double e = err_ratio(o1[t], o2[t], 0, ref.scale[t%nc], ref.extra[t%nc]);
                            if(e > 200) { R.viol("life:compute", "integrals from the used object differ from those of fresh objects: element %zu %.17g vs %.17g; history: %s", t, o1[t], o2[t], hist.c_str()); break; }
                        }
                    }
                    verify_all("compute", -1);
                } break;
            }
            R.add("operations");
            if(hist.size() > 1200) hist = "... " + hist.substr(hist.size()-1000);
        }
        R.add("histories");
        R.distinct.insert(strf("h%llx", (unsigned long long)hash_bytes(hist.data(), hist.size())));
        for(auto & x : s) simint_free_shell(&x.g);
        for(auto & x : p) simint_free_multi_shellpair(&x.p);
        R.sample("history: %s", hist.substr(0, 700).c_str());
    }
}

// ---------------------------------------------------------------- C16
static void mode_norm()
{
    for(int cs = 0; cs < O.cases; cs++)
    {
        Rng r(mix(O.seed, 51000+O.shard*1000003ull+cs));
        const int n = r.p(0.03) ? r.i(20, 60) : r.i(1, 4);
        std::vector<OShell> in;
        std::vector<simint_shell> g(n+1), one(n), sc(n);
        for(int i = 0; i < n; i++)
        {
            OShell o;
            o.am = r.p(0.7) ? r.i(0, 8) : r.i(0, SHELL_PRIM_NORMFAC_MAXL);
            o.x = r.u(-5,5); o.y = r.u(-5,5); o.z = r.u(-5,5);
            const int np = r.p(0.3) ? 1 : r.p(0.03) ? r.i(10, 40) : r.i(1, 9);
            const bool pos = r.p(0.5);
            const double span = r.p(0.5) ? r.logu(1e-2, 1e4) : 1;
            for(int k = 0; k < np; k++)
            {
                o.alpha.push_back(span*r.logu(0.3, 30));
                o.coef.push_back(r.u(0.05, 1.5)*(!pos && r.p(0.4) ? -1 : 1)*(r.p(0.03) && k ? 0 : 1));
            }
            in.push_back(o);
            g[i] = mkshell(o);
            one[i] = mkshell(o);
            OShell o2 = o;
            const double f = r.logu(1e-6, 1e6);
            for(double & c : o2.coef) c *= f;
            sc[i] = mkshell(o2);
        }
        OShell guard; guard.am = 0; guard.alpha = {1.5}; guard.coef = {0.77};
        g[n] = mkshell(guard);
        simint_normalize_shells(n, g.data());
        for(int i = 0; i < n; i++) { simint_normalize_shells(1, &one[i]); simint_normalize_shells(1, &sc[i]); }
        if(g[n].coef[0] != 0.77 || g[n].alpha[0] != 1.5) R.viol("norm:extra", "normalising %d shells changed the next one", n);
        for(int i = 0; i < n; i++)
        {
            const OShell & o = in[i];
            const int np = o.nprim();
            OShell res = o;
            for(int k = 0; k < np; k++) res.coef[k] = g[i].coef[k];
            R.evals++;
            R.distinct.insert(strf("l%d/n%d", o.am, np));
            if(g[i].am != o.am || g[i].nprim != np || g[i].x != o.x || g[i].y != o.y || g[i].z != o.z || memcmp(g[i].alpha, o.alpha.data(), 8*np))
                R.viol("norm:fields", "normalisation changed something other than coefficients; %s", show(o).c_str());
            // cancellation between the primitives
            long double sum = 0, abss = 0;
            for(int k = 0; k < np; k++) for(int m = 0; m < np; m++)
            {
                const long double t = (long double)o.coef[k]*o.coef[m]*powl((long double)o.alpha[k]*o.alpha[m], 0.5L*(o.am+1.5L))/powl((long double)o.alpha[k]+o.alpha[m], o.am+1.5L);
                sum += t; abss += fabsl(t);
            }
            const double cond = (double)(abss/fabsl(sum));
            if(!(cond < 1e8)) { R.add("ill_conditioned_skipped"); continue; }
            const double tol = (200 + 10*o.am)*DBL_EPSILON*cond;
            // self overlap of x^l: independent closed form in long double
            const long double PI = 3.14159265358979323846264338328L;
            long double df = 1; for(int k = 2*o.am-1; k > 1; k -= 2) df *= k;
            long double S = 0;
            for(int k = 0; k < np; k++) for(int m = 0; m < np; m++)
            {
                const long double p = (long double)o.alpha[k]+o.alpha[m];
                S += (long double)res.coef[k]*res.coef[m]*powl(PI/p, 1.5L)*df/powl(2*p, o.am);
            }
            R.mx("self_overlap_error_over_eps_cond", std::fabs((double)(S-1))/DBL_EPSILON/cond);
            if(!(std::fabs((double)(S-1)) <= tol)) R.viol(strf("norm:overlap:l%d", o.am), "self-overlap after normalisation is %.17Lg (l=%d); %s", S, o.am, show(o).c_str());
            // relation to the input: coefficient times norm of the primitive, common positive factor
            double f0 = 0;
            for(int k = 0; k < np; k++)
            {
                if(o.coef[k] == 0) { if(res.coef[k] != 0) R.viol("norm:ratio", "a zero coefficient became %g", res.coef[k]); continue; }
                const long double q = (long double)res.coef[k]/((long double)o.coef[k]*powl(o.alpha[k], 0.5L*(o.am+1.5L)));
                if(f0 == 0) f0 = (double)q;
                if(!(q > 0) || !(std::fabs((double)(q/f0-1)) < 200*DBL_EPSILON)) R.viol(strf("norm:ratio:l%d", o.am), "coefficients of primitives %d and 0 scale differently; %s", k, show(o).c_str());
            }
            // independence of array and of a common factor
            if(memcmp(one[i].coef, g[i].coef, 8*np)) R.viol("norm:array", "normalisation in an array of %d differs from that of the single shell; %s", n, show(o).c_str());
            for(int k = 0; k < np; k++)
                if(!(std::fabs(sc[i].coef[k]-g[i].coef[k]) <= tol*std::fabs(g[i].coef[k]))) { R.viol("norm:factor", "a common factor changes the normalised coefficients: %.17g vs %.17g; %s", sc[i].coef[k], g[i].coef[k], show(o).c_str()); break; }
            // the library's own overlap agrees
            if(o.am <= 7)
            {
                std::vector<double> ov((size_t)ncart(o.am)*ncart(o.am));
                simint_compute_overlap(&g[i], &g[i], ov.data());
                R.add("library_overlaps");
                if(!(std::fabs(ov[0]-1) <= tol*4)) R.viol(strf("norm:libovl:l%d", o.am), "library self-overlap is %.17g; %s", ov[0], show(o).c_str());
            }
            R.sample("l=%d, %d primitives: self-overlap-1 = %.3Lg (condition %.3g)", o.am, np, S-1, cond);
        }
        for(auto & x : g) simint_free_shell(&x);
        for(auto & x : one) simint_free_shell(&x);
        for(auto & x : sc) simint_free_shell(&x);
    }
}

// ---------------------------------------------------------------- C18
static void mode_init()
{
    struct Q { Batch * b; int deriv; std::vector<double> out; int ret; };
    std::vector<Q> qs;
    Rng r(mix(O.seed, 61000+O.shard));
    auto run = [&](Q & q, std::vector<double> & o)
    {
        const size_t n = q.b->ncomp()*(q.deriv ? 12 : 1)*q.b->nb*q.b->nk;
        Guarded w(simint_eri_worksize(q.deriv, maxam4(q.b->am[0],q.b->am[1],q.b->am[2],q.b->am[3]))), out(n);
        const int ret = q.deriv ? simint_compute_eri_deriv(q.deriv, &q.b->P.P, &q.b->Q.P, 0.0, w.p(), out.p()) : simint_compute_eri(&q.b->P.P, &q.b->Q.P, 0.0, w.p(), out.p());
        o.assign(out.p(), out.p()+n);
        return ret;
    };
    simint_init();
    const int L = SIMINT_OSTEI_MAXAM;
    for(int a = 0; a <= L; a++) for(int b = 0; b <= L; b++) for(int c = 0; c <= L; c++) for(int d = 0; d <= L; d++)
    for(int dv = 0; dv <= SIMINT_OSTEI_MAXDER; dv++)
    {
        if(dv && maxam4(a,b,c,d) > SIMINT_OSTEI_DERIV1_MAXAM) continue;
        Q q; q.b = new Batch; q.deriv = dv;
        int am[4] = {a,b,c,d};
        GenOpt g; g.maxprim = 2; g.nb = 1; g.nk = 2;
        gen_batch(r, *q.b, am, g);
        q.ret = run(q, q.out);
        qs.push_back(q);
    }
    OShell o; o.am = 2; o.alpha = {0.9, 3.1}; o.coef = {0.3, 0.8};
    double Z[1] = {3}, x[1] = {0.3}, y[1] = {-1}, z[1] = {2};
    simint_shell sh = mkshell(o);
    std::vector<double> pot0(36), pot(36), ke0(36), ke(36);
    simint_compute_potential(1, Z, x, y, z, &sh, &sh, pot0.data());
    simint_compute_ke(&sh, &sh, ke0.data());
    for(int cs = 0; cs < O.cases; cs++)
    {
        std::string h;
        const int n = r.i(1, 9);
        for(int k = 0; k < n; k++)
        {
            const int what = r.i(3);
            if(what == 0) { simint_init(); h += "I"; }
            else if(what == 1)
            {
                simint_finalize(); h += "F";
                if(r.p(0.4)) { simint_finalize(); h += "F"; }
                simint_init(); h += "I";
            }
            else
            {
                h += "c";
                Q & q = qs[r.i((int)qs.size())];
                std::vector<double> v;
                const int ret = run(q, v);
                if(ret != q.ret || memcmp(v.data(), q.out.data(), 8*v.size())) R.viol("init:result", "after %s class %s deriv %d: results changed (returned %d, first %d)", h.c_str(), q.b->cls().c_str(), q.deriv, ret, q.ret);
            }
        }
        if(r.p(0.3)) { simint_init(); simint_init(); h += "II"; }
        R.add("histories");
        R.distinct.insert(h);
        // everything still there
        for(auto & q : qs)
        {
            std::vector<double> v;
            const int ret = run(q, v);
            R.evals++;
            if(ret != q.ret || memcmp(v.data(), q.out.data(), 8*v.size())) { R.viol("init:result", "after %s class %s deriv %d: results changed (returned %d, first %d)", h.c_str(), q.b->cls().c_str(), q.deriv, ret, q.ret); break; }
        }
        simint_compute_potential(1, Z, x, y, z, &sh, &sh, pot.data());
        simint_compute_ke(&sh, &sh, ke.data());
        if(pot != pot0 || ke != ke0) R.viol("init:oneelectron", "after %s one-electron integrals changed", h.c_str());
        R.sample("history %s (I init, F finalize, c compute): %zu classes reproduced", h.c_str(), qs.size());
    }
    simint_free_shell(&sh);
    for(auto & q : qs) delete q.b;
    // ends in a random state
    const int e = r.i(3);
    for(int k = 0; k < e; k++) simint_finalize();
}

// ---------------------------------------------------------------- C22
static int canon(int i, int j, int k) { (void)i; return (j+k)*(j+k+1)/2+k; }
static void mode_tables()
{
    const int N = (int)(sizeof(am_recur_map)/sizeof(am_recur_map[0]));
    const int T = (int)(sizeof(recurinfo_array)/sizeof(recurinfo_array[0]));
    int total = 0;
    for(int l = 0; l < N; l++)
    {
        R.evals++;
        if(am_recur_map[l] != total) R.viol(strf("table:map%d", l), "am_recur_map[%d] is %d, expected %d", l, am_recur_map[l], total);
        for(int c = 0; c < ncart(l); c++)
        {
            const int e = am_recur_map[l]+c;
            if(e < 0 || e >= T) { R.viol("table:size", "component %d of l=%d is entry %d of a table of %d", c, l, e, T); continue; }
            const RecurInfo & x = recurinfo_array[e];
            R.evals++;
            R.distinct.insert(strf("%d/%d", l, c));
            // canonical order: x descending, then y descending
            int i = l, j = 0, k = 0, n = 0;
            for(i = l; i >= 0; i--) { bool f = false; for(j = l-i; j >= 0; j--, n++) if(n == c) { f = true; break; } if(f) break; }
            k = l-i-j;
            if(x.ijk[0] != i || x.ijk[1] != j || x.ijk[2] != k || canon(i,j,k) != c)
                R.viol(strf("table:ijk:%d", l), "entry %d (l=%d component %d) is (%d,%d,%d), expected (%d,%d,%d)", e, l, c, x.ijk[0], x.ijk[1], x.ijk[2], i, j, k);
            const int v[3] = {i,j,k};
            if(l == 0 ? x.dir != -1 : (x.dir < 0 || x.dir > 2 || v[(int)x.dir] <= 0))
                R.viol(strf("table:dir:%d", l), "entry %d (l=%d component %d): direction %d cannot be lowered in (%d,%d,%d)", e, l, c, x.dir, i, j, k);
            for(int d = 0; d < 3; d++)
                for(int q = 0; q < 3; q++)
                {
                    int w[3] = {i,j,k};
                    w[d] += q == 0 ? -1 : q == 1 ? -2 : 1;
                    const int want = w[d] < 0 ? -1 : canon(w[0],w[1],w[2]);
                    R.evals++;
                    if(x.idx[d][q] != want) R.viol(strf("table:idx:%d", l), "entry %d (l=%d component %d): neighbour %s along %d is %d, expected %d", e, l, c, q == 0 ? "-1" : q == 1 ? "-2" : "+1", d, x.idx[d][q], want);
                }
            if(l == N-1 && c == 0) R.sample("last angular momentum %d starts at %d", l, e);
            if(l == 3) R.sample("l=3 component %d is (%d,%d,%d), direction %d", c, x.ijk[0], x.ijk[1], x.ijk[2], x.dir);
        }
        total += ncart(l);
    }
    if(total != T) R.viol("table:size", "table has %d entries, expected %d", T, total);
}

int main(int argc, char ** argv)
{
    O = parse(argc, argv);
    if(O.mode != "init") simint_init();
    if(O.mode == "pair") mode_pair();
    else if(O.mode == "life") mode_life();
    else if(O.mode == "norm") mode_norm();
    else if(O.mode == "init") mode_init();
    else if(O.mode == "tables") mode_tables();
    else { fprintf(stderr, "unknown mode\n"); return 3; }
    if(O.mode != "init") simint_finalize();
    return R.done();
}
