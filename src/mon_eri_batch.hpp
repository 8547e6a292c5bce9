// Modes batch (C03), screen (C04), mem (C05), pure (C06) of mon_eri.
#include "guard.hpp"
#include "simint/shell/shell_screen.h"
#include "simint/boys/boys.h"
#include <thread>
#include <malloc.h>
#include <cfenv>
#if defined(__SSE2__)
  #include <xmmintrin.h>
  // rounding, flushing and exception masks
  static unsigned fpmode() { return (_mm_getcsr() & 0xffc0u) | (unsigned)fegetround(); }
#else
  static unsigned fpmode() { return (unsigned)fegetround(); }
#endif

static double small_cost(const int am[4], bool deriv) { return ref_cost(am, deriv); }

static const unsigned g_fp0 = fpmode();     // before simint_init

// is (ab|ab) in a library of selected classes?
static bool has_class(int a, int b)
{
    if(!O.kv.count("classes")) return true;
    const std::string & k = O.kv["classes"];
    return k.find(strf("%d%d%d%d;",a,b,a,b)) != std::string::npos || k.find(strf("%d%d%d%d;",b,a,b,a)) != std::string::npos ||
           k.find(strf("%d%d%d%d;",a,b,b,a)) != std::string::npos || k.find(strf("%d%d%d%d;",b,a,a,b)) != std::string::npos;
}

// ------------------------------------------------------------------ C03
// Assemble n pairs in one of several ways into out
static int assemble(Rng & r, const std::vector<simint_shell> & a, const std::vector<simint_shell> & b, Pairs & out, int method, int screen)
{
    const int n = (int)a.size();
    auto sub = [&](int lo, int hi, Pairs & p)
    {
        mkpairs(p, std::vector<simint_shell>(a.begin()+lo, a.begin()+hi), std::vector<simint_shell>(b.begin()+lo, b.begin()+hi), screen);
    };
    switch(method)
    {
        case 0: sub(0, n, out); break;
        case 1: // allocate and fill separately
        {
            std::vector<simint_shell> ab;
            for(int i = 0; i < n; i++) { ab.push_back(a[i]); ab.push_back(b[i]); }
            simint_allocate_multi_shellpair2(n, ab.data(), &out.P, screen);
            simint_fill_multi_shellpair2(n, ab.data(), &out.P, screen);
        } break;
        case 2: // concatenation of blocks of random sizes
        case 3: // concatenation of concatenations
        {
            std::vector<Pairs*> ps;
            for(int lo = 0; lo < n; )
            {
                int hi = std::min(n, lo + r.i(1, std::max(1, r.p(0.5) ? 3 : 2*SIMINT_NSHELL_SIMD)));
                ps.push_back(new Pairs);
                sub(lo, hi, *ps.back());
                lo = hi;
            }
            if(method == 3 && ps.size() > 1)
            {
                size_t cut = 1 + r.i((int)ps.size()-1);
                std::vector<const simint_multi_shellpair*> h1, h2;
                for(size_t i = 0; i < ps.size(); i++) (i < cut ? h1 : h2).push_back(&ps[i]->P);
                Pairs c1, c2;
                simint_cat_multi_shellpair((int)h1.size(), h1.data(), &c1.P, screen);
                simint_cat_multi_shellpair((int)h2.size(), h2.data(), &c2.P, screen);
                const simint_multi_shellpair * hh[2] = {&c1.P, &c2.P};
                simint_cat_multi_shellpair(2, hh, &out.P, screen);
            }
            else
            {
                std::vector<const simint_multi_shellpair*> h;
                for(auto p : ps) h.push_back(&p->P);
                simint_cat_multi_shellpair((int)h.size(), h.data(), &out.P, screen);
            }
            for(auto p : ps) delete p;
        } break;
        case 4: // concatenation of single pairs
        {
            std::vector<Pairs*> ps;
            std::vector<const simint_multi_shellpair*> h;
            for(int i = 0; i < n; i++) { ps.push_back(new Pairs); sub(i, i+1, *ps.back()); h.push_back(&ps.back()->P); }
            simint_cat_shellpairs(n, h.data(), &out.P, screen);
            for(auto p : ps) delete p;
        } break;
        case 5: // object that held something else before
        {
            std::vector<simint_shell> a2(a), b2(b);
            for(int i = 0; i < r.i(1, 6); i++) { int k = r.i(n); a2.push_back(a[k]); b2.push_back(b[k]); }
            mkpairs(out, a2, b2, r.i(3));
            sub(0, n, out);
        } break;
    }
    return n;
}

static void mode_batch()
{
    for(auto & cl : classes())
    for(int cs = 0; cs < O.cases; cs++)
    for(int deriv = 0; deriv <= SIMINT_OSTEI_MAXDER; deriv++)
    {
        if(deriv && maxam4(cl[0],cl[1],cl[2],cl[3]) > SIMINT_OSTEI_DERIV1_MAXAM) continue;
        const uint64_t id = (((uint64_t)cl[0]*16+cl[1])*16+cl[2])*16+cl[3];
        Rng r(mix(O.seed, id*1000003 + cs*7 + deriv + 50000));
        int am[4] = {cl[0],cl[1],cl[2],cl[3]};
        const double cost = small_cost(am, deriv);
        GenOpt g;
        g.maxprim = cost > 60 ? 2 : cost > 8 ? 3 : 4;
        g.ereg = r.i(3) ? 0 : 1;
        const int NS = SIMINT_NSHELL_SIMD;
        const int kind = r.i(6);
        g.nb = kind == 0 ? r.i(NS-1, 2*NS+1) : kind == 1 ? r.i(1,4) : r.i(1,3);
        g.nk = kind == 0 ? r.i(1,3) : kind == 1 ? r.i(2*NS, 3*NS+2) : kind == 2 ? NS : r.i(1, NS+2);
        if(cost > 100) { g.nb = 1 + (kind == 0); g.nk = r.i(1, NS+2); }
        g.psame = 0.25;
        g.plong = cost < 3 ? 0.05 : 0;
        if(cost < (deriv ? 3 : 1.5) && r.p(0.08))
        {
            // hundreds of pairs on one side
            g.nb = r.i(1,3); g.nk = r.i(1,3);
            (r.i(2) ? g.nb : g.nk) = r.i(60, 600);
            g.maxprim = 2;
        }
        Batch b;
        gen_batch(r, b, am, g);
        const bool product = r.p(0.2);
        int mb = r.i(6), mk = r.i(6);
        if(product)
        {
            // lists of shells instead of lists of pairs: n1 x n2, second index fastest
            for(int side = 0; side < 2; side++)
            {
                ShellList & X = side ? b.C : b.A; ShellList & Y = side ? b.D : b.B;
                auto & gx = side ? b.gc : b.ga; auto & gy = side ? b.gd : b.gb;
                int & n = side ? b.nk : b.nb;
                std::vector<OShell> ox, oy, px, py;
                std::vector<simint_shell> hx, hy;
                const int n1 = r.i(1, std::min(3,(int)gx.size())), n2 = r.i(1, std::min(4,(int)gy.size()));
                for(int i = 0; i < n1; i++) for(int j = 0; j < n2; j++)
                {
                    px.push_back(X.o[i]); py.push_back(Y.o[j]);
                    hx.push_back(gx[i]); hy.push_back(gy[j]);
                }
                Pairs & dst = side ? b.Q : b.P;
                simint_create_multi_shellpair(n1, gx.data(), n2, gy.data(), &dst.P, 0);
                // a shell passed on both sides stays the same shell
                X.o = px; Y.o = py; gx = hx; gy = hy; n = n1*n2;
            }
            mb = mk = 9;
        }
        int scb = 0, sck = 0;
        if(!product)
        {
            scb = r.p(0.3) ? r.i(3) : 0; sck = r.p(0.3) ? r.i(3) : 0;
            if(maxam4(am[0],am[1],am[0],am[1]) > 2) scb = 0;
            if(maxam4(am[2],am[3],am[2],am[3]) > 2) sck = 0;
            assemble(r, b.ga, b.gb, b.P, mb, scb);
            assemble(r, b.gc, b.gd, b.Q, mk, sck);
        }
        const size_t nc = b.ncomp()*(deriv ? 12 : 1);
        // alone
        Guarded work(worksize(deriv, am));
        std::vector<double> alone(nc*b.nb*b.nk);
        {
            std::vector<Pairs> pp(b.nb), qq(b.nk);
            for(int i = 0; i < b.nb; i++) mkpairs(pp[i], {b.ga[i]}, {b.gb[i]});
            for(int j = 0; j < b.nk; j++) mkpairs(qq[j], {b.gc[j]}, {b.gd[j]});
            Guarded one(nc);
            for(int i = 0; i < b.nb; i++) for(int j = 0; j < b.nk; j++)
            {
                one.fill(NAN);
                const int ret = compute(deriv, pp[i].P, qq[j].P, 0.0, work.p(), one.p());
                if(ret != 1) R.viol("return:alone:" + b.cls(), "class %s: single quartet returned %d", b.cls().c_str(), ret);
                memcpy(&alone[nc*((size_t)i*b.nk+j)], one.p(), nc*sizeof(double));
            }
        }
        for(int round = 0; round < 3; round++)
        {
            int cb = b.nb, ck = b.nk;
            if(round) { cb = r.i(1, b.nb); ck = r.i(1, b.nk); }
            if(round == 2 && r.p(0.2)) (r.i(2) ? cb : ck) = 0;
            b.P.P.nshell12_clip = cb; b.Q.P.nshell12_clip = ck;
            Guarded out(nc*b.nb*b.nk + 1, NAN);
            const int ret = compute(deriv, b.P.P, b.Q.P, 0.0, work.p(), out.p());
            const std::string key = strf("%s%s", deriv ? "d" : "", b.cls().c_str());
            const std::string how = strf("nb %d nk %d clip %d %d assembled %d/%d screen %d/%d geo %d", b.nb, b.nk, cb, ck, mb, mk, scb, sck, b.geo);
            if(ret != cb*ck) { R.viol("return:" + key, "class %s %s: returned %d, expected %d", key.c_str(), how.c_str(), ret, cb*ck); continue; }
            if(out.damaged() != Guarded::LONG_MIN_) R.viol("outputbounds:" + key, "class %s %s: wrote outside the output", key.c_str(), how.c_str());
            for(size_t k = nc*cb*ck; k < out.n; k++)
                if(!std::isnan(out[k])) { R.viol("clip:" + key, "class %s %s: element %zu beyond the %d computed quartets was written", key.c_str(), how.c_str(), k, cb*ck); break; }
            R.add("batches");
            R.distinct.insert(strf("%s/%d.%d/%d", key.c_str(), mb, mk, (cb*3 > NS ? 1 : 0) + (ck > NS ? 2 : 0) + (ck % NS ? 4 : 0)));
            double spent = 0;
            const double budget = O.geti("budget", 1500);
            for(int i = 0; i < cb; i++) for(int j = 0; j < ck; j++)
            {
                const double * v = out.p() + nc*((size_t)i*ck+j);
                const double * u = &alone[nc*((size_t)i*b.nk+j)];
                R.add("quartets_compared");
                R.evals += nc;
                if(memcmp(v, u, nc*sizeof(double)) == 0) { R.add("quartets_bit_identical"); continue; }
                // differences must be rounding
                double mx = 0; bool bad = false; size_t wi = 0;
                for(size_t k = 0; k < nc; k++) { mx = std::max(mx, std::fabs(u[k])); if(!std::isfinite(v[k])) bad = true; }
                const double c = cost*pq(b, i, j);
                bool fine = !bad;
                for(size_t k = 0; k < nc && fine; k++) if(std::fabs(v[k]-u[k]) > 4*DBL_EPSILON*std::fabs(u[k])) fine = false;
                if(fine) continue;
                if(!bad && spent + c > budget && spent > 0)
                {
                    // gross errors only
                    for(size_t k = 0; k < nc; k++) if(std::fabs(v[k]-u[k]) > 1e-6*mx + 1e-200) { bad = true; wi = k; break; }
                    if(!bad) { R.add("quartets_compared_coarsely"); continue; }
                }
                spent += c;
                ORef ref;
                o_eri_scale(b.A.o[i], b.B.o[i], b.C.o[j], b.D.o[j], ref, deriv);
                double worst = 0;
                for(size_t k = 0; k < nc; k++)
                {
                    const double e = err_ratio(v[k], u[k], 0, ref.scale[k], 0);
                    if(e > worst) { worst = e; wi = k; }
                }
                R.mx("batch_minus_alone_over_eps_scale", worst);
                if(worst > O.K)
                    R.viol(strf("batch:%s", key.c_str()), "class %s %s quartet (%d,%d) element %zu: %.17g in the batch, %.17g alone (%.3g eps*scale); %s",
                           key.c_str(), how.c_str(), i, j, wi, v[wi], u[wi], worst, b.desc(i,j).c_str());
            }
        }
        // one object on both sides
        for(int side = 0; side < 2 && !product; side++)
        {
            auto & gx = side ? b.gc : b.ga; auto & gy = side ? b.gd : b.gb;
            const int n = std::min((int)gx.size(), cost > 8 ? 2 : NS+1);
            if((deriv ? 3 : 1)*cost*n*n > 3000 || !has_class(am[2*side], am[2*side+1])) continue;
            int am2[4] = {am[2*side],am[2*side+1],am[2*side],am[2*side+1]};
            const size_t nc2 = (size_t)ncart(am2[0])*ncart(am2[1])*ncart(am2[0])*ncart(am2[1])*(deriv ? 12 : 1);
            Pairs p, q;
            const std::vector<simint_shell> hx(gx.begin(), gx.begin()+n), hy(gy.begin(), gy.begin()+n);
            mkpairs(p, hx, hy); mkpairs(q, hx, hy);
            Guarded w2(worksize(deriv, am2)), o1(nc2*n*n, NAN), o2(nc2*n*n, NAN);
            const int r1 = compute(deriv, p.P, p.P, 0.0, w2.p(), o1.p()), r2 = compute(deriv, p.P, q.P, 0.0, w2.p(), o2.p());
            R.evals += nc2*n*n; R.add("calls_with_one_object_on_both_sides");
            if(r1 != r2 || memcmp(o1.p(), o2.p(), nc2*n*n*sizeof(double)))
                R.viol(strf("alias:%s%d%d", deriv ? "d" : "", am2[0], am2[1]), "a shell pair object (am %d %d, %d pairs) as bra and ket gives other results than two equal objects", am2[0], am2[1], n);
        }
        R.sample("class %s: %d x %d pairs assembled %d/%d, compared with single-quartet calls under three clips", b.cls().c_str(), b.nb, b.nk, mb, mk);
    }
}

// ------------------------------------------------------------------ C04
static double prim_est(const OShell & a, int i, const OShell & b, int j, int method, double * slack)
{
    *slack = 0;
    if(method == SIMINT_SCREEN_SCHWARZ)
    {
        double sc;
        const double d = o_prim_diag(a,i,b,j,&sc);
        *slack = O.K*DBL_EPSILON*sc;
        return d;
    }
    const double p = a.alpha[i]+b.alpha[j], rho = a.alpha[i]*b.alpha[j]/p;
    const double R2 = (a.x-b.x)*(a.x-b.x)+(a.y-b.y)*(a.y-b.y)+(a.z-b.z)*(a.z-b.z);
    const double g = std::sqrt(2.0)*std::pow(3.14159265358979323846, 2.5)*std::pow(1/p, 2.5)*std::exp(-2*rho*R2);
    const double v = g*a.coef[i]*a.coef[i]*b.coef[j]*b.coef[j];
    *slack = (100 + 10*2*rho*R2)*DBL_EPSILON*v + 1e-290;
    return v;
}

static void check_screen_values(const Batch & b, bool ket, int method)
{
    const ShellList & X = ket ? b.C : b.A; const ShellList & Y = ket ? b.D : b.B;
    const auto & gx = ket ? b.gc : b.ga; const auto & gy = ket ? b.gd : b.gb;
    for(size_t n = 0; n < gx.size(); n++)
    {
        const bool same = compare_shell(&gx[n], &gy[n]);
        const OShell & A = X.o[n]; const OShell & B = Y.o[n];
        std::vector<double> out(A.nprim()*B.nprim()+2, -7.0);
        const double m1 = simint_primscreen(&gx[n], &gy[n], out.data(), method);
        const double m2 = simint_primscreen(&gx[n], &gy[n], NULL, method);
        int idx = 0; double mx = 0;
        for(int i = 0; i < A.nprim(); i++) for(int j = 0; j < (same ? i+1 : B.nprim()); j++, idx++)
        {
            double sl;
            const double e = prim_est(A, i, B, j, method, &sl);
            R.evals++;
            if(!(std::fabs(out[idx]-e) <= sl + 1e-290))
                R.viol(strf("primscreen%d:%d%d", method, A.am, B.am), "primitive screening value %d of method %d is %.17g, expected %.17g +- %.2g; A=%s B=%s same %d", idx, method, out[idx], e, sl, show(A).c_str(), show(B).c_str(), same);
            mx = std::max(mx, out[idx]);
        }
        if(out[idx] != -7.0) R.viol("primscreen:overrun", "primscreen wrote more values than primitive pairs");
        if(m1 != mx || m2 != mx) R.viol("primscreen:max", "primscreen method %d returned %.17g/%.17g but the largest value is %.17g", method, m1, m2, mx);
        // whole shell
        if(method == SIMINT_SCREEN_SCHWARZ)
        {
            const double s = simint_shellscreen(&gx[n], &gy[n], method);
            ORef ref;
            o_eri(A, B, A, B, ref);
            double e = 0, sc = 0;
            for(size_t k = 0; k < ref.hi.size(); k++) { e = std::max(e, std::fabs(ref.hi[k])); sc = std::max(sc, ref.scale[k]+ref.extra[k]/DBL_EPSILON); }
            R.evals++;
            if(!(std::fabs(s-e) <= O.K*DBL_EPSILON*sc + 1e-290))
                R.viol(strf("shellscreen:%d%d", A.am, B.am), "shell screening value %.17g, largest (ab|ab) is %.17g; A=%s B=%s same %d", s, e, show(A).c_str(), show(B).c_str(), same);
        }
    }
}

static void mode_screen()
{
    long nchanged = 0, nfull = 0;
    for(auto & cl : classes())
    for(int cs = 0; cs < O.cases; cs++)
    for(int deriv = 0; deriv <= SIMINT_OSTEI_MAXDER; deriv++)
    {
        if(deriv && (maxam4(cl[0],cl[1],cl[2],cl[3]) > SIMINT_OSTEI_DERIV1_MAXAM)) continue;
        const uint64_t id = (((uint64_t)cl[0]*16+cl[1])*16+cl[2])*16+cl[3];
        Rng r(mix(O.seed, id*1000003 + cs*7 + deriv + 90000));
        int am[4] = {cl[0],cl[1],cl[2],cl[3]};
        const double cost = small_cost(am, deriv);
        GenOpt g;
        g.maxprim = cost > 60 ? 2 : cost > 8 ? 3 : 4;
        const int NS = SIMINT_NSHELL_SIMD;
        g.nb = r.i(1, 3); g.nk = r.p(0.3) ? r.i(NS, NS+2) : r.i(1, 4);
        g.psame = 0.3;
        g.ereg = r.i(4) ? 1 : 0;
        Batch b;
        gen_batch(r, b, am, g);
        const int method = (cs & 1) ? SIMINT_SCREEN_FASTSCHWARZ : SIMINT_SCREEN_SCHWARZ;
        int mb = r.i(6), mk = r.i(6);
        assemble(r, b.ga, b.gb, b.P, mb, method);
        assemble(r, b.gc, b.gd, b.Q, mk, method);
        if(!deriv) { check_screen_values(b, false, method); check_screen_values(b, true, method); }
        // stored estimates never understate the maximum
        for(int side = 0; side < 2; side++)
        {
            const simint_multi_shellpair & P = side ? b.Q.P : b.P.P;
            int idx = 0;
            for(int n = 0; n < P.nshell12; n++)
            {
                for(int k = 0; k < P.nprim12[n]; k++, idx++)
                    if(!(P.screen[idx] <= P.screen_max)) R.viol("screenmax", "screen_max %.17g is below a stored value %.17g", P.screen_max, P.screen[idx]);
                if(((n+1) % SIMINT_NSHELL_SIMD) == 0) idx = SIMINT_SIMD_ROUND(idx);
            }
        }
        const size_t nc = b.ncomp()*(deriv ? 12 : 1), ntot = nc*b.nb*b.nk;
        Guarded work(worksize(deriv, am)), un(ntot), sc(ntot);
        if(!run_batch(b, deriv, 0.0, work, un, b.nb*b.nk)) continue;
        // estimates of all primitive pairs, from scratch
        struct Est { std::vector<double> v, s; };
        auto ests = [&](const ShellList & X, const ShellList & Y)
        {
            std::vector<Est> e(X.o.size());
            for(size_t n = 0; n < X.o.size(); n++)
                for(int i = 0; i < X.o[n].nprim(); i++) for(int j = 0; j < Y.o[n].nprim(); j++)
                { double s; e[n].v.push_back(prim_est(X.o[n],i,Y.o[n],j,method,&s)); e[n].s.push_back(s); }
            return e;
        };
        std::vector<OShell> & bo = b.B.o; (void)bo;
        const auto eb = ests(b.A, b.B), ek = ests(b.C, b.D);
        // tolerances: around the estimates that occur
        std::vector<double> prods;
        for(auto & x : eb) for(double p : x.v) for(auto & y : ek) for(double q : y.v) prods.push_back(std::sqrt(p*q));
        std::sort(prods.begin(), prods.end());
        std::vector<double> tols{1e-150};
        for(int k = 0; k < 3; k++) { double t = prods[r.i((int)prods.size())]*r.u(0.5, 3); if(t > 1e-140 && std::isfinite(t)) tols.push_back(t); }
        tols.push_back(r.logu(1e-14, 1e-2));
        tols.push_back(prods.back()*(r.p(0.5) ? 1.5 : 0.8));
        // per-quartet primitive contributions for verification of a few quartets
        const int vi = r.i(b.nb), vj = r.i(b.nk);
        const OShell & A = b.A.o[vi]; const OShell & B = b.B.o[vi]; const OShell & C = b.C.o[vj]; const OShell & D = b.D.o[vj];
        struct Con { double est2, hi2; std::vector<double> a; };
        std::vector<Con> cons;
        std::vector<double> scale(nc, 0.0);
        const bool detail = cost*pq(b,vi,vj) < O.geti("budget", 3000);
        if(detail)
        {
            for(int i = 0; i < A.nprim(); i++) for(int j = 0; j < B.nprim(); j++)
            for(int k = 0; k < C.nprim(); k++) for(int l = 0; l < D.nprim(); l++)
            {
                OShell s[4] = {A,B,C,D}; int ix[4] = {i,j,k,l};
                for(int z = 0; z < 4; z++) { s[z].alpha = {s[z].alpha[ix[z]]}; s[z].coef = {s[z].coef[ix[z]]}; }
                ORef ref;
                if(deriv) o_eri_deriv(s[0],s[1],s[2],s[3],ref); else o_eri(s[0],s[1],s[2],s[3],ref);
                Con c;
                const Est & x = eb[vi]; const Est & y = ek[vj];
                const double p = x.v[i*B.nprim()+j], ps = x.s[i*B.nprim()+j], q = y.v[k*D.nprim()+l], qs = y.s[k*D.nprim()+l];
                c.est2 = std::max(0.0,p-ps)*std::max(0.0,q-qs);   // lower bound of the estimate product
                c.hi2 = (p+ps)*(q+qs);
                for(size_t n = 0; n < nc; n++) { c.a.push_back(std::fabs(ref.hi[n])); scale[n] += ref.scale[n]+ref.extra[n]/DBL_EPSILON; }
                cons.push_back(c);
            }
        }
        const double tiny = 1e-140;
        for(double tol : tols)
        {
            sc.fill(NAN);
            const int ret = compute(deriv, b.P.P, b.Q.P, tol, work.p(), sc.p());
            const std::string key = strf("%s%d:%s", deriv ? "d" : "", method, b.cls().c_str());
            R.add("screened_calls");
            R.distinct.insert(strf("%s/%d", key.c_str(), (int)std::log10(tol)));
            if(ret == -1) { nfull++; for(size_t k = 0; k < ntot; k++) sc[k] = 0; }
            else if(ret != b.nb*b.nk) { R.viol("return:" + key, "class %s tol %g: returned %d", key.c_str(), tol, ret); continue; }
            if(sc.damaged() != Guarded::LONG_MIN_) R.viol("outputbounds:" + key, "class %s: wrote outside the output", key.c_str());
            bool changed = false;
            // bound for every integral
            for(int i = 0; i < b.nb; i++) for(int j = 0; j < b.nk; j++)
            {
                const double np = (double)pq(b,i,j);
                for(size_t k = 0; k < nc; k++)
                {
                    const size_t n = ((size_t)i*b.nk+j)*nc+k;
                    const double dv = std::fabs(sc[n]-un[n]);
                    if(dv != 0) changed = true;
                    R.evals++;
                    // without the Schwarz inequality (derivatives, fast method) only finite is asked here
                    const double lim = (deriv || method != SIMINT_SCREEN_SCHWARZ) ? INFINITY : tol*np*(1+1e-6) + 1e-9*std::fabs(un[n]);
                    if(!(dv <= lim) && (std::isnan(dv) || dv > lim))
                    {
                        // rounding?
                        ORef ref;
                        if(!std::isnan(dv) && !deriv)
                        {
                            o_eri_scale(b.A.o[i], b.B.o[i], b.C.o[j], b.D.o[j], ref, false);
                            if(dv <= tol*np*(1+1e-6) + O.K*DBL_EPSILON*ref.scale[k] + ref.extra[k] + tiny) continue;
                        }
                        R.viol("dropped:" + key, "class %s tol %g: %.17g with screening, %.17g without (limit %g); assembled %d/%d; %s", key.c_str(), tol, sc[n], un[n], lim, mb, mk, b.desc(i,j).c_str());
                        k = nc; // one report per quartet
                    }
                }
            }
            if(changed) nchanged++;
            if(tol == 1e-150) R.add("tiny_tolerance_calls");
            // only primitive quartets below the tolerance may be missing
            if(detail)
            {
                const double * s = sc.p() + ((size_t)vi*b.nk+vj)*nc, * u = un.p() + ((size_t)vi*b.nk+vj)*nc;
                for(size_t k = 0; k < nc; k++)
                {
                    double may = 0;
                    for(auto & c : cons) if(c.est2 < tol*tol*(1+1e-9)) may += c.a[k];
                    const double lim = may*(1+1e-6) + O.K*DBL_EPSILON*scale[k] + tiny;
                    R.evals++;
                    if(!(std::fabs(s[k]-u[k]) <= lim))
                    {
                        R.viol("overscreened:" + key, "class %s method %d tol %g: screening changed %.17g to %.17g but droppable contributions sum to %.3g; assembled %d/%d; %s", key.c_str(), method, tol, u[k], s[k], may, mb, mk, b.desc(vi,vj).c_str());
                        break;
                    }
                }
                R.add("quartets_bounded_by_primitives");
            }
        }
        R.sample("class %s method %d deriv %d: %zu tolerances from %g to %g, droppable contributions bounded per primitive quartet", b.cls().c_str(), method, deriv, tols.size(), 1e-150, tols.back());
    }
    R.add("calls_in_which_something_was_dropped", nchanged);
    R.add("calls_screened_out_entirely", nfull);
}

// ------------------------------------------------------------------ C05
static void mode_mem()
{
    install_segv();
    for(auto & cl : classes())
    for(int cs = 0; cs < O.cases; cs++)
    for(int deriv = 0; deriv <= SIMINT_OSTEI_MAXDER; deriv++)
    {
        if(deriv && maxam4(cl[0],cl[1],cl[2],cl[3]) > SIMINT_OSTEI_DERIV1_MAXAM) continue;
        const uint64_t id = (((uint64_t)cl[0]*16+cl[1])*16+cl[2])*16+cl[3];
        Rng r(mix(O.seed, id*1000003 + cs*7 + deriv + 120000));
        int am[4] = {cl[0],cl[1],cl[2],cl[3]};
        GenOpt g;
        g.maxprim = r.p(0.2) ? 6 : 3;
        const int NS = SIMINT_NSHELL_SIMD;
        g.nb = r.i(1, 3); g.nk = r.i(3) == 0 ? r.i(NS-1, 2*NS+1) : r.i(1, 4);
        g.psame = 0.3;
        const int scr = (O.geti("noscreen", 0) || maxam4(am[0],am[1],am[2],am[3]) > 3) ? 0 : r.i(3);
        g.screen = scr;
        Batch b;
        gen_batch(r, b, am, g);
        const bool atend = !r.p(0.35);
        const size_t nc = b.ncomp()*(deriv ? 12 : 1);
        // half of the callers use the aligned allocation of the examples, the
        // others any array of doubles of the documented size
        const bool aligned = r.p(0.4);
        const size_t wn = aligned && r.p(0.7) ? simint_ostei_worksize(deriv, maxam4(am[0],am[1],am[2],am[3])) : worksize(deriv, am);
        if(simint_eri_workmem(deriv, maxam4(am[0],am[1],am[2],am[3])) < worksize(deriv, am)*sizeof(double))
            R.viol("workmem", "simint_eri_workmem is less than worksize doubles");
        snprintf(g_what, sizeof(g_what), "%s%s", deriv ? "d" : "", b.cls().c_str());
        GuardPages work(wn*sizeof(double), atend, "workspace", aligned ? 64 : 8, aligned ? 0 : 8*r.i(8)), out(nc*b.nb*b.nk*sizeof(double), atend, "output", 8, 8*r.i(8));
        b.P.P.nshell12_clip = r.p(0.3) ? r.i(1, b.nb) : b.nb;
        b.Q.P.nshell12_clip = r.p(0.3) ? r.i(1, b.nk) : b.nk;
        ROPair P(b.P.P, atend, "bra shell pairs"), Q(b.Q.P, atend, "ket shell pairs");
        const size_t want = nc*b.P.P.nshell12_clip*b.Q.P.nshell12_clip;
        uint64_t pat = 0x7ff4a5a5deadbeefull;
        for(size_t i = 0; i < out.bytes/8; i++) memcpy(out.data+8*i, &pat, 8);
        const double tol = scr ? (r.p(0.5) ? 0.0 : r.logu(1e-14,1e-3)) : 0.0;
        const int ret = compute(deriv, P.P, Q.P, tol, work.d(), out.d());
        R.add("calls"); R.evals++;
        R.distinct.insert(strf("%s/%d/%d", g_what, scr, atend));
        if(ret != -1)
        {
            for(size_t i = 0; i < out.bytes/8; i++)
            {
                const bool pristine = memcmp(out.data+8*i, &pat, 8) == 0;
                if(i < want && pristine) { R.viol(strf("unwritten:%s", g_what), "%s: promised output element %zu of %zu was not written", g_what, i, want); break; }
                if(i < want && !std::isfinite(out.d()[i])) { R.viol(strf("nonfinite:%s", g_what), "%s: output element %zu is %g; %s", g_what, i, out.d()[i], b.desc(0,0).c_str()); break; }
                if(i >= want && !pristine) { R.viol(strf("extra:%s", g_what), "%s: wrote output element %zu beyond the promised %zu", g_what, i, want); break; }
            }
            R.add("output_elements", (double)want);
        }
        if(!work.intact()) R.viol(strf("work:%s", g_what), "%s: wrote outside the workspace of %zu doubles", g_what, wn);
        if(!out.intact()) R.viol(strf("output:%s", g_what), "%s: wrote outside the output", g_what);
        R.add("workspace_bytes_guarded", (double)wn*8);
        R.sample("%s: workspace of exactly %zu doubles and output of %zu between guard pages, inputs read-only, screening %d tol %g", g_what, wn, out.bytes/8, scr, tol);
    }
}

// ------------------------------------------------------------------ C06
// The same objects, at the same addresses, with other contents: everything
// computed from them must be what new objects with these contents give.
static void everything(Batch & b, int deriv, int method, bool scr, bool one, std::vector<double> & o)
{
    o.clear();
    mkpairs(b.P, b.ga, b.gb, method);
    mkpairs(b.Q, b.gc, b.gd, method);
    for(int side = 0; side < 2; side++)
    {
        simint_shell * x = side ? &b.gc[0] : &b.ga[0], * y = side ? &b.gd[0] : &b.gb[0];
        if(scr) for(int m = 1; m <= 2; m++)
        {
            const size_t n = compare_shell(x, y) ? (size_t)x->nprim*(x->nprim+1)/2 : (size_t)x->nprim*y->nprim;
            std::vector<double> e(n);
            o.push_back(simint_primscreen(x, y, e.data(), m));
            o.insert(o.end(), e.begin(), e.end());
            o.push_back(simint_shellscreen(x, y, m));
        }
        if(one)
        {
            const size_t n = (size_t)ncart(x->am)*ncart(y->am);
            double Z[2] = {1, 2.5}, c[3] = {0.3, -1, 0.7};
            std::vector<double> e(3*n);
            simint_compute_overlap(x, y, e.data()); simint_compute_ke(x, y, e.data()+n);
            simint_compute_potential(2, Z, c, c+1, c, x, y, e.data()+2*n);
            o.insert(o.end(), e.begin(), e.end());
        }
    }
    const size_t n = b.ncomp()*(deriv ? 12 : 1)*b.nb*b.nk;
    Guarded work(worksize(deriv, b.am), 0.0), out(n, 0.0);
    const int ret = compute(deriv, b.P.P, b.Q.P, 0.0, work.p(), out.p());
    o.push_back(ret);
    o.insert(o.end(), out.p(), out.p()+n);
}
static void in_place(Rng & r, const int am[4], int deriv)
{
    GenOpt g;
    g.maxprim = 3; g.nb = r.i(1,2); g.nk = r.i(1,2); g.psame = 0.3; g.ereg = r.i(2);
    Batch b;
    gen_batch(r, b, am, g);
    // (diagonal classes must be there for the Schwarz estimates)
    const bool scr = maxam4(am[0],am[1],am[2],am[3]) <= 3 && has_class(am[0],am[1]) && has_class(am[2],am[3]), one = maxam4(am[0],am[1],am[2],am[3]) <= 5;
    const int method = scr ? r.i(3) : 0;
    std::vector<double> v, w;
    for(int t = 0; t < 4; t++)
    {
        std::string what = "nothing";
        if(t)
        {
            const int side = r.i(4);
            auto & S = side == 0 ? b.ga : side == 1 ? b.gb : side == 2 ? b.gc : b.gd;
            simint_shell & s = S[r.p(0.7) ? 0 : r.i((int)S.size())];
            const int k = r.p(0.5) ? s.nprim-1 : r.i(s.nprim), kind = r.i(4);
            if(kind == 0) { s.coef[k] *= -0.75; what = "coefficient"; }
            if(kind == 1) { s.alpha[k] *= r.p(0.5) ? 1.25 : 1+1e-6; what = "exponent"; }
            if(kind == 2) { double * c = r.i(3) == 0 ? &s.x : r.i(2) ? &s.y : &s.z; *c += r.p(0.5) ? 0.5 : 1e-5; what = "centre"; }
            if(kind == 3) { if(s.nprim > 1) s.nprim--; else s.coef[0] *= 1.5; what = "number of primitives"; }
        }
        everything(b, deriv, method, scr, one, v);
        // the same contents elsewhere
        {
            Batch f;
            for(int k = 0; k < 4; k++) f.am[k] = am[k];
            f.nb = b.nb; f.nk = b.nk;
            const std::vector<simint_shell> * from[4] = {&b.ga,&b.gb,&b.gc,&b.gd};
            std::vector<simint_shell> * to[4] = {&f.ga,&f.gb,&f.gc,&f.gd};
            // (shells that share memory keep sharing it)
            std::map<void *, std::vector<double>> mem;
            for(int k = 0; k < 4; k++) for(auto s : *from[k])
            {
                double * old = (double *)s.ptr;
                auto & m = mem[s.ptr];
                if(m.empty()) m.assign(old, old + s.memsize/sizeof(double));
                s.ptr = m.data();
                s.alpha = m.data() + (s.alpha-old); s.coef = m.data() + (s.coef-old);
                to[k]->push_back(s);
            }
            everything(f, deriv, method, scr, one, w);
        }
        R.evals += v.size();
        R.add("objects_changed_in_place");
        if(v.size() != w.size() || memcmp(v.data(), w.data(), v.size()*sizeof(double)))
        {
            size_t i = 0;
            while(i < v.size() && i < w.size() && !memcmp(&v[i], &w[i], 8)) i++;
            R.viol(strf("inplace:%s%s", deriv ? "d" : "", b.cls().c_str()), "class %s, derivative %d: after changing a %s in place, value %zu of %zu is %.17g, but %.17g from new objects with the same contents", b.cls().c_str(), deriv, what.c_str(), i, v.size(), i < v.size() ? v[i] : 0, i < w.size() ? w[i] : 0);
        }
    }
}

static void mode_pure()
{
    const double fills[] = {0.0, NAN, INFINITY, -1e300, 1e-310};
    struct Keep { Batch * b; int deriv; double tol; std::vector<double> out; int ret; uint64_t h; };
    std::vector<Keep> keep;
    auto pairhash = [](const Batch & b)
    {
        uint64_t h = 7;
        for(auto P : {&b.P.P, &b.Q.P}) { h = hash_bytes(P->ptr, P->memsize, h); h = hash_bytes(P, sizeof(*P), h); }
        for(auto L : {&b.ga, &b.gb, &b.gc, &b.gd}) for(auto & s : *L) { h = hash_bytes(&s, sizeof(s), h); h = hash_bytes(s.ptr, 2*s.nprim*sizeof(double), h); }
        return h;
    };
    auto once = [&](Keep & k, double fw, double fo, int stk, std::vector<double> & res)
    {
        Guarded work(worksize(k.deriv, k.b->am), fw);
        const size_t n = k.b->ncomp()*(k.deriv ? 12 : 1)*k.b->nb*k.b->nk;
        Guarded out(n, fo);
        poison_stack((unsigned char)stk);
        const int ret = compute(k.deriv, k.b->P.P, k.b->Q.P, k.tol, work.p(), out.p());
        res.assign(out.p(), out.p()+(ret > 0 ? n : 0));
        return ret;
    };
    Rng rr(mix(O.seed, 4711+O.shard));
    const unsigned fp0 = g_fp0;
    auto recheck = [&](Keep & k, const char * when)
    {
        std::vector<double> v;
        const double fw = fills[rr.i(5)], fo = fills[rr.i(5)];
        const int stk = rr.i(4)*85;
        const int ret = once(k, fw, fo, stk, v);
        R.evals++;
        R.add("repetitions");
        if(fpmode() != fp0) R.viol("fpmode", "the floating-point mode of the thread has changed from %x to %x", fp0, fpmode());
        const std::string key = strf("%s%s", k.deriv ? "d" : "", k.b->cls().c_str());
        if(ret != k.ret || v.size() != k.out.size() || (v.size() && memcmp(v.data(), k.out.data(), v.size()*sizeof(double))))
        {
            size_t w = 0;
            while(w+1 < v.size() && w+1 < k.out.size() && !memcmp(&v[w], &k.out[w], 8)) w++;
            R.viol("repeat:" + key, "class %s: a repeated call (%s; workspace filled with %g, output with %g) returned %d instead of %d or differs at element %zu: %.17g vs %.17g; geo %d; %s", key.c_str(), when, fw, fo, ret, k.ret, w,
                   v.size() ? v[w] : 0, k.out.size() ? k.out[w] : 0, k.b->geo, k.b->desc(0,0).c_str());
        }
        if(pairhash(*k.b) != k.h) { R.viol("inputs:" + key, "class %s: the call changed its shells or shell pairs", key.c_str()); k.h = pairhash(*k.b); }
    };
    for(auto & cl : classes())
    for(int cs = 0; cs < O.cases; cs++)
    for(int deriv = 0; deriv <= SIMINT_OSTEI_MAXDER; deriv++)
    {
        if(deriv && maxam4(cl[0],cl[1],cl[2],cl[3]) > SIMINT_OSTEI_DERIV1_MAXAM) continue;
        const uint64_t id = (((uint64_t)cl[0]*16+cl[1])*16+cl[2])*16+cl[3];
        Rng r(mix(O.seed, id*1000003 + cs*7 + deriv + 150000));
        int am[4] = {cl[0],cl[1],cl[2],cl[3]};
        GenOpt g;
        g.maxprim = 3; g.nb = r.i(1,2); g.nk = r.i(4) == 0 ? SIMINT_NSHELL_SIMD+r.i(3) : r.i(1,3);
        g.screen = maxam4(am[0],am[1],am[2],am[3]) > 3 ? 0 : r.i(3);
        Keep k;
        k.b = new Batch;
        mallopt(M_PERTURB, 0x5A);
        gen_batch(r, *k.b, am, g);
        k.deriv = deriv; k.tol = g.screen ? (r.p(0.5) ? 0.0 : r.logu(1e-14,1e-3)) : 0.0;
        k.h = pairhash(*k.b);
        k.ret = once(k, 0.0, 0.0, 0, k.out);
        if(pairhash(*k.b) != k.h) { R.viol("inputs:" + k.b->cls(), "class %s: the call changed its shells or shell pairs", k.b->cls().c_str()); k.h = pairhash(*k.b); }
        R.distinct.insert(strf("%s%s/%d", deriv ? "d" : "", k.b->cls().c_str(), g.screen));
        recheck(k, "immediately after");
        recheck(k, "again");
        // screening and creation: repeat with other heap contents
        if(!deriv && maxam4(am[0],am[1],am[2],am[3]) <= 3)
        {
            for(int meth = 1; meth <= 2; meth++)
            {
                double v[2], s[2]; std::vector<double> o[2];
                for(int t = 0; t < 2; t++)
                {
                    mallopt(M_PERTURB, t ? 0x11 : 0xEE);
                    poison_stack(t ? 0xFF : 0x00);
                    o[t].assign(k.b->A.o[0].nprim()*k.b->B.o[0].nprim(), t ? NAN : 3.0);
                    v[t] = simint_primscreen(&k.b->ga[0], &k.b->gb[0], o[t].data(), meth);
                    s[t] = simint_shellscreen(&k.b->ga[0], &k.b->gb[0], meth);
                    if(compare_shell(&k.b->ga[0], &k.b->gb[0])) o[t].resize(k.b->A.o[0].nprim()*(k.b->A.o[0].nprim()+1)/2);
                }
                R.evals++;
                if(memcmp(v, v+1, 8) || memcmp(s, s+1, 8) || memcmp(o[0].data(), o[1].data(), o[0].size()*8))
                    R.viol(strf("screenrepeat:%d:%d%d", meth, am[0], am[1]), "repeated screening of %s %s by method %d differs: %.17g %.17g / %.17g %.17g", show(k.b->A.o[0]).c_str(), show(k.b->B.o[0]).c_str(), meth, v[0], v[1], s[0], s[1]);
                if(pairhash(*k.b) != k.h) { R.viol("inputs:screen", "screening changed its shells"); k.h = pairhash(*k.b); }
            }
        }
        // Boys function
        {
            SIMINT_DBLTYPE F1[25], F2[25], x;
            double xd[SIMINT_SIMD_LEN];
            for(int l = 0; l < SIMINT_SIMD_LEN; l++) xd[l] = r.p(0.5) ? r.u(0, 40) : r.logu(1e-6, 1e5);
            memcpy(&x, xd, sizeof(xd));
            const int n = r.i(0, 24);
            memset(F1, 0, sizeof(F1)); memset(F2, 0xff, sizeof(F2));
            boys_F_split(F1, x, n);
            poison_stack(0x7f);
            boys_F_split(F2, x, n);
            R.evals++;
            if(memcmp(F1, F2, (n+1)*sizeof(SIMINT_DBLTYPE))) R.viol("boysrepeat", "boys_F_split n %d x0 %.17g differs between identical calls", n, xd[0]);
        }
        in_place(rr, am, deriv);
        keep.push_back(k);
        if(keep.size() > 12) { const int z = rr.i((int)keep.size()); recheck(keep[z], "after calls of other classes"); recheck(keep[rr.i((int)keep.size())], "after calls of other classes"); }
        if(keep.size() > 60) { const int z = rr.i((int)keep.size()); delete keep[z].b; keep.erase(keep.begin()+z); }
        R.sample("%s%s: %d bra x %d ket pairs, screening %d: results bit-identical on repetition with other buffer, stack and heap contents", deriv ? "d" : "", k.b->cls().c_str(), k.b->nb, k.b->nk, g.screen);
    }
    // on another thread, in another order
    std::thread t([&]{ for(size_t i = keep.size(); i-- > 0; ) recheck(keep[i], "on another thread"); });
    t.join();
    for(int rep = 0; rep < 2; rep++) { simint_init(); for(auto & k : keep) recheck(k, "at the end"); }
    for(auto & k : keep) delete k.b;
}

static bool batch_modes()
{
    if(O.mode == "batch") mode_batch();
    else if(O.mode == "screen") mode_screen();
    else if(O.mode == "mem") mode_mem();
    else if(O.mode == "pure") mode_pure();
    else return false;
    return true;
}
