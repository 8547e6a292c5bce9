// Monitors for the two-electron integrals and their first derivatives.
#include "gen.hpp"
#include <cfenv>

static Report R;
static Opts O;

static int compute(int deriv, const simint_multi_shellpair & P, const simint_multi_shellpair & Q, double tol, double * work, double * out)
{
    if(deriv == 0) return simint_compute_eri(&P, &Q, tol, work, out);
    return simint_compute_eri_deriv(deriv, &P, &Q, tol, work, out);
}

static std::vector<std::vector<int>> classes()
{
    std::vector<std::vector<int>> v;
    int n = 0;
    for(int a = 0; a <= O.lmax; a++) for(int b = 0; b <= O.lmax; b++)
    for(int c = 0; c <= O.lmax; c++) for(int d = 0; d <= O.lmax; d++)
    {
        if(maxam4(a,b,c,d) < O.lmin) continue;
        if(O.kv.count("classes"))
        {
            bool in = false;
            for(int s = 0; s < 8 && !in; s++)
            {
                int r[4] = {a,b,c,d};
                if(s & 1) std::swap(r[0], r[1]);
                if(s & 2) std::swap(r[2], r[3]);
                if(s & 4) { std::swap(r[0], r[2]); std::swap(r[1], r[3]); }
                in = O.kv["classes"].find(strf("%d%d%d%d;", r[0], r[1], r[2], r[3])) != std::string::npos;
            }
            if(!in) continue;
        }
        if((n++ % O.nshard) == O.shard) v.push_back({a,b,c,d});
    }
    // sample, if asked for
    int mx = O.geti("maxclasses", 0);
    if(mx && (int)v.size() > mx)
    {
        Rng r(mix(O.seed, 77+O.shard));
        for(size_t i = 0; i < v.size(); i++) std::swap(v[i], v[i + r.i((int)(v.size()-i))]);
        v.resize(mx);
    }
    return v;
}

static double ref_cost(const int am[4], bool deriv)
{
    // rough model, in units of 1e-4 s
    const double L = am[0]+am[1]+am[2]+am[3]+(deriv ? 1 : 0);
    return 0.2*std::pow(1.75, L)*(deriv ? 4 : 1);
}

// compare one quartet of the output against the reference
static void verify(const Batch & b, int i, int j, const double * out, bool deriv, double K, const char * what)
{
    ORef ref;
    if(deriv) o_eri_deriv(b.A.o[i], b.B.o[i], b.C.o[j], b.D.o[j], ref);
    else o_eri(b.A.o[i], b.B.o[i], b.C.o[j], b.D.o[j], ref);
    const size_t n = ref.hi.size();
    const double * v = out + ((size_t)i*b.nk + j)*n;
    double worst = 0; size_t wi = 0;
    for(size_t k = 0; k < n; k++)
    {
        const double e = err_ratio(v[k], ref.hi[k], ref.lo[k], ref.scale[k], ref.extra[k]);
        if(e > worst) { worst = e; wi = k; }
    }
    R.evals += n;
    R.add("quartets_verified");
    R.mx(std::string("error_over_eps_scale_") + what, worst);
    if(worst > K)
        R.viol(strf("%s:%s:%s", what, b.cls().c_str(), std::isinf(worst) ? "nonfinite" : "value"),
               "class %s element %zu: got %.17g expected %.17g, error %.3g times eps*scale (limit %.3g, scale %.3g); geo %d; %s",
               b.cls().c_str(), wi, v[wi], ref.hi[wi], worst, K, ref.scale[wi], b.geo, b.desc(i,j).c_str());
    if(deriv)
    {
        // translational invariance
        for(size_t c = 0; c < n/12; c++)
            for(int k = 0; k < 3; k++)
            {
                const double s = v[12*c+k]+v[12*c+3+k]+v[12*c+6+k]+v[12*c+9+k];
                double sc = 0, ex = 0;
                for(int z = 0; z < 4; z++) { sc += ref.scale[12*c+3*z+k]; ex += ref.extra[12*c+3*z+k]; }
                const double e = err_ratio(s, 0, 0, sc, ex);
                R.mx("deriv_sum_over_centres", e);
                if(e > K) R.viol("derivsum:" + b.cls(), "class %s component %zu dir %d: derivatives sum to %.17g; %s", b.cls().c_str(), c, k, s, b.desc(i,j).c_str());
            }
    }
    if(R.nsample < 3 && O.shard == 0)
        R.sample("%s class %s geo %d: element %zu = %.17g, reference %.17g, worst error %.3g eps*scale; %s", what, b.cls().c_str(), b.geo, wi, v[wi], ref.hi[wi], worst, b.desc(i,j).substr(0, 600).c_str());
}

static const size_t NOCOUNT = (size_t)-1;

// run one batch with guards; returns output
static bool run_batch(Batch & b, int deriv, double tol, Guarded & work, Guarded & out, int expect)
{
    const int ret = compute(deriv, b.P.P, b.Q.P, tol, work.p(), out.p());
    if(ret != expect)
    {
        R.viol("return:" + b.cls(), "class %s deriv %d: returned %d, expected %d (%d bra x %d ket pairs)", b.cls().c_str(), deriv, ret, expect, b.nb, b.nk);
        return ret > 0;
    }
    return true;
}

static size_t worksize(int deriv, const int am[4]) { return simint_eri_worksize(deriv, maxam4(am[0],am[1],am[2],am[3])); }

// C01, C02, C19
static void mode_values(bool deriv, int zero)
{
    const double K = O.K;
    for(auto & cl : classes())
    for(int cs = 0; cs < O.cases; cs++)
    {
        if(deriv && maxam4(cl[0],cl[1],cl[2],cl[3]) > SIMINT_OSTEI_DERIV1_MAXAM) continue;
        uint64_t id = (((uint64_t)cl[0]*16+cl[1])*16+cl[2])*16+cl[3];
        Rng r(mix(O.seed, id*1000003 + cs*7 + (deriv ? 1 : 0) + 2*zero));
        GenOpt g;
        int am[4] = {cl[0],cl[1],cl[2],cl[3]};
        std::vector<int> masks{0};
        if(zero)
        {
            masks.clear();
            // a dummy on one side, or one on each side; only s positions
            for(int m = 1; m < 16; m++)
            {
                if((m & 3) == 3 || (m & 12) == 12) continue;
                bool ok = true;
                for(int k = 0; k < 4; k++) if(((m >> k) & 1) && am[k] != 0) ok = false;
                if(ok) masks.push_back(m);
            }
        }
        for(int mask : masks)
        {
        g.zeromask = mask;
        const double cost = ref_cost(am, deriv);
        const double budget = O.geti("budget", 300)*(deriv ? 1.5 : 1.0); // units of 1e-4 s per case
        g.maxprim = cost > 200 ? 2 : cost > 20 ? 3 : 4;
        if(r.p(0.05) && cost < 2) g.maxprim = 7;
        g.plong = cost < 3 ? 0.08 : 0;
        Batch b;
        gen_batch(r, b, am, g);
        const size_t nc = b.ncomp()*(deriv ? 12 : 1);
        Guarded work(worksize(deriv, am)), out(nc*b.nb*b.nk);
        if(!run_batch(b, deriv, 0.0, work, out, b.nb*b.nk)) continue;
        if(out.damaged() != Guarded::LONG_MIN_) R.viol("outputbounds:" + b.cls(), "class %s: wrote outside the output", b.cls().c_str());
        R.add("batches");
        R.add("quartets_computed", b.nb*b.nk);
        R.distinct.insert(strf("%s%s/g%d/e%d/%d", deriv ? "d" : "", b.cls().c_str(), b.geo, b.ereg, mask));
        // verify a sample, the last one always
        double spent = 0;
        std::vector<std::pair<int,int>> todo{{b.nb-1,b.nk-1}};
        for(int k = 0; k < 12; k++) todo.push_back({r.i(b.nb), r.i(b.nk)});
        std::set<std::pair<int,int>> seen;
        for(auto & t : todo)
        {
            if(seen.count(t)) continue;
            const double c = cost*pq(b, t.first, t.second);
            if(spent > 0 && spent + c > budget) continue;
            seen.insert(t);
            spent += c;
            verify(b, t.first, t.second, out.p(), deriv, K, zero ? (deriv ? "zeroderiv" : "zero") : (deriv ? "deriv" : "eri"));
        }
        // everything must at least be finite
        for(size_t k = 0; k < nc*b.nb*b.nk; k++)
            if(!std::isfinite(out[k])) { R.viol("nonfinite:" + b.cls(), "class %s: element %zu of the batch is %g", b.cls().c_str(), k, out[k]); break; }
        }
    }
}

// C13: every class answers, and agrees with itself under exchange of bra and ket
static void mode_avail()
{
    for(int deriv = 0; deriv <= (SIMINT_OSTEI_MAXDER > 0 ? 1 : 0); deriv++)
    for(auto & cl : classes())
    {
        if(deriv && maxam4(cl[0],cl[1],cl[2],cl[3]) > SIMINT_OSTEI_DERIV1_MAXAM) continue;
        uint64_t id = (((uint64_t)cl[0]*16+cl[1])*16+cl[2])*16+cl[3];
        Rng r(mix(O.seed, id*31 + deriv));
        int am[4] = {cl[0],cl[1],cl[2],cl[3]};
        Batch b;
        b.nb = b.nk = 1; b.geo = 0; b.ereg = 0;
        std::vector<simint_shell> * gs[4] = {&b.ga, &b.gb, &b.gc, &b.gd};
        ShellList * ls[4] = {&b.A, &b.B, &b.C, &b.D};
        for(int k = 0; k < 4; k++)
        {
            OShell s;
            b.am[k] = s.am = am[k];
            s.x = r.u(-1, 1); s.y = r.u(-1, 1); s.z = r.u(-1, 1);
            s.alpha = {r.logu(0.4, 2)}; s.coef = {r.u(0.5, 2)};
            ls[k]->add(s);
            gs[k]->push_back(ls[k]->g.back());
        }
        b.rebuild_pairs(0);
        const size_t nc = b.ncomp()*(deriv ? 12 : 1);
        const int m = deriv ? 12 : 1;
        Guarded work(worksize(deriv, am)), out(nc), out2(nc);
        if(!run_batch(b, deriv, 0.0, work, out, 1)) continue;
        const int ret = compute(deriv, b.Q.P, b.P.P, 0.0, work.p(), out2.p());
        if(ret != 1) { R.viol("return:" + b.cls(), "class %s exchanged, deriv %d: returned %d", b.cls().c_str(), deriv, ret); continue; }
        // the largest element sets the scale: single primitives, moderate exponents
        double big = 0;
        for(size_t k = 0; k < nc; k++) big = std::max(big, std::fabs(out[k]));
        const int nbra = ncart(am[0])*ncart(am[1]), nket = ncart(am[2])*ncart(am[3]);
        bool bad = !(big > 0) || !std::isfinite(big);
        double worst = 0;
        for(int i = 0; i < nbra; i++) for(int j = 0; j < nket; j++) for(int k = 0; k < m; k++)
        {
            const double x = out[((size_t)i*nket+j)*m + k], y = out2[((size_t)j*nbra+i)*m + (k+6)%m];
            if(!std::isfinite(x) || !std::isfinite(y)) bad = true;
            worst = std::max(worst, std::fabs(x-y));
        }
        R.evals += nc;
        R.add("classes_answering");
        R.mx("exchange_error_over_largest", worst/big);
        R.distinct.insert(strf("%s%s", deriv ? "d" : "", b.cls().c_str()));
        if(bad || worst > 1e-6*big)
            R.viol("avail:" + b.cls(), "class %s deriv %d: elements up to %.17g, differ by %.3g from the exchanged quartet; %s", b.cls().c_str(), deriv, big, worst, b.desc(0,0).c_str());
    }
}

#include "mon_eri_batch.hpp"

int main(int argc, char ** argv)
{
    O = parse(argc, argv);
    O.K = O.kv.count("K") ? atof(O.kv["K"].c_str()) : 200;
    simint_init();
    if(O.mode == "eri") mode_values(false, 0);
    else if(O.mode == "deriv") mode_values(true, 0);
    else if(O.mode == "zero") { mode_values(false, 1); if(SIMINT_OSTEI_MAXDER > 0) mode_values(true, 1); }
    else if(O.mode == "avail") mode_avail();
    else if(!batch_modes()) { fprintf(stderr, "unknown mode\n"); return 3; }
    simint_finalize();
    return R.done();
}
