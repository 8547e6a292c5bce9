// C12: Boys function values in every lane.
#include "mon.hpp"
#include "simint/boys/boys.h"

static Report R;

static double pickx(Rng & r)
{
    static const double border = BOYS_SHORTGRID_MAXX;
    double x;
    switch(r.i(12))
    {
        case 0: return r.u(0, 40);
        case 1: return r.u(0, 3);
        case 2: return r.logu(1e-300, 1);
        case 3: return r.logu(1e-12, 1e-2);
        case 4: x = 0.1*r.i(366); break;                 // grid points
        case 5: x = 0.1*r.i(366) + 0.05; break;          // half way
        case 6: x = border; break;
        case 7: return r.u(border-0.2, border+0.2);
        case 8: return r.logu(36, 200);
        case 9: return r.logu(100, 1e8);
        case 10: return r.p(0.3) ? 0.0 : r.u(30, 37);
        default: x = border - 0.05; break;
    }
    // step some ulps
    const int st = r.i(-3, 3);
    for(int i = 0; i < std::abs(st); i++) x = std::nextafter(x, st > 0 ? 1e9 : 0.0);
    return x < 0 ? 0 : x;
}

static double lim(double x, int n, int m, double K, double ref)
{
    double l = K*DBL_EPSILON*ref + 1e-300;
    if(n < 4 && x > BOYS_SHORTGRID_MAXX-0.1)
    {
        // asymptotic branch: exp(-x) terms left out
        double t = 0;
        for(int k = 0; k <= m; k++) t = ((2*k-1 > 0 ? 2*k-1 : 0)*t + std::exp(-x))/(2*x);
        l += 1.5*t;
    }
    return l;
}

int main(int argc, char ** argv)
{
    Opts O = parse(argc, argv);
    const double K = O.kv.count("K") ? atof(O.kv["K"].c_str()) : 100;
    const int nmax = O.geti("nmax", 29);
    Rng r(mix(O.seed, 0xB0B5+O.shard));
    // every point of the grid with every order, from both sides
    std::vector<std::pair<int,double>> sweep;
    for(int k = 0; 0.1*k < BOYS_SHORTGRID_MAXX+0.2; k++)
        for(int n = 0; n <= nmax; n++)
            if((k*(nmax+1)+n) % O.nshard == O.shard)
                for(int side = -1; side <= 1; side += 2)
                    sweep.push_back({n, std::max(0.0, 0.1*k + side*r.u(0.02, 0.0499))});
    std::sort(sweep.begin(), sweep.end());
    const long nsweep = ((long)sweep.size()+SIMINT_SIMD_LEN-1)/SIMINT_SIMD_LEN;
    for(long c = -nsweep; c < O.cases; c++)
    {
        int n = r.i(0, nmax);
        double xd[SIMINT_SIMD_LEN];
        const int kind = c < 0 ? 4 : r.i(4);
        const double base = pickx(r);
        for(int l = 0; l < SIMINT_SIMD_LEN; l++)
            xd[l] = kind == 0 ? base : pickx(r);
        if(kind == 1) for(int l = 0; l < SIMINT_SIMD_LEN; l++) xd[l] = r.u(0, BOYS_SHORTGRID_MAXX);   // all short
        if(kind == 2) for(int l = 0; l < SIMINT_SIMD_LEN; l++) xd[l] = r.logu(BOYS_SHORTGRID_MAXX, 1e4); // all long
        if(c < 0)
        {
            const size_t at = (size_t)(c+nsweep)*SIMINT_SIMD_LEN;
            n = sweep[at].first;
            for(int l = 0; l < SIMINT_SIMD_LEN; l++)
            {
                const size_t k = std::min(at+l, sweep.size()-1);
                xd[l] = sweep[k].first == n ? sweep[k].second : sweep[at].second;
            }
            R.add("grid_sweep_vectors");
        }
        SIMINT_DBLTYPE x, F[48], B[48];
        double Fd[48*SIMINT_SIMD_LEN], Bd[48*SIMINT_SIMD_LEN];
        memcpy(&x, xd, sizeof(xd));
        const double pat = -12345.5;
        for(int i = 0; i < 48; i++) F[i] = SIMINT_DBLSET1(pat);
        boys_F_split(F, x, n);
        memcpy(Fd, F, sizeof(F));
        for(int i = n+1; i < 48; i++) for(int l = 0; l < SIMINT_SIMD_LEN; l++)
            if(Fd[i*SIMINT_SIMD_LEN+l] != pat) { R.viol("boys:extra", "n %d: wrote order %d", n, i); i = 48; break; }
        for(int l = 0; l < SIMINT_SIMD_LEN; l++)
        {
            double hi[64], lo[64];
            o_boys(xd[l], n, hi, lo);
            B[0] = SIMINT_DBLSET1(0.0);
            boys_F_split(B, SIMINT_DBLSET1(xd[l]), n);
            memcpy(Bd, B, sizeof(SIMINT_DBLTYPE)*(n+1));
            R.distinct.insert(strf("n%d/%s/%d", n, xd[l] < 0.05 ? "origin" : xd[l] < 36.4 ? "grid" : xd[l] < 36.6 ? "border" : "long", kind));
            for(int m = 0; m <= n; m++)
            {
                const double v = Fd[m*SIMINT_SIMD_LEN+l], b = Bd[m*SIMINT_SIMD_LEN+l];
                const double e = std::fabs((v-hi[m])-lo[m]);
                R.evals++;
                if(!(e <= lim(xd[l], n, m, K, hi[m])))
                    R.viol(strf("boys:%s:%s", n < 4 ? "low" : strf("n%d", n).c_str(), xd[l] < 36.5 ? "short" : "long"), "F_%d(%.17g) of n=%d lane %d: %.17g, expected %.17g (relative error %.3g)", m, xd[l], n, l, v, hi[m], e/hi[m]);
                if(hi[m] > 1e-280 && n >= 4) R.mx("relative_error_over_eps", e/hi[m]/DBL_EPSILON);
                if(hi[m] > 1e-280 && n < 4 && xd[l] < 36.4) R.mx("relative_error_over_eps_low_orders", e/hi[m]/DBL_EPSILON);
                // same argument in every lane gives the same value
                if(!(std::fabs(v-b) <= lim(xd[l], n, m, K, hi[m])))
                    R.viol("boys:lane", "F_%d(%.17g) of n=%d lane %d is %.17g, but %.17g if all lanes hold this argument", m, xd[l], n, l, v, b);
            }
        }
        R.add("vectors");
        R.sample("n=%d x=(%.17g ...) F_n=%.17g", n, xd[0], Fd[n*SIMINT_SIMD_LEN]);
    }
    return R.done();
}
