// C09 overlap, C10 kinetic, C11 potential; the one-electron part of C05, C06.
#include "guard.hpp"

static Report R;
static Opts O;
enum { OVL, KE, POT };
static const char * NAME[] = {"overlap", "ke", "potential"};

struct Charges { std::vector<double> Z, x, y, z; int n() const { return (int)Z.size(); } };

struct Case
{
    OShell a, b;
    simint_shell ga, gb;
    bool same = false;
    Charges q;
    Case() { simint_initialize_shell(&ga); simint_initialize_shell(&gb); }
    Case(const Case &) = delete;
    ~Case() { simint_free_shell(&ga); simint_free_shell(&gb); }
    std::string desc() const
    {
        std::string s = "A=" + show(a) + " B=" + show(b);
        for(int i = 0; i < q.n() && i < 4; i++) s += strf(" Z=%g(%.17g,%.17g,%.17g)", q.Z[i], q.x[i], q.y[i], q.z[i]);
        return s;
    }
};

static void make(Rng & r, Case & c, int la, int lb, int what)
{
    const int geo = r.i(5);
    const int reg = r.i(3) ? 0 : r.i(6);
    double pa[3], pb[3];
    for(int k = 0; k < 3; k++) { pa[k] = r.u(-2,2); pb[k] = r.u(-2,2); }
    if(geo == 0) memcpy(pb, pa, sizeof(pa));
    if(geo == 1) { int ax = r.i(3); for(int k = 0; k < 3; k++) if(k != ax) pa[k] = pb[k] = 0; }
    if(geo == 2) for(int k = 0; k < 3; k++) { double s = r.u(-200,200); pa[k] += s; pb[k] += s; }
    if(geo == 3) pb[r.i(3)] += r.logu(3, 30);
    c.a.am = la; c.b.am = lb;
    c.a.x = pa[0]; c.a.y = pa[1]; c.a.z = pa[2];
    c.b.x = pb[0]; c.b.y = pb[1]; c.b.z = pb[2];
    const int mp = (what == POT && la+lb > 6) ? 2 : 4;
    const bool lng = (what != POT || la+lb <= 3) && r.p(0.03);
    gen_prims(r, c.a, lng && r.p(0.5) ? r.i(5, 24) : r.i(1,mp), reg);
    gen_prims(r, c.b, lng ? r.i(5, 24) : r.i(1,mp), r.p(0.2) ? r.i(6) : reg);
    if(la == lb && r.p(0.15)) { c.b = c.a; c.same = true; }
    simint_create_shell(c.a.nprim(), la, c.a.x, c.a.y, c.a.z, c.a.alpha.data(), c.a.coef.data(), &c.ga);
    simint_create_shell(c.b.nprim(), lb, c.b.x, c.b.y, c.b.z, c.b.alpha.data(), c.b.coef.data(), &c.gb);
    if(what == POT)
    {
        const int n = r.i(10) == 0 ? 0 : (la+lb <= 3 && r.p(0.03)) ? r.i(20, 200) : r.i(1, (la+lb > 6) ? 3 : 6);
        for(int i = 0; i < n; i++)
        {
            double p[3];
            const int k = r.i(5);
            for(int d = 0; d < 3; d++) p[d] = pa[d] + (k == 4 ? r.u(-20,20) : r.u(-2,2));
            if(k == 0) memcpy(p, pa, sizeof(p));
            if(k == 1) memcpy(p, pb, sizeof(p));
            if(k == 2)
            {
                // Boys argument near a border
                static const double xs[] = {36.5, 36.45, 0.05, 36.4, 1e-9, 100, 1e4};
                const double x = r.p(0.4) ? xs[r.i(7)]*(1+r.u(-1e-3,1e-3)) : r.p(0.7) ? r.u(0, 45) : r.logu(1e-12, 1e3), P = c.a.alpha[0]+c.b.alpha[0], Rr = std::sqrt(x/P);
                for(int d = 0; d < 3; d++) p[d] = (c.a.alpha[0]*pa[d]+c.b.alpha[0]*pb[d])/P;
                p[r.i(3)] += Rr;
            }
            c.q.Z.push_back(r.p(0.1) ? 0.0 : (double)r.i(-3, 30) + (r.p(0.3) ? 0.37 : 0));
            c.q.x.push_back(p[0]); c.q.y.push_back(p[1]); c.q.z.push_back(p[2]);
        }
    }
}

static int compute(int what, Case & c, simint_shell & a, simint_shell & b, double * out, int q0 = 0, int q1 = -1)
{
    if(what == OVL) return simint_compute_overlap(&a, &b, out);
    if(what == KE) return simint_compute_ke(&a, &b, out);
    if(q1 < 0) q1 = c.q.n();
    return simint_compute_potential(q1-q0, c.q.Z.data()+q0, c.q.x.data()+q0, c.q.y.data()+q0, c.q.z.data()+q0, &a, &b, out);
}

static void values(int what)
{
    for(int la = 0; la <= O.lmax; la++) for(int lb = 0; lb <= O.lmax; lb++)
    for(int cs = 0; ; cs++)
    {
        // the low angular momenta are cheap and have special cases
        const int L = la + lb;
        if(what == POT && L > O.geti("ltot", 14)) break;
        if(cs >= O.cases*(what == POT ? (L <= 2 ? 150 : L <= 4 ? 30 : L <= 8 ? 4 : 1) : (L <= 2 ? 40 : L <= 6 ? 8 : L <= 14 ? 2 : 1))) break;
        if((la*31+lb*7+cs) % O.nshard != O.shard) continue;
        Rng r(mix(O.seed, ((la*64+lb)*64+what)*100003+cs));
        Case c;
        make(r, c, la, lb, what);
        const size_t n = (size_t)ncart(la)*ncart(lb);
        Guarded out(n), tr(n);
        const int ret = compute(what, c, c.ga, c.same ? c.ga : c.gb, out.p());
        const std::string key = strf("%s:%d%d", NAME[what], la, lb);
        if(ret != 1) R.viol("return:" + key, "returned %d for one shell pair", ret);
        if(out.damaged() != Guarded::LONG_MIN_) R.viol("outputbounds:" + key, "wrote outside the output");
        ORef ref;
        if(what == OVL) o_overlap(c.a, c.b, ref);
        else if(what == KE) o_ke(c.a, c.b, ref);
        else o_potential(c.q.n(), c.q.Z.data(), c.q.x.data(), c.q.y.data(), c.q.z.data(), c.a, c.b, ref);
        if(ref.extra.empty()) ref.extra.assign(n, 0.0);
        double worst = 0; size_t wi = 0;
        for(size_t k = 0; k < n; k++)
        {
            const double e = err_ratio(out[k], ref.hi[k], ref.lo[k], ref.scale[k], ref.extra[k]);
            if(e > worst) { worst = e; wi = k; }
        }
        R.evals += n;
        R.add("shell_pairs");
        R.mx(std::string("error_over_eps_scale_") + NAME[what], worst);
        R.distinct.insert(strf("%s/n%d.%d/q%d/%d", key.c_str(), c.a.nprim(), c.b.nprim(), c.q.n(), c.same));
        if(worst > O.K)
            R.viol("value:" + key, "%s element %zu: %.17g, expected %.17g (%.3g eps*scale, scale %.3g); %s", key.c_str(), wi, out[wi], ref.hi[wi], worst, ref.scale[wi], c.desc().c_str());
        // Hermitian symmetry
        compute(what, c, c.same ? c.ga : c.gb, c.ga, tr.p());
        for(int i = 0; i < ncart(la); i++) for(int j = 0; j < ncart(lb); j++)
        {
            const double e = err_ratio(out[i*ncart(lb)+j], tr[j*ncart(la)+i], 0, ref.scale[i*ncart(lb)+j], 2*ref.extra[i*ncart(lb)+j]);
            R.mx(std::string("asymmetry_over_eps_scale_") + NAME[what], e);
            if(e > O.K) R.viol("symmetry:" + key, "%s: (%d|%d)=%.17g but (%d|%d)=%.17g; %s", key.c_str(), i, j, out[i*ncart(lb)+j], j, i, tr[j*ncart(la)+i], c.desc().c_str());
        }
        // additivity over the centres
        if(what == POT && c.q.n() > 1)
        {
            Guarded p1(n), p2(n);
            const int cut = r.i(1, c.q.n()-1);
            compute(what, c, c.ga, c.same ? c.ga : c.gb, p1.p(), 0, cut);
            compute(what, c, c.ga, c.same ? c.ga : c.gb, p2.p(), cut, c.q.n());
            for(size_t k = 0; k < n; k++)
                if(err_ratio(p1[k]+p2[k], out[k], 0, ref.scale[k], 2*ref.extra[k]) > O.K)
                    R.viol("additive:" + key, "%s element %zu: %.17g + %.17g is not %.17g; %s", key.c_str(), k, p1[k], p2[k], out[k], c.desc().c_str());
        }
        R.sample("%s <%d|%d>: element %zu = %.17g, reference %.17g, worst error %.3g eps*scale; %s", NAME[what], la, lb, wi, out[wi], ref.hi[wi], worst, c.desc().substr(0,500).c_str());
    }
}

// exact buffers, read-only inputs, purity
static void mem(bool pure)
{
    install_segv();
    for(int what = 0; what < 3; what++)
    for(int la = 0; la <= O.lmax; la++) for(int lb = 0; lb <= O.lmax; lb++)
    for(int cs = 0; cs < O.cases; cs++)
    {
        Rng r(mix(O.seed, ((la*64+lb)*64+what)*100003+cs+777));
        Case c;
        make(r, c, la, lb, what);
        const size_t n = (size_t)ncart(la)*ncart(lb);
        const bool atend = !r.p(0.3);
        const std::string key = strf("%s:%d%d", NAME[what], la, lb);
        snprintf(g_what, sizeof(g_what), "%s", key.c_str());
        // relocate the shells
        GuardPages sa(2*c.a.nprim()*8, atend, "first shell"), sb(2*c.b.nprim()*8, atend, "second shell");
        simint_shell A = c.ga, B = c.gb;
        auto reloc = [](simint_shell & s, GuardPages & g) { memcpy(g.data, s.ptr, 2*s.nprim*8); s.ptr = g.data; s.alpha = g.d(); s.coef = g.d()+s.nprim; g.readonly(); };
        reloc(A, sa); reloc(B, sb);
        const int nq = c.q.n();
        GuardPages qq((4*nq+1)*8, atend, "charges");
        Case c2; // charges live in c2 pointers
        for(int i = 0; i < nq; i++) { qq.d()[i] = c.q.Z[i]; qq.d()[nq+i] = c.q.x[i]; qq.d()[2*nq+i] = c.q.y[i]; qq.d()[3*nq+i] = c.q.z[i]; }
        qq.readonly();
        auto call = [&](double * o)
        {
            if(what != POT) return compute(what, c, A, B, o);
            double * d = qq.d();
            return simint_compute_potential(nq, d, d+nq, d+2*nq, d+3*nq, &A, &B, o);
        };
        GuardPages out(n*8, atend, "output");
        const uint64_t pat = 0x7ff4a5a5deadbeefull;
        for(size_t i = 0; i < n; i++) memcpy(out.data+8*i, &pat, 8);
        call(out.d());
        R.evals++;
        R.distinct.insert(key + (atend ? "/end" : "/begin"));
        R.add(what == POT ? "potential_calls" : what == KE ? "ke_calls" : "overlap_calls");
        for(size_t i = 0; i < n; i++)
            if(!memcmp(out.data+8*i, &pat, 8) || !std::isfinite(out.d()[i])) { R.viol("unwritten:" + key, "output element %zu of %zu was not written or is not finite (%g); %s", i, n, out.d()[i], c.desc().c_str()); break; }
        if(!out.intact()) R.viol("output:" + key, "wrote outside the output");
        if(pure)
        {
            std::vector<double> o2(n);
            static const double fills[] = {0.0, NAN, INFINITY, -1e300};
            for(int t = 0; t < 3; t++)
            {
                std::fill(o2.begin(), o2.end(), fills[r.i(4)]);
                poison_stack((unsigned char)(t == 0 ? 0xff : t == 1 ? 0x7f : 0x00));
                if(t == 2) { Guarded w(n); simint_compute_ke(&A, &B, w.p()); simint_compute_overlap(&B, &A, w.p()); poison_stack(0x41); }
                call(o2.data());
                R.evals++;
                if(memcmp(o2.data(), out.data, n*8)) R.viol("repeat:" + key, "a repeated call differs; %s", c.desc().c_str());
            }
        }
        R.sample("%s: output of exactly %zu doubles between guard pages, shells and charges read-only", key.c_str(), n);
    }
}

int main(int argc, char ** argv)
{
    O = parse(argc, argv);
    O.lmax = O.geti("am", 7);
    O.K = O.kv.count("K") ? atof(O.kv["K"].c_str()) : 200;
    simint_init();
    if(O.mode == "overlap") values(OVL);
    else if(O.mode == "ke") values(KE);
    else if(O.mode == "potential") values(POT);
    else if(O.mode == "mem") mem(false);
    else if(O.mode == "pure") mem(true);
    else { fprintf(stderr, "unknown mode\n"); return 3; }
    simint_finalize();
    return R.done();
}
