// C07: many threads, shared read-only inputs, own work and output; every
// result is compared with the serial one. Also run under ThreadSanitizer.
#include "gen.hpp"
#include "simint/shell/shell_screen.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

static Report R;
static Opts O;
static bool g_cold = false;    // threads first, serial reference afterwards

// one computation; run(out, work) fills out with everything observable
struct Item
{
    std::string name;
    std::function<void(std::vector<double> &, double *)> run;
    std::vector<double> ref;
};

static void push_pair(std::vector<double> & o, const simint_multi_shellpair & P)
{
    int n = 0;
    for(int i = 0; i < P.nshell12; i++)
    {
        n += P.nprim12[i];
        o.push_back(P.nprim12[i]);
        o.push_back(P.AB_x[i]); o.push_back(P.AB_y[i]); o.push_back(P.AB_z[i]);
        if((i+1) % SIMINT_NSHELL_SIMD == 0 || i+1 == P.nshell12) n = SIMINT_SIMD_ROUND(n);
    }
    for(const double * p : {P.x,P.y,P.z,P.PA_x,P.PA_y,P.PA_z,P.PB_x,P.PB_y,P.PB_z,P.alpha,P.prefac}) o.insert(o.end(), p, p+n);
#if SIMINT_OSTEI_MAXDER > 0
    o.insert(o.end(), P.alpha2, P.alpha2+n); o.insert(o.end(), P.beta2, P.beta2+n);
#endif
    if(P.screen) o.insert(o.end(), P.screen, P.screen+n);
    o.push_back(P.nprim); o.push_back(P.nshell12); o.push_back(P.nshell12_clip); o.push_back(P.am1); o.push_back(P.am2); o.push_back(P.screen_max);
}

static void push_shell(std::vector<double> & o, const simint_shell & s)
{
    o.push_back(s.am); o.push_back(s.nprim); o.push_back(s.x); o.push_back(s.y); o.push_back(s.z);
    o.insert(o.end(), s.alpha, s.alpha+s.nprim); o.insert(o.end(), s.coef, s.coef+s.nprim);
}

struct World
{
    std::vector<Batch*> b;
    ShellList S;
    std::vector<Item> items;
    size_t nwork = 1;
    double Z[3] = {1, 8, 3.5}, x[3] = {0, 0.5, -2}, y[3] = {0.2, -1, 3}, z[3] = {1, 0.1, 0};
    ~World() { for(auto p : b) delete p; }
};

// is there code for this class? (libraries of selected classes)
static bool has(int a, int b, int c, int d)
{
    if(!O.kv.count("classes")) return true;
    for(int s = 0; s < 8; s++)
    {
        int r[4] = {a,b,c,d};
        if(s & 1) std::swap(r[0], r[1]);
        if(s & 2) std::swap(r[2], r[3]);
        if(s & 4) { std::swap(r[0], r[2]); std::swap(r[1], r[3]); }
        if(O.kv["classes"].find(strf("%d%d%d%d;", r[0], r[1], r[2], r[3])) != std::string::npos) return true;
    }
    return false;
}

static void build(World & W, Rng & r)
{
    const int L = SIMINT_OSTEI_MAXAM;
    const int ocap = O.geti("oeam", 3), maxcls = O.geti("maxclasses", 40);
    W.nwork = std::max<size_t>(1, simint_eri_worksize(SIMINT_OSTEI_MAXDER, L));
    // integral classes
    std::vector<std::vector<int>> cls;
    for(int a = 0; a <= L; a++) for(int b = 0; b <= L; b++) for(int c = 0; c <= L; c++) for(int d = 0; d <= L; d++) if(has(a,b,c,d)) cls.push_back({a,b,c,d});
    Rng fixed(4242);           // the same order in every shard
    for(size_t i = cls.size(); i > 1; i--) std::swap(cls[i-1], cls[fixed.i((int)i)]);
    // shards share the classes out
    std::vector<std::vector<int>> mine;
    for(size_t i = 0; i < cls.size(); i++) if((int)(i % O.nshard) == O.shard % O.nshard) mine.push_back(cls[i]);
    if(mine.empty()) mine = cls;
    if((int)mine.size() > maxcls) mine.resize(maxcls);
    for(auto & k : mine)
    {
        Batch * b = new Batch;
        // (Schwarz estimates need the diagonal classes)
        const bool scr = has(k[0],k[1],k[0],k[1]) && has(k[2],k[3],k[2],k[3]);
        GenOpt g; g.maxprim = 2; g.nb = r.i(1, 2); g.nk = r.i(1, SIMINT_NSHELL_SIMD+1); g.screen = g_cold || !scr ? 0 : r.i(3);
        if(k[0]+k[1]+k[2]+k[3] > 8) g.nk = 2;
        gen_batch(r, *b, k.data(), g);
        W.b.push_back(b);
        const double tol = g.screen && r.p(0.5) ? 1e-8 : 0.0;
        for(int dv = 0; dv <= SIMINT_OSTEI_MAXDER; dv++)
        {
            if(dv && maxam4(k[0],k[1],k[2],k[3]) > SIMINT_OSTEI_DERIV1_MAXAM) continue;
            const size_t n = b->ncomp()*(dv ? 12 : 1)*b->nb*b->nk;
            W.items.push_back({strf("%s(%s)", dv ? "deriv" : "eri", b->cls().c_str()), [=](std::vector<double> & o, double * w)
            {
                o.assign(n+1, 0.0);
                o[n] = dv ? simint_compute_eri_deriv(dv, &b->P.P, &b->Q.P, tol, w, o.data()) : simint_compute_eri(&b->P.P, &b->Q.P, tol, w, o.data());
            }, {}});
        }
        if(r.p(0.5)) W.items.push_back({strf("pairs(%d%d)", k[0], k[1]), [=](std::vector<double> & o, double *)
        {
            o.clear();
            for(int m = 0; m < 3; m++)
            {
                if(m == 1 && (k[0]+k[1] > 6 || !scr)) continue;
                Pairs p;
                mkpairs(p, b->ga, b->gb, m);
                push_pair(o, p.P);
                Pairs q;
                const simint_multi_shellpair * in[2] = {&p.P, &p.P};
                simint_cat_multi_shellpair(2, in, &q.P, m);
                push_pair(o, q.P);
            }
            Pairs l;
            simint_create_multi_shellpair((int)b->ga.size(), b->ga.data(), (int)b->gb.size(), b->gb.data(), &l.P, SIMINT_SCREEN_FASTSCHWARZ);
            push_pair(o, l.P);
        }, {}});
        if(scr && r.p(0.5)) W.items.push_back({strf("screen(%d%d)", k[0], k[1]), [=](std::vector<double> & o, double *)
        {
            o.clear();
            for(int m = 1; m < 3; m++)
            {
                o.push_back(simint_shellscreen(&b->ga[0], &b->gb[0], m));
                std::vector<double> est((size_t)b->ga[0].nprim*b->gb[0].nprim + 16);
                o.push_back(simint_primscreen(&b->ga[0], &b->gb[0], est.data(), m));
                o.insert(o.end(), est.begin(), est.begin()+(size_t)b->ga[0].nprim*b->gb[0].nprim);
            }
        }, {}});
    }
    // one-electron integrals and shells
    for(int l = 0; l <= ocap; l++)
        for(int t = 0; t < 2; t++)
        {
            OShell s; s.am = l; s.x = r.u(-2,2); s.y = r.u(-2,2); s.z = r.u(-2,2);
            gen_prims(r, s, r.i(1,3), r.i(2));
            W.S.add(s);
        }
    World * w = &W;
    for(size_t i = 0; i < W.S.g.size(); i++)
    {
        const size_t j = r.i((int)W.S.g.size());
        const size_t n = (size_t)ncart(W.S.o[i].am)*ncart(W.S.o[j].am);
        W.items.push_back({strf("oneelectron(%d%d)", W.S.o[i].am, W.S.o[j].am), [=](std::vector<double> & o, double *)
        {
            o.assign(3*n, 0.0);
            o.push_back(simint_compute_overlap(&w->S.g[i], &w->S.g[j], o.data()));
            o.push_back(simint_compute_ke(&w->S.g[i], &w->S.g[j], o.data()+n));
            o.push_back(simint_compute_potential(3, w->Z, w->x, w->y, w->z, &w->S.g[i], &w->S.g[j], o.data()+2*n));
        }, {}});
        W.items.push_back({strf("shell(%d)", W.S.o[i].am), [=](std::vector<double> & o, double *)
        {
            o.clear();
            simint_shell a, b;
            simint_initialize_shell(&a); simint_initialize_shell(&b);
            simint_copy_shell(&w->S.g[i], &a);
            simint_normalize_shells(1, &a);
            push_shell(o, a);
            simint_copy_shell(&a, &b);
            simint_create_zero_shell(&a);
            push_shell(o, a); push_shell(o, b);
            simint_free_shell(&a); simint_free_shell(&b);
        }, {}});
    }
}

struct Th
{
    pthread_t t;
    World * W;
    int id, rounds;
    uint64_t seed;
    pthread_barrier_t * bar;
    std::atomic<int> * running;
    // results
    long evals = 0, overlap = 0, values = 0;
    std::vector<std::string> bad, what;
    std::set<std::string> seen;
    std::vector<std::pair<int, uint64_t>> cold;     // (item, hash of the result)
};
static uint64_t hashv(const std::vector<double> & v)
{
    uint64_t h = 1469598103934665603ull + v.size();
    for(double d : v) { uint64_t b; memcpy(&b, &d, 8); h ^= b; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}

static std::atomic<int> g_now[512];    // how many threads are inside item i (relaxed: no ordering for TSan)

static void * body(void * v)
{
    Th & T = *(Th*)v;
    World & W = *T.W;
    Rng r(T.seed);
    double * work = (double*)aligned_alloc(128, ((W.nwork*sizeof(double)+127)/128)*128);
    std::vector<double> out;
    const int n = (int)W.items.size();
    auto one = [&](int it)
    {
        Item & I = W.items[it];
        for(size_t q = 0; q < W.nwork; q += 7) work[q] = 1e30*T.id;
        if(r.i(4) == 0) sched_yield();
        for(volatile int sp = r.i(300); sp > 0;) sp = sp-1;
        const int others = g_now[it % 512].fetch_add(1, std::memory_order_relaxed);
        I.run(out, work);
        const int after = g_now[it % 512].fetch_sub(1, std::memory_order_relaxed);
        T.evals++; T.values += (long)out.size();
        if(others > 0 || after > 1) { T.overlap++; T.seen.insert(I.name); }
        if(g_cold) { T.cold.push_back({it, hashv(out)}); return; }
        if(out.size() != I.ref.size() || memcmp(out.data(), I.ref.data(), 8*out.size()))
        {
            size_t q = 0;
            while(q < out.size() && q < I.ref.size() && !memcmp(&out[q], &I.ref[q], 8)) q++;
            if(T.bad.size() < 3)
            {
                T.what.push_back(I.name);
                T.bad.push_back(strf("thread %d, %d others inside: value %zu of %zu is %.17g, serially %.17g", T.id, std::max(others, after-1), q, out.size(), q < out.size() ? out[q] : 0.0, q < I.ref.size() ? I.ref[q] : 0.0));
            }
        }
    };
    // every computation once, entered by all threads together
    for(int it = 0; it < n; it++)
    {
        if(g_cold || it % 8 == 0) pthread_barrier_wait(T.bar);
        one(it);
    }
    for(int rd = 0; rd < T.rounds; rd++)
    {
        pthread_barrier_wait(T.bar);
        // same: all threads start on the same item at the same time, several times
        Rng common(mix(O.seed, 99000+rd+O.shard*1000));
        const int kind = common.i(3);
        const int base = common.i(n);
        for(int k = 0; k < 6; k++) one(kind == 0 ? base : kind == 1 ? (base+k) % n : r.i(n));
    }
    free(work);
    return 0;
}

int main(int argc, char ** argv)
{
    O = parse(argc, argv);
    g_cold = O.mode == "cold";
    simint_init();
    {
        World W;
        Rng r(mix(O.seed, 71000+O.shard));
        build(W, r);
        auto reference = [&]
        {
            double * work = (double*)aligned_alloc(128, ((W.nwork*sizeof(double)+127)/128)*128);
            for(auto & I : W.items) I.run(I.ref, work);
            free(work);
        };
        if(!g_cold) reference();
        std::vector<Th> T(O.threads);
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, 0, O.threads);
        for(int i = 0; i < O.threads; i++)
        {
            T[i].W = &W; T[i].id = i; T[i].rounds = O.cases; T[i].seed = mix(O.seed, 81000+i); T[i].bar = &bar;
        }
        for(auto & t : T) if(pthread_create(&t.t, 0, body, &t)) { fprintf(stderr, "pthread_create failed\n"); return 3; }
        for(auto & t : T) pthread_join(t.t, 0);
        pthread_barrier_destroy(&bar);
        if(g_cold)
        {
            reference();
            std::vector<uint64_t> h;
            for(auto & I : W.items) h.push_back(hashv(I.ref));
            for(auto & t : T) for(auto & c : t.cold)
                if(c.second != h[c.first])
                {
                    const std::string & nm = W.items[c.first].name;
                    R.viol("thread:" + nm.substr(0, nm.find('(')), "%s: thread %d got another result than a serial computation afterwards", nm.c_str(), t.id);
                }
        }
        for(auto & t : T)
        {
            R.evals += t.evals;
            R.add("computations_overlapping_the_same_computation", t.overlap);
            R.add("values_compared", t.values);
            for(auto & s : t.seen) R.distinct.insert(s);
            for(size_t i = 0; i < t.bad.size(); i++) R.viol("thread:" + t.what[i].substr(0, t.what[i].find('(')), "%s: %s", t.what[i].c_str(), t.bad[i].c_str());
        }
        // and serially again: nothing was left behind
        {
            double * work = (double*)aligned_alloc(128, ((W.nwork*sizeof(double)+127)/128)*128);
            std::vector<double> o;
            for(auto & I : W.items)
            {
                I.run(o, work);
                if(o.size() != I.ref.size() || memcmp(o.data(), I.ref.data(), 8*o.size())) R.viol("after:" + I.name.substr(0, I.name.find('(')), "%s differs after the threads have finished", I.name.c_str());
            }
            free(work);
        }
        R.add("threads", O.threads);
        R.add("different_computations", W.items.size());
        R.sample("%d threads, %zu different computations, e.g. %s, %s", O.threads, W.items.size(), W.items[0].name.c_str(), W.items.back().name.c_str());
    }
    simint_finalize();
    return R.done();
}
