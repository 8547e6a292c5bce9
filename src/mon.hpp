// Common part of the monitoring harnesses.
#pragma once
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
#include <stdarg.h>
#include "simint/simint.h"
#include "oracle.h"

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed*0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * (1.0/9007199254740992.0); }
    double u(double a, double b) { return a + (b-a)*u(); }
    double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    int i(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
    int i(int a, int b) { return a + i(b-a+1); }
    bool p(double x) { return u() < x; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b*0xD6E8FEB86659FD93ull)); return r.next(); }

struct Opts
{
    std::string mode;
    uint64_t seed = 1;
    int lmax = SIMINT_OSTEI_MAXAM, lmin = 0;
    int shard = 0, nshard = 1;
    int cases = 1;
    int threads = 8;
    int only = -1;
    bool thorough = false;
    double K = 0;
    std::map<std::string, std::string> kv;
    int geti(const char * k, int d) const { auto it = kv.find(k); return it == kv.end() ? d : atoi(it->second.c_str()); }
};
inline Opts parse(int argc, char ** argv)
{
    Opts o;
    if(argc > 1) o.mode = argv[1];
    for(int i = 2; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]{ return std::string(i+1 < argc ? argv[++i] : ""); };
        if(a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
        else if(a == "--lmax") o.lmax = atoi(val().c_str());
        else if(a == "--lmin") o.lmin = atoi(val().c_str());
        else if(a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &o.shard, &o.nshard); }
        else if(a == "--cases") o.cases = atoi(val().c_str());
        else if(a == "--threads") o.threads = atoi(val().c_str());
        else if(a == "--only") o.only = atoi(val().c_str());
        else if(a == "--thorough") o.thorough = true;
        else if(a.rfind("--", 0) == 0) { std::string k = a.substr(2); o.kv[k] = val(); }
    }
    if(o.lmax > SIMINT_OSTEI_MAXAM) o.lmax = SIMINT_OSTEI_MAXAM;
    return o;
}

// ------------------------------------------------------------ reporting
struct Report
{
    long evals = 0, nviol = 0, nsample = 0;
    std::set<std::string> distinct;
    std::map<std::string, double> stats;
    std::map<std::string, int> perkey;
    static std::string esc(const std::string & s)
    {
        std::string r;
        for(char c : s)
        {
            if(c == '"' || c == '\\') { r += '\\'; r += c; }
            else if(c == '\n') r += "\\n";
            else if((unsigned char)c < 32) r += ' ';
            else r += c;
        }
        return r;
    }
    void viol(const std::string & key, const char * fmt, ...)
    {
        nviol++;
        if(++perkey[key] > 3 || perkey.size() > 60) return;
        char buf[4096];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
        printf("@@{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\"}\n", esc(key).c_str(), esc(buf).c_str());
        fflush(stdout);
    }
    void sample(const char * fmt, ...)
    {
        if(nsample++ >= 3) return;
        char buf[4096];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
        printf("@@{\"t\":\"sample\",\"s\":\"%s\"}\n", esc(buf).c_str());
    }
    void add(const std::string & k, double v = 1) { stats[k] += v; }
    void mx(const std::string & k, double v) { double & x = stats["max_"+k]; if(v > x) x = v; }
    int done()
    {
        printf("@@{\"t\":\"stat\",\"evals\":%ld,\"distinct\":[", evals);
        bool f = true;
        for(auto & s : distinct) { printf("%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; }
        printf("],\"stats\":{");
        f = true;
        for(auto & s : stats) { printf("%s\"%s\":%.6g", f ? "" : ",", s.first.c_str(), std::isfinite(s.second) ? s.second : 1e308); f = false; }
        printf("}}\n@@{\"t\":\"done\"}\n");
        fflush(stdout);
        return 0;
    }
};
inline std::string strf(const char * fmt, ...)
{
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
    return buf;
}

// ------------------------------------------------------------ shells
inline simint_shell mkshell(const OShell & s)
{
    simint_shell g;
    simint_initialize_shell(&g);
    simint_create_shell(s.nprim(), s.am, s.x, s.y, s.z, s.alpha.data(), s.coef.data(), &g);
    return g;
}
inline std::string show(const OShell & s)
{
    std::string r = strf("{am %d (%.17g,%.17g,%.17g)", s.am, s.x, s.y, s.z);
    for(int i = 0; i < s.nprim(); i++) r += strf(" [a=%.17g c=%.17g]", s.alpha[i], s.coef[i]);
    return r + "}";
}
inline double pnorm(double a, int l) { return std::pow(2*a/3.14159265358979, 0.75)*std::pow(4*a, 0.5*l)/std::sqrt(1.0*(l < 1 ? 1 : l == 1 ? 1 : l == 2 ? 3 : l == 3 ? 15 : 105)); }

struct ShellList
{
    std::vector<OShell> o;
    std::vector<simint_shell> g;
    ShellList() {}
    ShellList(const ShellList &) = delete;
    ~ShellList() { clear(); }
    void clear() { for(auto & x : g) simint_free_shell(&x); g.clear(); o.clear(); }
    void add(const OShell & s) { o.push_back(s); g.push_back(mkshell(s)); }
};

// exponents: regime 0 valence, 1 wide, 2 extreme, 3 diffuse, 4 tight
inline void gen_prims(Rng & r, OShell & s, int nprim, int regime)
{
    static const double lo[6] = {0.1, 0.02, 0.002, 0.01, 50, 1e-5}, hi[6] = {15, 500, 1e5, 0.5, 1e5, 1e9};
    s.alpha.resize(nprim); s.coef.resize(nprim);
    for(int i = 0; i < nprim; i++)
    {
        s.alpha[i] = r.logu(lo[regime], hi[regime]);
        double c = r.u(0.2, 1.4)*(r.p(0.35) ? -1 : 1);
        if(r.p(0.02)) c = 0;
        s.coef[i] = c*pnorm(s.alpha[i], s.am);
    }
}
enum { GEO_BOX, GEO_ONE, GEO_TWO, GEO_LINE, GEO_FAR, GEO_SHIFT, GEO_ALT, GEO_SMALL, GEO_TARGET, NGEO };
struct Centers { double c[4][3]; };
inline Centers gen_centers(Rng & r, int geo)
{
    Centers C;
    double b = 2.0;
    if(geo == GEO_SMALL) b = 1e-3;
    for(int i = 0; i < 4; i++) for(int k = 0; k < 3; k++) C.c[i][k] = r.u(-b, b);
    switch(geo)
    {
        case GEO_ONE: for(int i = 1; i < 4; i++) memcpy(C.c[i], C.c[0], sizeof(C.c[0])); break;
        case GEO_TWO: memcpy(C.c[1], C.c[0], sizeof(C.c[0])); memcpy(C.c[3], C.c[2], sizeof(C.c[0])); break;
        case GEO_ALT: memcpy(C.c[2], C.c[0], sizeof(C.c[0])); memcpy(C.c[3], C.c[1], sizeof(C.c[0])); break;
        case GEO_LINE: { int ax = r.i(3); for(int i = 0; i < 4; i++) for(int k = 0; k < 3; k++) if(k != ax) C.c[i][k] = 0; } break;
        case GEO_FAR: { double d = r.logu(4, 60); for(int i = 2; i < 4; i++) C.c[i][r.i(3)] += d; if(r.p(0.3)) C.c[1][r.i(3)] += r.u(2, 8); } break;
        case GEO_SHIFT: { for(int k = 0; k < 3; k++) { double d = r.u(-300, 300); for(int i = 0; i < 4; i++) C.c[i][k] += d; } } break;
        default: break;
    }
    return C;
}
// place C,D (coincident pairs) so that the Boys argument of the first
// primitives is near a chosen value
inline void target_centers(Rng & r, OShell & a, OShell & b, OShell & c, OShell & d)
{
    static const double xs[] = {36.5, 36.45, 36.55, 36.4, 0.05, 0.049999, 1e-8, 3, 20, 35.95, 45, 80, 400, 1e4, 1e6};
    double x = xs[r.i(sizeof(xs)/sizeof(xs[0]))];
    if(r.p(0.5)) x *= 1 + r.u(-1e-3, 1e-3);
    if(r.p(0.4)) x = r.p(0.7) ? r.u(0, 45) : r.logu(1e-12, 1e3);
    const double p = a.alpha[0]+b.alpha[0], q = c.alpha[0]+d.alpha[0], rho = p*q/(p+q);
    const double R = std::sqrt(x/rho);
    double v[3], n = 0;
    for(int k = 0; k < 3; k++) { v[k] = r.u(-1, 1); n += v[k]*v[k]; }
    n = std::sqrt(n);
    b.x = a.x; b.y = a.y; b.z = a.z;
    c.x = d.x = a.x + R*v[0]/n; c.y = d.y = a.y + R*v[1]/n; c.z = d.z = a.z + R*v[2]/n;
}

// ------------------------------------------------------------ buffers
// A block of doubles with canaries around it, pre-filled with a pattern.
struct Guarded
{
    enum { G = 64 };
    double * base = nullptr, * raw = nullptr;
    size_t n = 0;
    static double canary() { uint64_t b = 0x7ff4deadbeef1234ull; double d; memcpy(&d, &b, 8); return d; } // signalling-style NaN
    explicit Guarded(size_t n_, double fill = NAN) { alloc(n_, fill); }
    Guarded(const Guarded &) = delete;
    ~Guarded() { free(raw); }
    void alloc(size_t n_, double fill)
    {
        // no more aligned than any array of doubles: all eight positions in a line are used in turn
        static std::atomic<unsigned> turn{0};
        free(raw); n = n_;
        if(posix_memalign((void**)&raw, 128, (n+2*G+8)*sizeof(double))) { fprintf(stderr, "out of memory\n"); exit(3); }
        base = raw + (turn++ * 5) % 8;
        uint64_t c = 0x7ff4deadbeef1234ull;
        for(size_t i = 0; i < G; i++) { memcpy(base+i, &c, 8); memcpy(base+G+n+i, &c, 8); }
        this->fill(fill);
    }
    void fill(double v) { for(size_t i = 0; i < n; i++) base[G+i] = v; }
    double * p() { return base+G; }
    double & operator[](size_t i) { return base[G+i]; }
    // index of first damaged canary relative to the block, or LONG_MIN
    long damaged() const
    {
        uint64_t c = 0x7ff4deadbeef1234ull;
        for(size_t i = 0; i < G; i++)
        {
            if(memcmp(base+i, &c, 8)) return (long)i-(long)G;
            if(memcmp(base+G+n+i, &c, 8)) return (long)(n+i);
        }
        return LONG_MIN_;
    }
    static const long LONG_MIN_ = -1000000000L;
};

struct Pairs
{
    simint_multi_shellpair P;
    Pairs() { simint_initialize_multi_shellpair(&P); }
    Pairs(const Pairs &) = delete;
    ~Pairs() { simint_free_multi_shellpair(&P); }
};

// create from explicit pairs
inline void mkpairs(Pairs & p, const std::vector<simint_shell> & a, const std::vector<simint_shell> & b, int screen = 0)
{
    std::vector<simint_shell> ab;
    for(size_t i = 0; i < a.size(); i++) { ab.push_back(a[i]); ab.push_back(b[i]); }
    simint_create_multi_shellpair2((int)a.size(), ab.data(), &p.P, screen);
}
inline int maxam4(int a, int b, int c, int d) { return std::max(std::max(a,b), std::max(c,d)); }

// |v - ref| in units of eps*scale (plus absolute floor for underflow); handles NaN
inline double err_ratio(double v, double hi, double lo, double scale, double extra = 0)
{
    if(!std::isfinite(v)) return INFINITY;
    const double e = std::fabs((v-hi)-lo);
    const double fl = 1e-270;
    const double slack = e - 1.5*extra;
    if(slack <= 0) return 0;
    return slack/(DBL_EPSILON*scale + fl);
}
