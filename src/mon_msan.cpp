// MemorySanitizer monitor: every promised output must be computed from
// initialised data. The C++ library is not instrumented, so this harness uses
// nothing of it beyond inlined code.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include "simint/simint.h"
#include "simint/shell/shell_screen.h"
#include "simint/boys/boys.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
#ifndef MSAN
#define __msan_test_shadow(p, n) ((intptr_t)-1)
#define __msan_unpoison(p, n)
#define __msan_allocated_memory(p, n)
#endif
static uint64_t S;
static uint64_t nxt() { uint64_t z = (S += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27))*0x94D049BB133111EBull; return z ^ (z >> 31); }
static double U(double a, double b) { return a + (b-a)*((nxt() >> 11)*(1.0/9007199254740992.0)); }
static int I(int a, int b) { return a + (int)(nxt() % (uint64_t)(b-a+1)); }
static int nc(int l) { return (l+1)*(l+2)/2; }
static long evals = 0, nviol = 0, ncls = 0;
static char D[600000]; static size_t Dn = 0;
static void distinct(const char * k)
{
    ncls++;
    size_t n = strlen(k);
    if(Dn + n + 8 < sizeof(D)) { Dn += snprintf(D+Dn, sizeof(D)-Dn, "%s\"%s\"", Dn ? "," : "", k); }
}
static void viol(const char * key, const char * msg)
{
    if(nviol++ < 20) printf("@@{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\"}\n", key, msg);
}
static void test(const void * p, size_t n, const char * what, const char * key)
{
    evals += (long)(n/sizeof(double));
    intptr_t k = __msan_test_shadow(p, n);
    if(k >= 0)
    {
        char m[300];
        snprintf(m, sizeof(m), "%s: byte %ld of %zu of the %s depends on uninitialised memory", key, (long)k, n, what);
        char kk[200]; snprintf(kk, sizeof(kk), "uninit:%s", key);
        viol(kk, m);
    }
}
static double * dirty(size_t n)
{
    void * p = NULL;
    if(posix_memalign(&p, 64, n*sizeof(double)+64)) exit(3);
    memset(p, 0x41, n*sizeof(double)+64);
    __msan_allocated_memory(p, n*sizeof(double)+64);
    return (double*)p;
}
static void shell(simint_shell * s, int am, const double * c)
{
    double a[8], cf[8];
    int n = I(1, 3);
    for(int i = 0; i < n; i++) { a[i] = std::exp(U(-2, 4)); cf[i] = U(-1, 1.3); }
    simint_initialize_shell(s);
    simint_create_shell(n, am, c[0]+U(-1,1), c[1]+U(-1,1), c[2]+U(-1,1), a, cf, s);
}

int main(int argc, char ** argv)
{
    uint64_t seed = 1; int shard = 0, nshard = 1, cases = 1, oeam = 3;
    for(int i = 1; i+1 < argc; i++)
    {
        if(!strcmp(argv[i], "--seed")) seed = strtoull(argv[i+1], 0, 10);
        if(!strcmp(argv[i], "--shard")) sscanf(argv[i+1], "%d/%d", &shard, &nshard);
        if(!strcmp(argv[i], "--cases")) cases = atoi(argv[i+1]);
        if(!strcmp(argv[i], "--oeam")) oeam = atoi(argv[i+1]);
    }
    simint_init();
    const int L = SIMINT_OSTEI_MAXAM;
    int n = 0;
    char key[64];
    for(int a = 0; a <= L; a++) for(int b = 0; b <= L; b++) for(int c = 0; c <= L; c++) for(int d = 0; d <= L; d++)
    {
        if(n++ % nshard != shard) continue;
        for(int cs = 0; cs < cases; cs++) for(int dv = 0; dv <= SIMINT_OSTEI_MAXDER; dv++)
        {
            int mx = a > b ? a : b; if(c > mx) mx = c; if(d > mx) mx = d;
            if(dv && mx > SIMINT_OSTEI_DERIV1_MAXAM) continue;
            S = seed*7919 + (uint64_t)(((a*16+b)*16+c)*16+d)*1000 + cs*2 + dv;
            nxt();
            snprintf(key, sizeof(key), "%s%d%d%d%d", dv ? "d" : "", a, b, c, d);
            const int nb = I(1, 3), nk = I(0, 2) == 0 ? I(SIMINT_NSHELL_SIMD-1, SIMINT_NSHELL_SIMD+2) : I(1, 3);
            const int scr = mx <= 3 ? I(0, 2) : 0;
            simint_shell sb[2*4], sk[2*64];
            const double far = I(0, 3) == 0 ? U(5, 60) : 0;
            const double o1[3] = {0,0,0}, o2[3] = {far, U(-1,1), 0};
            for(int i = 0; i < nb; i++) { shell(&sb[2*i], a, o1); shell(&sb[2*i+1], b, o1); }
            for(int i = 0; i < nk; i++) { shell(&sk[2*i], c, o2); shell(&sk[2*i+1], d, o2); }
            simint_shell vb[8], vk[128];
            memcpy(vb, sb, sizeof(simint_shell)*2*nb); memcpy(vk, sk, sizeof(simint_shell)*2*nk);
            if(a == b && I(0, 2) == 0) vb[1] = vb[0];
            if(c == d && I(0, 2) == 0) vk[1] = vk[0];
            simint_multi_shellpair P, Q;
            simint_initialize_multi_shellpair(&P); simint_initialize_multi_shellpair(&Q);
            simint_create_multi_shellpair2(nb, vb, &P, scr);
            if(I(0, 2) == 0)
            {
                simint_multi_shellpair q1, q2;
                simint_initialize_multi_shellpair(&q1); simint_initialize_multi_shellpair(&q2);
                simint_create_multi_shellpair2(nk, vk, &q1, scr); simint_create_multi_shellpair2(1, vk, &q2, scr);
                const simint_multi_shellpair * h[2] = {&q1, &q2};
                simint_cat_multi_shellpair(2, h, &Q, scr);
                simint_free_multi_shellpair(&q1); simint_free_multi_shellpair(&q2);
            }
            else simint_create_multi_shellpair2(nk, vk, &Q, scr);
            const size_t wn = simint_eri_worksize(dv, mx), on = (size_t)nc(a)*nc(b)*nc(c)*nc(d)*(dv ? 12 : 1)*P.nshell12*Q.nshell12;
            double * work = dirty(wn), * out = dirty(on);
            const double tol = scr ? std::exp(U(-30, -5)) : 0.0;
            int ret = dv ? simint_compute_eri_deriv(dv, &P, &Q, tol, work, out) : simint_compute_eri(&P, &Q, tol, work, out);
            test(&ret, sizeof(ret), "return value", key);
            if(ret != -1) test(out, on*sizeof(double), "output", key);
            test(&P.screen_max, sizeof(double), "screen_max", key);
            if(scr) test(P.screen, sizeof(double)*P.nprim12[0], "screening values", key);
            if(scr && !dv)
            {
                double v[64];
                __msan_allocated_memory(v, sizeof(v));
                double m1 = simint_primscreen(&vb[0], &vb[1], v, scr), m2 = simint_shellscreen(&vb[0], &vb[1], scr);
                test(&m1, 8, "largest primitive screening value", key);
                test(&m2, 8, "shell screening value", key);
                test(v, 8*(compare_shell(&vb[0], &vb[1]) ? vb[0].nprim*(vb[0].nprim+1)/2 : vb[0].nprim*vb[1].nprim), "primitive screening values", key);
            }
            free(work); free(out);
            simint_free_multi_shellpair(&P); simint_free_multi_shellpair(&Q);
            for(int i = 0; i < 2*nb; i++) simint_free_shell(&sb[i]);
            for(int i = 0; i < 2*nk; i++) simint_free_shell(&sk[i]);
            if(cs == 0) distinct(key);
        }
    }
    n = 0;
    for(int a = 0; a <= oeam; a++) for(int b = 0; b <= oeam; b++)
    {
        if(n++ % nshard != shard) continue;
        S = seed*104729 + a*64+b; nxt();
        const double o[3] = {0,0,0};
        simint_shell s1, s2;
        shell(&s1, a, o); shell(&s2, b, o);
        const size_t on = (size_t)nc(a)*nc(b);
        double * out = dirty(on);
        snprintf(key, sizeof(key), "overlap%d%d", a, b);
        int r = simint_compute_overlap(&s1, &s2, out); test(&r, sizeof(r), "return value", key); test(out, on*8, "output", key);
        __msan_allocated_memory(out, on*8);
        snprintf(key, sizeof(key), "ke%d%d", a, b);
        r = simint_compute_ke(&s1, &s2, out); test(&r, sizeof(r), "return value", key); test(out, on*8, "output", key);
        __msan_allocated_memory(out, on*8);
        snprintf(key, sizeof(key), "potential%d%d", a, b);
        double Z[3] = {1, 8, 0}, x[3] = {0, U(-3,3), 30}, y[3] = {s1.x, U(-3,3), 0}, z[3] = {0, 1, 2};
        r = simint_compute_potential(3, Z, x, y, z, &s1, &s2, out); test(&r, sizeof(r), "return value", key); test(out, on*8, "output", key);
        free(out);
        distinct(key);
        // normalisation
        simint_normalize_shells(1, &s1);
        test(s1.coef, 8*s1.nprim, "normalised coefficients", "normalize");
        simint_shell cp; simint_initialize_shell(&cp);
        simint_copy_shell(&s1, &cp);
        test(cp.coef, 8*cp.nprim, "copied coefficients", "copy"); test(cp.alpha, 8*cp.nprim, "copied exponents", "copy");
        simint_free_shell(&cp); simint_free_shell(&s1); simint_free_shell(&s2);
    }
    for(int k = 0; k < 200; k++)
    {
        SIMINT_DBLTYPE F[40], x;
        double xd[SIMINT_SIMD_LEN];
        for(int i = 0; i < SIMINT_SIMD_LEN; i++) xd[i] = I(0,1) ? U(0, 40) : std::exp(U(-10, 12));
        memcpy(&x, xd, sizeof(xd));
        const int m = I(0, 24);
        __msan_allocated_memory(F, sizeof(F));
        boys_F_split(F, x, m);
        test(F, (m+1)*sizeof(SIMINT_DBLTYPE), "Boys function values", "boys");
    }
    simint_finalize();
    printf("@@{\"t\":\"stat\",\"evals\":%ld,\"distinct\":[%s],\"stats\":{\"outputs_checked_for_uninitialised_data\":%ld}}\n@@{\"t\":\"done\"}\n", evals, D, ncls);
    return 0;
}
