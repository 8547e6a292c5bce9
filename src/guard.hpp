// Buffers with inaccessible pages around them, and relocation of shell
// pairs into read-only memory.
#pragma once
#include "mon.hpp"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>

struct GuardPages
{
    char * map = nullptr; size_t maplen = 0;
    char * data = nullptr; size_t bytes = 0; size_t pages = 0;
    std::string name;
    static std::vector<GuardPages*> & all() { static std::vector<GuardPages*> v; return v; }
    static const size_t PG = 4096;
    // atend: as close to the upper guard page as the alignment permits
    GuardPages(size_t n, bool atend, const std::string & nm, size_t align = 64, size_t skew = 0) : bytes(n), name(nm)
    {
        pages = (n + (atend ? 0 : skew) + PG - 1)/PG; if(!pages) pages = 1;
        maplen = (pages+2)*PG;
        map = (char*)mmap(0, maplen, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
        if(map == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); exit(3); }
        if(mprotect(map+PG, pages*PG, PROT_READ|PROT_WRITE)) { fprintf(stderr, "mprotect failed\n"); exit(3); }
        memset(map+PG, 0xA5, pages*PG);
        data = map+PG;
        if(atend) data += ((pages*PG - n)/align)*align;
        else data += skew;
        all().push_back(this);
    }
    GuardPages(const GuardPages &) = delete;
    ~GuardPages()
    {
        munmap(map, maplen);
        auto & v = all();
        v.erase(std::find(v.begin(), v.end(), this));
    }
    double * d() { return (double*)data; }
    void readonly() { mprotect(map+PG, pages*PG, PROT_READ); }
    // slack bytes around the block must stay untouched
    bool intact() const
    {
        for(const char * p = map+PG; p < data; p++) if((unsigned char)*p != 0xA5) return false;
        for(const char * p = data+bytes; p < map+PG+pages*PG; p++) if((unsigned char)*p != 0xA5) return false;
        return true;
    }
};

static char g_what[256] = "";
inline void segv_handler(int sig, siginfo_t * si, void *)
{
    const char * a = (const char*)si->si_addr;
    const char * nm = "unknown address";
    long off = 0;
    for(auto g : GuardPages::all())
        if(a >= g->map && a < g->map+g->maplen) { nm = g->name.c_str(); off = a - g->data; }
    char buf[600];
    int n = snprintf(buf, sizeof(buf), "@@{\"t\":\"viol\",\"key\":\"fault:%s:%s\",\"msg\":\"signal %d accessing %s at byte offset %ld during %s\"}\n", nm, g_what, sig, nm, off, g_what);
    if(write(1, buf, n) < 0) {}
    _exit(1);
}
inline void install_segv()
{
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
    return;
#endif
#endif
#ifndef __SANITIZE_ADDRESS__
    static char stk[65536];
    stack_t ss; memset(&ss, 0, sizeof(ss)); ss.ss_sp = stk; ss.ss_size = sizeof(stk);
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = segv_handler; sa.sa_flags = SA_SIGINFO|SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
#endif
}

// a copy of P whose arrays live in read-only memory that ends at a guard page
struct ROPair
{
    GuardPages g;
    simint_multi_shellpair P;
    ROPair(const simint_multi_shellpair & src, bool atend, const char * nm) : g(src.memsize, atend, nm), P(src)
    {
        memcpy(g.data, src.ptr, src.memsize);
        const ptrdiff_t d = g.data - (char*)src.ptr;
        auto mv = [&](double *& p) { if(p) p = (double*)((char*)p + d); };
        mv(P.AB_x); mv(P.AB_y); mv(P.AB_z); mv(P.x); mv(P.y); mv(P.z);
        mv(P.PA_x); mv(P.PA_y); mv(P.PA_z); mv(P.PB_x); mv(P.PB_y); mv(P.PB_z);
        mv(P.alpha); mv(P.prefac); mv(P.screen);
#if SIMINT_OSTEI_MAXDER > 0
        mv(P.alpha2); mv(P.beta2);
#endif
        P.nprim12 = (int*)((char*)P.nprim12 + d);
        P.ptr = g.data;
        g.readonly();
    }
};

// dirty the stack below the caller
__attribute__((noinline)) inline void poison_stack(unsigned char v)
{
    volatile unsigned char buf[200000];
    for(size_t i = 0; i < sizeof(buf); i++) buf[i] = v;
    __asm__ volatile("" ::: "memory");
}
inline uint64_t hash_bytes(const void * p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char * c = (const unsigned char *)p;
    for(size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
