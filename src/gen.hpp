// Random batches of shell quartets for one class.
#pragma once
#include "mon.hpp"

struct Batch
{
    int am[4];
    bool zero[4] = {false,false,false,false};
    ShellList A, B, C, D;   // per pair: A[i],B[i] bra; C[j],D[j] ket
    std::vector<simint_shell> ga, gb, gc, gd; // as passed (B may alias A for same-shell pairs)
    Pairs P, Q;
    int nb, nk;
    int geo, ereg;
    size_t ncomp() const { return (size_t)ncart(am[0])*ncart(am[1])*ncart(am[2])*ncart(am[3]); }
    std::string cls() const { return strf("%d%d%d%d", am[0], am[1], am[2], am[3]); }
    std::string desc(int i, int j) const
    {
        return "A=" + show(A.o[i]) + " B=" + show(B.o[i]) + " C=" + show(C.o[j]) + " D=" + show(D.o[j]) +
               strf(" bra pair %d of %d, ket pair %d of %d", i, nb, j, nk);
    }
    void rebuild_pairs(int screen)
    {
        mkpairs(P, ga, gb, screen);
        mkpairs(Q, gc, gd, screen);
    }
};

struct GenOpt
{
    int nb = 0, nk = 0;          // 0: random
    int maxprim = 4;
    bool bigbra = true, bigket = true;
    int zeromask = 0;            // positions replaced by the dummy shell
    int screen = 0;
    int geo = -1, ereg = -1;
    double psame = 0.15, pmoved = 0.05;
    double plong = 0;            // probability that one shell of the batch is long (8 to 24 primitives)
    int cap = 400;               // maximum total primitive pairs per side
};

inline void zero_oshell(OShell & s) { s.am = 0; s.x = s.y = s.z = 0; s.alpha = {0.0}; s.coef = {1.0}; }

inline void gen_batch(Rng & r, Batch & b, const int am[4], const GenOpt & go)
{
    for(int k = 0; k < 4; k++) { b.am[k] = am[k]; b.zero[k] = (go.zeromask >> k) & 1; }
    const int NS = SIMINT_NSHELL_SIMD;
    int kind = r.i(10);
    b.nb = go.nb; b.nk = go.nk;
    if(!b.nb) b.nb = (go.bigbra && kind == 0) ? NS + r.i(1, 3) : r.i(1, 3);
    if(!b.nk) b.nk = (go.bigket && kind >= 1 && kind <= 3) ? r.i(NS-1, 2*NS+1) : (kind == 0 ? r.i(1,2) : r.i(1, 5));
    b.geo = go.geo >= 0 ? go.geo : r.i(NGEO);
    static const int eregs[10] = {0,0,0,0,1,1,1,2,3,4};
    b.ereg = go.ereg >= 0 ? go.ereg : eregs[r.i(10)];
    Centers base = gen_centers(r, b.geo);
    int longshell = -1, nshells = 0;
    if(go.plong > 0 && r.p(go.plong)) longshell = r.i(2*(b.nb + b.nk));
    auto mk = [&](int k, const double * c)
    {
        OShell s;
        s.am = am[k];
        s.x = c[0]; s.y = c[1]; s.z = c[2];
        int np = r.i(1, go.maxprim);
        if(nshells++ == longshell) np = r.i(8, 24);
        gen_prims(r, s, np, r.p(0.1) ? r.i(6) : b.ereg);
        return s;
    };
    OShell z; zero_oshell(z);
    const bool tgt = (b.geo == GEO_TARGET) && !go.zeromask;
    OShell ta, tb;
    for(int side = 0; side < 2; side++)
    {
        ShellList & X = side ? b.C : b.A; ShellList & Y = side ? b.D : b.B;
        std::vector<simint_shell> & gx = side ? b.gc : b.ga; std::vector<simint_shell> & gy = side ? b.gd : b.gb;
        const int n = side ? b.nk : b.nb;
        for(int i = 0; i < n; i++)
        {
            Centers C = base;
            if(i > 0 && r.p(0.7)) C = gen_centers(r, b.geo);
            OShell s1 = mk(2*side, C.c[2*side]), s2 = mk(2*side+1, C.c[2*side+1]);
            if(tgt)
            {
                if(side == 0) { if(i == 0) { s2.x = s1.x; s2.y = s1.y; s2.z = s1.z; ta = s1; tb = s2; } }
                else target_centers(r, ta, tb, s1, s2);
            }
            if(b.zero[2*side]) s1 = z;
            if(b.zero[2*side+1]) s2 = z;
            const bool same = am[2*side] == am[2*side+1] && !b.zero[2*side] && !b.zero[2*side+1] && r.p(go.psame);
            // a copy of the structure, moved: shares the memory of the primitives
            const bool moved = am[2*side] == am[2*side+1] && !b.zero[2*side] && !b.zero[2*side+1] && !same && r.p(go.pmoved);
            X.add(s1);
            if(same) { Y.o.push_back(s1); gx.push_back(X.g.back()); gy.push_back(X.g.back()); }
            else if(moved)
            {
                s2.alpha = s1.alpha; s2.coef = s1.coef;
                simint_shell h = X.g.back();
                h.x = s2.x; h.y = s2.y; h.z = s2.z;
                Y.o.push_back(s2); gx.push_back(X.g.back()); gy.push_back(h);
            }
            else { Y.add(s2); gx.push_back(X.g.back()); gy.push_back(Y.g.back()); }
        }
    }
    b.rebuild_pairs(go.screen);
}

// number of primitive quartets
inline long pq(const Batch & b, int i, int j)
{
    return (long)b.A.o[i].nprim()*b.B.o[i].nprim()*b.C.o[j].nprim()*b.D.o[j].nprim();
}
