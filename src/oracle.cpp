#include "oracle.h"
#include <cmath>
#include <algorithm>
#include <array>
#include <cstring>
#ifdef ORACLE_QUAD
#include <quadmath.h>
#endif

namespace {

typedef long double ld;

template<class T> struct M;
template<> struct M<ld>
{
    static ld exp(ld x) { return expl(x); }
    static ld sqrt(ld x) { return sqrtl(x); }
    static ld erf(ld x) { return erfl(x); }
    static ld pi() { return 3.14159265358979323846264338327950288419716939937510L; }
    static ld tiny() { return 1e-22L; }
};
template<> struct M<double>
{
    static double exp(double x) { return std::exp(x); }
    static double sqrt(double x) { return std::sqrt(x); }
    static double erf(double x) { return std::erf(x); }
    static double pi() { return 3.14159265358979323846; }
    static double tiny() { return 1e-10; }
};
#ifdef ORACLE_QUAD
template<> struct M<__float128>
{
    static __float128 exp(__float128 x) { return expq(x); }
    static __float128 sqrt(__float128 x) { return sqrtq(x); }
    static __float128 erf(__float128 x) { return erfq(x); }
    static __float128 pi() { return M_PIq; }
    static __float128 tiny() { return 1e-37Q; }
};
#endif

struct Cart { int e[3]; };
const std::vector<Cart> & carts(int l)
{
    static std::vector<std::vector<Cart>> all = []{
        std::vector<std::vector<Cart>> v(40);
        for(int L = 0; L < 40; L++)
            for(int i = L; i >= 0; i--)
                for(int j = L-i; j >= 0; j--)
                    v[L].push_back(Cart{{i,j,L-i-j}});
        return v;
    }();
    return all[l];
}
inline int cidx(int i, int j, int k) { int r = j+k; return r*(r+1)/2 + k; }

template<class T> void boys(T x, int n, T * F)
{
    if(x < T(100))
    {
        // ascending series for the highest order (all terms positive), then down
        const T ex = M<T>::exp(-x);
        T term = T(1)/T(2*n+1), sum = term;
        for(int k = 1; k < 2000; k++)
        {
            term *= 2*x/T(2*n+2*k+1);
            sum += term;
            if(term < sum*M<T>::tiny())
                break;
        }
        F[n] = ex*sum;
        for(int m = n-1; m >= 0; m--)
            F[m] = (2*x*F[m+1] + ex)/T(2*m+1);
    }
    else
    {
        const T ex = M<T>::exp(-x);
        F[0] = M<T>::sqrt(M<T>::pi()/x)/2*M<T>::erf(M<T>::sqrt(x));
        for(int m = 0; m < n; m++)
            F[m+1] = (T(2*m+1)*F[m]-ex)/(2*x);
    }
}

// 1-D Hermite expansion coefficients E[i][j][t]
template<class T> struct E1
{
    int ni, nj;
    std::vector<T> v;
    T & at(int i, int j, int t) { return v[(i*(nj+1)+j)*(ni+nj+2)+t]; }
    void build(int ni_, int nj_, T p, T pa, T pb)
    {
        ni = ni_; nj = nj_;
        v.assign((ni+1)*(nj+1)*(ni+nj+2), T(0));
        const T o2p = T(1)/(2*p);
        at(0,0,0) = 1;
        for(int i = 0; i <= ni; i++)
        for(int j = 0; j <= nj; j++)
        {
            if(i == 0 && j == 0) continue;
            const bool fromi = (i > 0);
            const int i0 = fromi ? i-1 : i, j0 = fromi ? j : j-1;
            const T d = fromi ? pa : pb;
            for(int t = 0; t <= i+j; t++)
            {
                T s = d*at(i0,j0,t);
                if(t > 0) s += o2p*at(i0,j0,t-1);
                if(t+1 <= i0+j0) s += T(t+1)*at(i0,j0,t+1);
                at(i,j,t) = s;
            }
        }
    }
};

template<class T> struct RTab
{
    int L;
    std::vector<T> r; // (L+1)^3
    T at(int t, int u, int v) const { return r[(t*(L+1)+u)*(L+1)+v]; }
    void build(int L_, T al, T px, T py, T pz)
    {
        L = L_;
        const int n1 = L+1, n3 = n1*n1*n1;
        std::vector<T> F(L+1), cur(n3, T(0)), nxt(n3, T(0));
        boys<T>(al*(px*px+py*py+pz*pz), L, F.data());
        std::vector<T> f2(L+1);
        T fac = 1;
        for(int m = 0; m <= L; m++) { f2[m] = fac*F[m]; fac *= -2*al; }
        for(int m = L; m >= 0; m--)
        {
            const int lim = L-m;
            // cur holds order m+1 (total <= lim-1)
            nxt[0] = f2[m];
            for(int t = 0; t <= lim; t++)
            for(int u = 0; t+u <= lim; u++)
            for(int v = 0; t+u+v <= lim; v++)
            {
                if(t+u+v == 0) continue;
                T s;
                if(t > 0) { s = px*cur[((t-1)*n1+u)*n1+v]; if(t > 1) s += T(t-1)*cur[((t-2)*n1+u)*n1+v]; }
                else if(u > 0) { s = py*cur[(t*n1+u-1)*n1+v]; if(u > 1) s += T(u-1)*cur[(t*n1+u-2)*n1+v]; }
                else { s = pz*cur[(t*n1+u)*n1+v-1]; if(v > 1) s += T(v-1)*cur[(t*n1+u)*n1+v-2]; }
                nxt[(t*n1+u)*n1+v] = s;
            }
            std::swap(cur, nxt);
        }
        r = cur;
    }
};

template<class T> struct PairP // primitive pair
{
    T a, b, p, P[3], PA[3], PB[3], K, mu, arg;
    void set(const OShell & A, int i, const OShell & B, int j)
    {
        a = A.alpha[i]; b = B.alpha[j]; p = a+b;
        const T X[3] = {T(A.x),T(A.y),T(A.z)}, Y[3] = {T(B.x),T(B.y),T(B.z)};
        T r2 = 0;
        for(int k = 0; k < 3; k++)
        {
            P[k] = (a*X[k]+b*Y[k])/p;
            // exact in exponents: avoids cancellation
            PA[k] = b*(Y[k]-X[k])/p;
            PB[k] = a*(X[k]-Y[k])/p;
            r2 += (X[k]-Y[k])*(X[k]-Y[k]);
        }
        mu = a*b/p; arg = mu*r2;
        K = M<T>::exp(-arg) * T(A.coef[i])*T(B.coef[j]);
    }
};

// Sparse expansion of one cartesian pair component in Hermites of that pair
template<class T> struct HExp { std::vector<int> idx; std::vector<T> w; };

// deriv: -1 none, 0..2 derivative on first centre, 3..5 on second centre
template<class T> void expand(E1<T> e[3], int la, int lb, T a, T b, int deriv, int L1, std::vector<HExp<T>> & out)
{
    const auto & ca = carts(la); const auto & cb = carts(lb);
    out.resize(ca.size()*cb.size());
    std::vector<T> f[3];
    for(size_t ia = 0; ia < ca.size(); ia++)
    for(size_t ib = 0; ib < cb.size(); ib++)
    {
        for(int k = 0; k < 3; k++)
        {
            const int i = ca[ia].e[k], j = cb[ib].e[k];
            f[k].assign(i+j+2, T(0));
            if(deriv == k)
                for(int t = 0; t <= i+1+j; t++)
                {
                    T s = 2*a*e[k].at(i+1,j,t);
                    if(i > 0 && t <= i-1+j) s -= T(i)*e[k].at(i-1,j,t);
                    f[k][t] = s;
                }
            else if(deriv == k+3)
                for(int t = 0; t <= i+1+j; t++)
                {
                    T s = 2*b*e[k].at(i,j+1,t);
                    if(j > 0 && t <= i+j-1) s -= T(j)*e[k].at(i,j-1,t);
                    f[k][t] = s;
                }
            else
                for(int t = 0; t <= i+j; t++)
                    f[k][t] = e[k].at(i,j,t);
        }
        HExp<T> & h = out[ia*cb.size()+ib];
        h.idx.clear(); h.w.clear();
        for(size_t t = 0; t < f[0].size(); t++) if(f[0][t] != T(0))
        for(size_t u = 0; u < f[1].size(); u++) if(f[1][u] != T(0))
        for(size_t v = 0; v < f[2].size(); v++) if(f[2][v] != T(0))
        {
            h.idx.push_back((int)((t*L1+u)*L1+v));
            h.w.push_back(f[0][t]*f[1][u]*f[2][v]);
        }
    }
}

template<class T> void build_e(E1<T> e[3], const PairP<T> & p, int la, int lb)
{
    for(int k = 0; k < 3; k++)
        e[k].build(la, lb, p.p, p.PA[k], p.PB[k]);
}

// contribution of a primitive quartet: out[ab*ncd+cd] (+)= sum
template<class T> void quartet(const std::vector<HExp<T>> & hb, const std::vector<HExp<T>> & hk, const RTab<T> & R,
                               int Lb, int Lk, T pre, T * out, size_t stride)
{
    const int L1 = R.L+1;
    (void)Lk;
    const size_t nab = hb.size(), ncd = hk.size();
    // hermite list of bra
    static thread_local std::vector<int> tuv;
    static thread_local std::vector<int> pos;
    static thread_local std::vector<T> q;
    tuv.clear();
    pos.assign((size_t)L1*L1*L1, -1);
    for(int t = 0; t <= Lb; t++) for(int u = 0; t+u <= Lb; u++) for(int v = 0; t+u+v <= Lb; v++)
    {
        pos[(t*L1+u)*L1+v] = (int)tuv.size();
        tuv.push_back((t*L1+u)*L1+v);
    }
    const size_t nh = tuv.size();
    q.assign(nh*ncd, T(0));
    for(size_t cd = 0; cd < ncd; cd++)
    {
        for(size_t n = 0; n < hk[cd].idx.size(); n++)
        {
            const int id = hk[cd].idx[n];
            const int par = (id/(L1*L1)) + (id/L1)%L1 + id%L1;
            const T w = (par & 1) ? -hk[cd].w[n] : hk[cd].w[n];
            for(size_t h = 0; h < nh; h++)
                q[h*ncd+cd] += w*R.r[tuv[h]+id];
        }
    }
    for(size_t ab = 0; ab < nab; ab++)
    {
        T * o = out + ab*ncd*stride;
        for(size_t n = 0; n < hb[ab].idx.size(); n++)
        {
            const T w = pre*hb[ab].w[n];
            const T * qq = &q[(size_t)pos[hb[ab].idx[n]]*ncd];
            for(size_t cd = 0; cd < ncd; cd++)
                o[cd*stride] += w*qq[cd];
        }
    }
}

template<class T> void store(const std::vector<T> & v, ORef & r)
{
    r.hi.resize(v.size()); r.lo.resize(v.size());
    for(size_t i = 0; i < v.size(); i++)
    {
        r.hi[i] = (double)v[i];
        r.lo[i] = std::isfinite(r.hi[i]) ? (double)(v[i]-T(r.hi[i])) : 0.0;
    }
}

template<class T> void eri_values(const OShell & A, const OShell & B, const OShell & C, const OShell & D, ORef & r, bool deriv, bool absum)
{
    const size_t nab = ncart(A.am)*ncart(B.am), ncd = ncart(C.am)*ncart(D.am);
    const int x = deriv ? 1 : 0;
    const int L = A.am+B.am+C.am+D.am+x, L1 = L+1;
    const size_t str = deriv ? 12 : 1;
    std::vector<T> out(nab*ncd*str, T(0)), one;
    if(absum) r.absum.assign(nab*ncd*str, 0.0);
    RTab<T> R;
    E1<T> eb[3], ek[3];
    // ket expansions are the same for all bra primitives: cache
    struct Ket { PairP<T> p; std::vector<HExp<T>> h[7]; };
    std::vector<Ket> kets;
    for(int k = 0; k < C.nprim(); k++)
    for(int l = 0; l < D.nprim(); l++)
    {
        kets.emplace_back();
        Ket & kt = kets.back();
        kt.p.set(C,k,D,l);
        if(!(C.coef[k]*D.coef[l] != 0)) { kets.pop_back(); continue; }
        build_e(ek, kt.p, C.am+x, D.am+x);
        for(int dv = -1; dv < (deriv ? 6 : 0); dv++)
            expand(ek, C.am, D.am, kt.p.a, kt.p.b, dv, L1, kt.h[dv+1]);
    }
    for(int i = 0; i < A.nprim(); i++)
    for(int j = 0; j < B.nprim(); j++)
    {
        PairP<T> bp; bp.set(A,i,B,j);
        if(!(bp.K != T(0))) continue;
        std::vector<HExp<T>> hb[7];
        build_e(eb, bp, A.am+x, B.am+x);
        for(int dv = -1; dv < (deriv ? 6 : 0); dv++)
            expand(eb, A.am, B.am, bp.a, bp.b, dv, L1, hb[dv+1]);
        for(auto & kt : kets)
        {
            if(!(kt.p.K != T(0))) continue;
            const T p = bp.p, q = kt.p.p;
            R.build(L, p*q/(p+q), bp.P[0]-kt.p.P[0], bp.P[1]-kt.p.P[1], bp.P[2]-kt.p.P[2]);
            const T pi = M<T>::pi();
            const T pre = 2*pi*pi*M<T>::sqrt(pi)/(p*q*M<T>::sqrt(p+q))*bp.K*kt.p.K;
            T * dst = out.data();
            if(absum) { one.assign(out.size(), T(0)); dst = one.data(); }
            if(!deriv)
                quartet(hb[0], kt.h[0], R, A.am+B.am, C.am+D.am, pre, dst, 1);
            else
                for(int dv = 0; dv < 6; dv++)
                {
                    quartet(hb[dv+1], kt.h[0], R, A.am+B.am+1, C.am+D.am, pre, dst+dv, 12);
                    quartet(hb[0], kt.h[dv+1], R, A.am+B.am, C.am+D.am+1, pre, dst+6+dv, 12);
                }
            if(absum)
                for(size_t n = 0; n < out.size(); n++)
                {
                    out[n] += one[n];
                    r.absum[n] += std::fabs((double)one[n]);
                }
        }
    }
    store(out, r);
}

////////////////////////////////////////////////////////////////////////
// Rounding majorant: Obara-Saika / Head-Gordon-Pople recursion evaluated
// with absolute values
////////////////////////////////////////////////////////////////////////
const double HSTEP = 1.0/1024;

// offsets of cartesian index lists by am
int coff(int l) { return l*(l+1)*(l+2)/6; }

struct VTab // v[e][f] for all e with am <= le, all f with am <= lf
{
    int le, lf, ne, nf;
    std::vector<double> v;
    void init(int a, int b) { le = a; lf = b; ne = coff(a+1); nf = coff(b+1); v.assign((size_t)ne*nf, 0.0); }
};

struct CInfo { int l, e[3]; int down1[3], down2[3]; int dir; };
const std::vector<CInfo> & cinfo(int lmax)
{
    static std::vector<CInfo> v = []{
        std::vector<CInfo> r;
        for(int l = 0; l < 22; l++)
            for(const auto & c : carts(l))
            {
                CInfo x; x.l = l; x.dir = -1;
                for(int k = 0; k < 3; k++)
                {
                    x.e[k] = c.e[k];
                    int d[3] = {c.e[0],c.e[1],c.e[2]};
                    d[k]--;
                    x.down1[k] = d[k] >= 0 ? coff(l-1)+cidx(d[0],d[1],d[2]) : -1;
                    d[k]--;
                    x.down2[k] = d[k] >= 0 ? coff(l-2)+cidx(d[0],d[1],d[2]) : -1;
                    if(c.e[k] > 0 && (x.dir < 0 || c.e[k] < c.e[x.dir])) x.dir = k;
                }
                r.push_back(x);
            }
        return r;
    }();
    (void)lmax;
    return v;
}

// one primitive quartet; adds fac * table to each of the given targets
void vrr_majorant(int le, int lf, double p, double q, const double * pa, const double * qc, const double * pq,
                  const double * base, std::vector<double> & out)
{
    const int L = le+lf;
    const auto & ci = cinfo(L);
    const int ne = coff(le+1), nf = coff(lf+1);
    const double rho = p*q/(p+q);
    const double rp = rho/p, rq = rho/q, o2p = 0.5/p, o2q = 0.5/q, o2pq = 0.5/(p+q);
    static thread_local std::vector<double> t;
    t.assign((size_t)(L+1)*ne*nf, 0.0);
    const size_t ms = (size_t)ne*nf;
    for(int m = 0; m <= L; m++) t[m*ms] = base[m];
    for(int e = 0; e < ne; e++)
    {
        const CInfo & ce = ci[e];
        for(int f = 0; f < nf; f++)
        {
            const CInfo & cf = ci[f];
            if(e == 0 && f == 0) continue;
            const int mmax = L-ce.l-cf.l;
            if(f == 0)
            {
                const int k = ce.dir;
                const double * s1 = &t[(size_t)ce.down1[k]*nf];
                const double * s2 = ce.down2[k] >= 0 ? &t[(size_t)ce.down2[k]*nf] : nullptr;
                const double n1 = ce.e[k]-1;
                for(int m = 0; m <= mmax; m++)
                {
                    double s = pa[k]*s1[m*ms] + rp*pq[k]*s1[(m+1)*ms];
                    if(s2) s += n1*o2p*(s2[m*ms]+rp*s2[(m+1)*ms]);
                    t[m*ms+(size_t)e*nf] = s;
                }
            }
            else
            {
                const int k = cf.dir;
                const double * s1 = &t[(size_t)e*nf+cf.down1[k]];
                const double * s2 = cf.down2[k] >= 0 ? &t[(size_t)e*nf+cf.down2[k]] : nullptr;
                const double * s3 = ce.down1[k] >= 0 ? &t[(size_t)ce.down1[k]*nf+cf.down1[k]] : nullptr;
                const double n1 = cf.e[k]-1, n2 = ce.e[k];
                for(int m = 0; m <= mmax; m++)
                {
                    double s = qc[k]*s1[m*ms] + rq*pq[k]*s1[(m+1)*ms];
                    if(s2) s += n1*o2q*(s2[m*ms]+rq*s2[(m+1)*ms]);
                    if(s3) s += n2*o2pq*s3[(m+1)*ms];
                    t[m*ms+(size_t)e*nf+f] = s;
                }
            }
        }
    }
    out.assign(t.begin(), t.begin()+ms);
}

// weights of (ab| in terms of (e0|, absolute HRR. first=true: built on first centre
struct W { std::vector<int> idx; std::vector<double> w; };
void hrr_weights(int la, int lb, const double * ab, bool first, std::vector<W> & out)
{
    const auto & ca = carts(la); const auto & cb = carts(lb);
    out.assign(ca.size()*cb.size(), W());
    for(size_t i = 0; i < ca.size(); i++)
    for(size_t j = 0; j < cb.size(); j++)
    {
        W & w = out[i*cb.size()+j];
        const int * keep = first ? ca[i].e : cb[j].e;
        const int * mv = first ? cb[j].e : ca[i].e;
        for(int kx = 0; kx <= mv[0]; kx++)
        for(int ky = 0; ky <= mv[1]; ky++)
        for(int kz = 0; kz <= mv[2]; kz++)
        {
            const int kk[3] = {kx,ky,kz};
            double f = 1;
            for(int d = 0; d < 3; d++)
            {
                double bin = 1;
                for(int n = 0; n < kk[d]; n++) bin = bin*(mv[d]-n)/(n+1);
                f *= bin*std::pow(ab[d], mv[d]-kk[d]);
            }
            const int e0 = keep[0]+kx, e1 = keep[1]+ky, e2 = keep[2]+kz;
            w.idx.push_back(coff(e0+e1+e2)+cidx(e0,e1,e2));
            w.w.push_back(f);
        }
    }
}

void apply_w(const std::vector<W> & wb, const std::vector<W> & wk, const VTab & V, std::vector<double> & out)
{
    const size_t nk = wk.size();
    std::vector<double> half((size_t)V.ne*nk, 0.0);
    for(int e = 0; e < V.ne; e++)
        for(size_t k = 0; k < nk; k++)
        {
            double s = 0;
            for(size_t n = 0; n < wk[k].idx.size(); n++) s += wk[k].w[n]*V.v[(size_t)e*V.nf+wk[k].idx[n]];
            half[e*nk+k] = s;
        }
    out.assign(wb.size()*nk, 0.0);
    for(size_t b = 0; b < wb.size(); b++)
        for(size_t n = 0; n < wb[b].idx.size(); n++)
            for(size_t k = 0; k < nk; k++)
                out[b*nk+k] += wb[b].w[n]*half[(size_t)wb[b].idx[n]*nk+k];
}

struct PairD { double a,b,p,P[3],PA[3],PB[3],K,arg; };
void pair_d(const OShell & A, int i, const OShell & B, int j, PairD & o)
{
    PairP<ld> t; t.set(A,i,B,j);
    o.a = t.a; o.b = t.b; o.p = t.p; o.K = std::fabs((double)t.K); o.arg = t.arg;
    for(int k = 0; k < 3; k++) { o.P[k] = t.P[k]; o.PA[k] = std::fabs((double)t.PA[k]); o.PB[k] = std::fabs((double)t.PB[k]); }
}

// accumulate majorants of all classes needed
void eri_scale(const OShell & A, const OShell & B, const OShell & C, const OShell & D, ORef & r, bool deriv)
{
    const int x = deriv ? 1 : 0;
    const int le = A.am+B.am+x, lf = C.am+D.am+x, L = le+lf;
    const int Lreal = A.am+B.am+C.am+D.am+x;
    const size_t nab = ncart(A.am)*ncart(B.am), ncd = ncart(C.am)*ncart(D.am);
    const double S = std::max({std::fabs(A.x),std::fabs(A.y),std::fabs(A.z),std::fabs(B.x),std::fabs(B.y),std::fabs(B.z),
                               std::fabs(C.x),std::fabs(C.y),std::fabs(C.z),std::fabs(D.x),std::fabs(D.y),std::fabs(D.z)});
    const int str = deriv ? 12 : 1;
    // tol[pass][component*str + d]
    std::vector<double> tot[2];
    r.extra.assign(nab*ncd*str, 0.0);
    for(int pass = 0; pass < 3; pass++)
    {
        // pass 0: plain; pass 1: displaced (noise in the coordinates);
        // pass 2: long-range truncation of low orders (small total L only)
        if(pass == 2 && Lreal >= 4) break;
        const double noise = (pass == 1) ? HSTEP*S : 0.0;
        std::vector<double> acc(nab*ncd*str, 0.0);
        bool any = false;
        for(int choice = 0; choice < 4; choice++)
        {
            const bool f1 = (choice & 1) == 0, f2 = (choice & 2) == 0;
            // angular momentum is built up on the first or the second centre
            if(f1 ? (A.am == 0 && B.am > 0) : (B.am == 0 || A.am+B.am == 0)) continue;
            if(f2 ? (C.am == 0 && D.am > 0) : (D.am == 0 || C.am+D.am == 0)) continue;
            // tables: 0 plain, 1: *2a 2: *2b 3: *2c 4: *2d
            VTab V[5];
            for(int t = 0; t < (deriv ? 5 : 1); t++) V[t].init(le, lf);
            std::vector<double> tab;
            for(int i = 0; i < A.nprim(); i++)
            for(int j = 0; j < B.nprim(); j++)
            {
                PairD bp; pair_d(A,i,B,j,bp);
                if(bp.K == 0) continue;
                for(int k = 0; k < C.nprim(); k++)
                for(int l = 0; l < D.nprim(); l++)
                {
                    PairD kp; pair_d(C,k,D,l,kp);
                    if(kp.K == 0) continue;
                    const double p = bp.p, q = kp.p, rho = p*q/(p+q);
                    double pq[3], pq2 = 0, pa[3], qc[3];
                    for(int d = 0; d < 3; d++)
                    {
                        const double dd = bp.P[d]-kp.P[d];
                        pq2 += dd*dd;
                        pq[d] = std::fabs(dd) + noise;
                        pa[d] = (f1 ? bp.PA[d] : bp.PB[d]) + noise;
                        qc[d] = (f2 ? kp.PA[d] : kp.PB[d]) + noise;
                    }
                    double F[48];
                    const double xx = rho*pq2;
                    boys<double>(xx, L+1, F);
                    if(pass == 1)
                        for(int m = 0; m <= L; m++) F[m] += F[m+1]*(2*rho*std::sqrt(3*pq2)*S*HSTEP);
                    if(pass == 2)
                    {
                        const bool lr = xx > 36.4;
                        any |= lr;
                        double t = 0;
                        for(int m = 0; m <= L; m++)
                        {
                            F[m] = lr ? t : 0.0;
                            t = ((2*m+1)*t + std::exp(-xx))/(2*xx);
                        }
                        if(!lr) continue;
                    }
                    const double pre = 34.986836655249726/(p*q*std::sqrt(p+q))*bp.K*kp.K*(pass == 2 ? 1.0 : (1+bp.arg+kp.arg));
                    for(int m = 0; m <= L; m++) F[m] *= pre;
                    vrr_majorant(le, lf, p, q, pa, qc, pq, F, tab);
                    for(size_t n = 0; n < tab.size(); n++) V[0].v[n] += tab[n];
                    if(deriv)
                    {
                        const double fac[4] = {2*bp.a, 2*bp.b, 2*kp.a, 2*kp.b};
                        for(int t = 0; t < 4; t++)
                            for(size_t n = 0; n < tab.size(); n++) V[t+1].v[n] += fac[t]*tab[n];
                    }
                }
            }
            const double AB[3] = {std::fabs(A.x-B.x), std::fabs(A.y-B.y), std::fabs(A.z-B.z)};
            const double CD[3] = {std::fabs(C.x-D.x), std::fabs(C.y-D.y), std::fabs(C.z-D.z)};
            std::vector<W> wb, wk;
            std::vector<double> o;
            hrr_weights(A.am, B.am, AB, f1, wb);
            hrr_weights(C.am, D.am, CD, f2, wk);
            if(!deriv)
            {
                apply_w(wb, wk, V[0], o);
                for(size_t n = 0; n < o.size(); n++) acc[n] = std::max(acc[n], o[n]);
            }
            else
            {
                const int am[4] = {A.am,B.am,C.am,D.am};
                std::vector<double> dsum(nab*ncd*3, 0.0);
                for(int c = 0; c < 4; c++)
                {
                    for(int sgn = 1; sgn >= -1; sgn -= 2)
                    {
                        int m[4] = {am[0],am[1],am[2],am[3]};
                        m[c] += sgn;
                        if(m[c] < 0) continue;
                        std::vector<W> w2;
                        if(c < 2) { hrr_weights(m[0], m[1], AB, f1, w2); apply_w(w2, wk, V[sgn > 0 ? c+1 : 0], o); }
                        else      { hrr_weights(m[2], m[3], CD, f2, w2); apply_w(wb, w2, V[sgn > 0 ? c+1 : 0], o); }
                        const int n0 = ncart(m[0]), n1 = ncart(m[1]), n2 = ncart(m[2]), n3 = ncart(m[3]);
                        (void)n0;
                        size_t comp = 0;
                        for(const auto & ca : carts(am[0])) for(const auto & cb : carts(am[1]))
                        for(const auto & cc : carts(am[2])) for(const auto & cd : carts(am[3]))
                        {
                            Cart cs[4] = {ca,cb,cc,cd};
                            for(int k = 0; k < 3; k++)
                            {
                                Cart e = cs[c];
                                const double f = sgn > 0 ? 1.0 : (double)e.e[k];
                                e.e[k] += sgn;
                                if(e.e[k] < 0) continue;
                                int ix[4];
                                for(int z = 0; z < 4; z++)
                                {
                                    const Cart & y = (z == c) ? e : cs[z];
                                    ix[z] = cidx(y.e[0],y.e[1],y.e[2]);
                                }
                                dsum[comp*3+k] += f*o[((((size_t)ix[0]*n1+ix[1])*n2)+ix[2])*n3+ix[3]];
                            }
                            comp++;
                        }
                    }
                }
                for(size_t n = 0; n < nab*ncd; n++)
                    for(int c = 0; c < 4; c++)
                        for(int k = 0; k < 3; k++)
                            acc[n*12+3*c+k] = std::max(acc[n*12+3*c+k], dsum[n*3+k]);
            }
        }
        if(pass < 2) tot[pass] = acc;
        else if(any) r.extra = acc;
    }
    r.scale.resize(tot[0].size());
    for(size_t n = 0; n < tot[0].size(); n++)
        r.scale[n] = tot[0][n] + (tot[1][n]-tot[0][n])/HSTEP;
}

////////////////////////////////////////////////////////////////////////
// One-electron
////////////////////////////////////////////////////////////////////////
// 1-D overlap moments s[i][j] in T
template<class T> T ov1(E1<T> & e, int i, int j) { return (i < 0 || j < 0) ? T(0) : e.at(i,j,0); }

template<class T> void oe_values(const OShell & A, const OShell & B, ORef & r, int what)
{
    const auto & ca = carts(A.am); const auto & cb = carts(B.am);
    std::vector<T> out(ca.size()*cb.size(), T(0));
    for(int i = 0; i < A.nprim(); i++)
    for(int j = 0; j < B.nprim(); j++)
    {
        PairP<T> p; p.set(A,i,B,j);
        E1<T> e[3];
        build_e(e, p, A.am+2, B.am+2);
        const T pi = M<T>::pi();
        const T pre = p.K*(pi/p.p)*M<T>::sqrt(pi/p.p);
        for(size_t a = 0; a < ca.size(); a++)
        for(size_t b = 0; b < cb.size(); b++)
        {
            T s[3], k[3];
            for(int d = 0; d < 3; d++)
            {
                const int x = ca[a].e[d], y = cb[b].e[d];
                s[d] = ov1(e[d],x,y);
                // -1/2 d^2/dx^2 on b
                const T be = p.b;
                k[d] = -(T(y)*T(y-1)*ov1(e[d],x,y-2) - 2*be*T(2*y+1)*ov1(e[d],x,y) + 4*be*be*ov1(e[d],x,y+2))/2;
            }
            if(what == 0) out[a*cb.size()+b] += pre*s[0]*s[1]*s[2];
            else out[a*cb.size()+b] += pre*(k[0]*s[1]*s[2]+s[0]*k[1]*s[2]+s[0]*s[1]*k[2]);
        }
    }
    store(out, r);
}

// majorant for overlap / ke
void oe_scale(const OShell & A, const OShell & B, ORef & r, int what)
{
    const auto & ca = carts(A.am); const auto & cb = carts(B.am);
    const double S = std::max({std::fabs(A.x),std::fabs(A.y),std::fabs(A.z),std::fabs(B.x),std::fabs(B.y),std::fabs(B.z)});
    std::vector<double> tot[2];
    for(int pass = 0; pass < 2; pass++)
    {
        const double noise = pass ? HSTEP*S : 0.0;
        tot[pass].assign(ca.size()*cb.size(), 0.0);
        for(int i = 0; i < A.nprim(); i++)
        for(int j = 0; j < B.nprim(); j++)
        {
            PairD p; pair_d(A,i,B,j,p);
            E1<double> e[3];
            for(int d = 0; d < 3; d++) e[d].build(A.am+2, B.am+2, p.p, p.PA[d]+noise, p.PB[d]+noise);
            const double pre = p.K*std::pow(3.14159265358979/p.p, 1.5)*(1+p.arg);
            for(size_t a = 0; a < ca.size(); a++)
            for(size_t b = 0; b < cb.size(); b++)
            {
                double s[3], k[3];
                for(int d = 0; d < 3; d++)
                {
                    const int x = ca[a].e[d], y = cb[b].e[d];
                    const double be = p.b, al = p.a;
                    s[d] = ov1(e[d],x,y);
                    // all the ways of forming it (on a, on b, mixed)
                    k[d] = 0.5*(y*(y-1)*ov1(e[d],x,y-2) + 2*be*(2*y+1)*ov1(e[d],x,y) + 4*be*be*ov1(e[d],x,y+2))
                         + 0.5*(x*(x-1)*ov1(e[d],x-2,y) + 2*al*(2*x+1)*ov1(e[d],x,y) + 4*al*al*ov1(e[d],x+2,y))
                         + 0.5*(x*y*ov1(e[d],x-1,y-1) + 2*al*y*ov1(e[d],x+1,y-1) + 2*be*x*ov1(e[d],x-1,y+1) + 4*al*be*ov1(e[d],x+1,y+1))
                         + p.arg/std::max(1e-300,(1.0))*2*al*be/p.p*s[d];
                }
                if(what == 0) tot[pass][a*cb.size()+b] += pre*s[0]*s[1]*s[2];
                else tot[pass][a*cb.size()+b] += pre*(k[0]*s[1]*s[2]+s[0]*k[1]*s[2]+s[0]*s[1]*k[2]);
            }
        }
    }
    r.scale.resize(tot[0].size());
    for(size_t n = 0; n < tot[0].size(); n++)
        r.scale[n] = tot[0][n] + (tot[1][n]-tot[0][n])/HSTEP;
}

template<class T> void pot_values(int n, const double * Z, const double * x, const double * y, const double * z,
                                  const OShell & A, const OShell & B, ORef & r)
{
    const size_t nab = ncart(A.am)*ncart(B.am);
    const int L = A.am+B.am, L1 = L+1;
    std::vector<T> out(nab, T(0));
    for(int i = 0; i < A.nprim(); i++)
    for(int j = 0; j < B.nprim(); j++)
    {
        PairP<T> p; p.set(A,i,B,j);
        E1<T> e[3];
        build_e(e, p, A.am, B.am);
        std::vector<HExp<T>> h;
        expand(e, A.am, B.am, p.a, p.b, -1, L1, h);
        for(int c = 0; c < n; c++)
        {
            RTab<T> R;
            R.build(L, p.p, p.P[0]-T(x[c]), p.P[1]-T(y[c]), p.P[2]-T(z[c]));
            const T pre = -T(Z[c])*2*M<T>::pi()/p.p*p.K;
            for(size_t k = 0; k < nab; k++)
                for(size_t m = 0; m < h[k].idx.size(); m++)
                    out[k] += pre*h[k].w[m]*R.r[h[k].idx[m]];
        }
    }
    store(out, r);
}

void pot_scale(int n, const double * Z, const double * x, const double * y, const double * z,
               const OShell & A, const OShell & B, ORef & r)
{
    // recursion on both centres: [a|b]^m with absolute values; uses the
    // (e0|00) majorant with q -> infinity plus binomial expansion
    const int le = A.am+B.am;
    double S = std::max({std::fabs(A.x),std::fabs(A.y),std::fabs(A.z),std::fabs(B.x),std::fabs(B.y),std::fabs(B.z)});
    for(int c = 0; c < n; c++) S = std::max({S, std::fabs(x[c]), std::fabs(y[c]), std::fabs(z[c])});
    const size_t nab = ncart(A.am)*ncart(B.am);
    std::vector<double> tot[2];
    r.extra.assign(nab, 0.0);
    for(int pass = 0; pass < 3; pass++)
    {
        if(pass == 2 && le >= 4) break;
        const double noise = pass == 1 ? HSTEP*S : 0.0;
        std::vector<double> acc(nab, 0.0);
        for(int choice = 0; choice < 2; choice++)
        {
            if(choice == 0 ? (A.am == 0 && B.am > 0) : B.am == 0) continue;
            VTab V; V.init(le, 0);
            std::vector<double> tab;
            for(int i = 0; i < A.nprim(); i++)
            for(int j = 0; j < B.nprim(); j++)
            for(int c = 0; c < n; c++)
            {
                PairD p; pair_d(A,i,B,j,p);
                const double cc[3] = {x[c],y[c],z[c]};
                double pc[3], pa[3], qz[3] = {0,0,0}, r2 = 0;
                for(int d = 0; d < 3; d++)
                {
                    const double dd = p.P[d]-cc[d];
                    r2 += dd*dd;
                    pc[d] = std::fabs(dd)+noise;
                    pa[d] = (choice == 0 ? p.PA[d] : p.PB[d])+noise;
                }
                double F[48];
                const double xx = p.p*r2;
                boys<double>(xx, le+1, F);
                if(pass == 1)
                    for(int m = 0; m <= le; m++) F[m] += F[m+1]*(2*p.p*std::sqrt(3*r2)*S*HSTEP);
                if(pass == 2)
                {
                    if(!(xx > 36.4)) continue;
                    double t = 0;
                    for(int m = 0; m <= le; m++) { F[m] = t; t = ((2*m+1)*t+std::exp(-xx))/(2*xx); }
                }
                const double pre = std::fabs(Z[c])*6.283185307179586/p.p*p.K*(pass == 2 ? 1.0 : 1+p.arg);
                for(int m = 0; m <= le; m++) F[m] *= pre;
                vrr_majorant(le, 0, p.p, 1e30*p.p, pa, qz, pc, F, tab);
                for(size_t k = 0; k < tab.size(); k++) V.v[k] += tab[k];
            }
            const double AB[3] = {std::fabs(A.x-B.x), std::fabs(A.y-B.y), std::fabs(A.z-B.z)};
            const double zero[3] = {0,0,0};
            std::vector<W> wb, wk;
            hrr_weights(A.am, B.am, AB, choice == 0, wb);
            hrr_weights(0, 0, zero, true, wk);
            std::vector<double> o;
            apply_w(wb, wk, V, o);
            for(size_t k = 0; k < nab; k++) acc[k] = std::max(acc[k], o[k]);
        }
        if(pass < 2) tot[pass] = acc; else r.extra = acc;
    }
    r.scale.resize(nab);
    for(size_t k = 0; k < nab; k++) r.scale[k] = tot[0][k] + (tot[1][k]-tot[0][k])/HSTEP;
}

} // namespace

void o_eri(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r, int flags)
{
    eri_values<ld>(a,b,c,d,r,false,flags & O_ABSUM);
    if(flags & O_SCALE) eri_scale(a,b,c,d,r,false);
}
void o_eri_deriv(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r, int flags)
{
    eri_values<ld>(a,b,c,d,r,true,flags & O_ABSUM);
    if(flags & O_SCALE) eri_scale(a,b,c,d,r,true);
}
void o_eri_scale(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r, bool deriv) { eri_scale(a,b,c,d,r,deriv); }
void o_overlap(const OShell & a, const OShell & b, ORef & r) { oe_values<ld>(a,b,r,0); oe_scale(a,b,r,0); }
void o_ke(const OShell & a, const OShell & b, ORef & r) { oe_values<ld>(a,b,r,1); oe_scale(a,b,r,1); }
void o_potential(int n, const double * Z, const double * x, const double * y, const double * z, const OShell & a, const OShell & b, ORef & r)
{
    pot_values<ld>(n,Z,x,y,z,a,b,r);
    pot_scale(n,Z,x,y,z,a,b,r);
}
void o_boys(double x, int n, double * hi, double * lo)
{
    ld F[64];
    boys<ld>(x, n, F);
    for(int i = 0; i <= n; i++) { hi[i] = (double)F[i]; lo[i] = (double)(F[i]-(ld)hi[i]); }
}
double o_prim_diag(const OShell & a, int i, const OShell & b, int j, double * scale)
{
    OShell x = a, y = b;
    x.alpha = {a.alpha[i]}; x.coef = {a.coef[i]};
    y.alpha = {b.alpha[j]}; y.coef = {b.coef[j]};
    ORef r;
    o_eri(x,y,x,y,r,O_SCALE);
    const size_t n = ncart(a.am)*ncart(b.am);
    double m = 0, s = 0;
    for(size_t k = 0; k < n; k++) { m = std::max(m, std::fabs(r.hi[k*n+k])); s = std::max(s, r.scale[k*n+k]); }
    if(scale) *scale = s;
    return m;
}

#ifdef ORACLE_QUAD
typedef __float128 qd;
void oq_eri(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r) { eri_values<qd>(a,b,c,d,r,false,false); }
void oq_eri_deriv(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r) { eri_values<qd>(a,b,c,d,r,true,false); }
void oq_boys(double x, int n, double * hi, double * lo)
{
    qd F[64]; boys<qd>(x, n, F);
    for(int i = 0; i <= n; i++) { hi[i] = (double)F[i]; lo[i] = (double)(F[i]-(qd)hi[i]); }
}
void oq_overlap(const OShell & a, const OShell & b, ORef & r) { oe_values<qd>(a,b,r,0); }
void oq_ke(const OShell & a, const OShell & b, ORef & r) { oe_values<qd>(a,b,r,1); }
void oq_potential(int n, const double * Z, const double * x, const double * y, const double * z, const OShell & a, const OShell & b, ORef & r)
{ pot_values<qd>(n,Z,x,y,z,a,b,r); }
#endif
