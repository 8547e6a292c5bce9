/* Stand-in for the compiler's arm_sve.h on machines that are not ARM: vectors of
   __ARM_FEATURE_SVE_BITS bits (set by the compiler wrapper) and the intrinsics
   that simint's SVE header uses, with the semantics of the ARM C language
   extensions. Predicates are numbers of leading active lanes, which covers
   ptrue and whilelt. */
#pragma once
#include <math.h>
#include <string.h>
#ifndef __ARM_FEATURE_SVE_BITS
#error vector length not set
#endif
#define VW_SVE static inline __attribute__((always_inline))
#define VW_NF (__ARM_FEATURE_SVE_BITS / 64)
#define arm_sve_vector_bits(n) vector_size((n) / 8)
typedef float svfloat32_t;   /* only used as element types of the sized vectors */
typedef double svfloat64_t;
typedef double vw_sve __attribute__((vector_size(__ARM_FEATURE_SVE_BITS / 8)));
typedef struct { int lanes; } svbool_t;
VW_SVE svbool_t svptrue_b64(void) { svbool_t p = { VW_NF }; return p; }
VW_SVE svbool_t svptrue_b32(void) { svbool_t p = { VW_NF }; return p; }
VW_SVE svbool_t svwhilelt_b64(long a, long b) { svbool_t p = { b <= a ? 0 : b - a >= VW_NF ? VW_NF : (int)(b - a) }; return p; }
VW_SVE vw_sve vw_sve_z(svbool_t p, vw_sve a) { if(p.lanes < VW_NF) for(int i = 0; i < VW_NF; i++) if(i >= p.lanes) a[i] = 0.0; return a; }
/* inactive lanes are neither read nor written */
VW_SVE vw_sve svld1_f64(svbool_t p, double const *m) { vw_sve r; if(p.lanes == VW_NF) memcpy(&r, m, sizeof r); else for(int i = 0; i < VW_NF; i++) r[i] = i < p.lanes ? m[i] : 0.0; return r; }
VW_SVE void svst1_f64(svbool_t p, double *m, vw_sve a) { for(int i = 0; i < p.lanes; i++) m[i] = a[i]; }
VW_SVE vw_sve svdup_f64_z(svbool_t p, double a) { vw_sve r; for(int i = 0; i < VW_NF; i++) r[i] = a; return vw_sve_z(p, r); }
VW_SVE vw_sve svneg_f64_z(svbool_t p, vw_sve a) { return vw_sve_z(p, -a); }
VW_SVE vw_sve svadd_f64_z(svbool_t p, vw_sve a, vw_sve b) { return vw_sve_z(p, a + b); }
VW_SVE vw_sve svsub_f64_z(svbool_t p, vw_sve a, vw_sve b) { return vw_sve_z(p, a - b); }
VW_SVE vw_sve svmul_f64_z(svbool_t p, vw_sve a, vw_sve b) { return vw_sve_z(p, a * b); }
VW_SVE vw_sve svdiv_f64_z(svbool_t p, vw_sve a, vw_sve b) { return vw_sve_z(p, a / b); }
VW_SVE vw_sve svsqrt_f64_z(svbool_t p, vw_sve a) { vw_sve r; for(int i = 0; i < VW_NF; i++) r[i] = __builtin_sqrt(a[i]); return vw_sve_z(p, r); }
/* multiply-add family, one rounding: mad a*b+c, msb c-a*b, nmad -a*b-c, nmsb a*b-c;
   mla a+b*c, mls a-b*c, nmla -a-b*c, nmls b*c-a */
VW_SVE vw_sve vw_fma(vw_sve a, vw_sve b, vw_sve c) { vw_sve r; for(int i = 0; i < VW_NF; i++) r[i] = __builtin_fma(a[i], b[i], c[i]); return r; }
VW_SVE vw_sve svmad_f64_z(svbool_t p, vw_sve a, vw_sve b, vw_sve c) { return vw_sve_z(p, vw_fma(a, b, c)); }
VW_SVE vw_sve svmsb_f64_z(svbool_t p, vw_sve a, vw_sve b, vw_sve c) { return vw_sve_z(p, vw_fma(-a, b, c)); }
VW_SVE vw_sve svnmad_f64_z(svbool_t p, vw_sve a, vw_sve b, vw_sve c) { return vw_sve_z(p, vw_fma(-a, b, -c)); }
VW_SVE vw_sve svnmsb_f64_z(svbool_t p, vw_sve a, vw_sve b, vw_sve c) { return vw_sve_z(p, vw_fma(a, b, -c)); }
VW_SVE vw_sve svmla_f64_z(svbool_t p, vw_sve a, vw_sve b, vw_sve c) { return vw_sve_z(p, vw_fma(b, c, a)); }
VW_SVE vw_sve svmls_f64_z(svbool_t p, vw_sve a, vw_sve b, vw_sve c) { return vw_sve_z(p, vw_fma(-b, c, a)); }
VW_SVE vw_sve svnmla_f64_z(svbool_t p, vw_sve a, vw_sve b, vw_sve c) { return vw_sve_z(p, vw_fma(-b, c, -a)); }
VW_SVE vw_sve svnmls_f64_z(svbool_t p, vw_sve a, vw_sve b, vw_sve c) { return vw_sve_z(p, vw_fma(b, c, -a)); }
VW_SVE double svaddv_f64(svbool_t p, vw_sve a)
{
    /* pairwise, as the instruction */
    double t[VW_NF];
    for(int i = 0; i < VW_NF; i++) t[i] = i < p.lanes ? a[i] : 0.0;
    for(int n = VW_NF / 2; n > 0; n /= 2)
        for(int i = 0; i < n; i++) t[i] = t[2 * i] + t[2 * i + 1];
    return t[0];
}
VW_SVE double svmaxv_f64(svbool_t p, vw_sve a) { double r = -INFINITY; for(int i = 0; i < p.lanes; i++) r = a[i] > r ? a[i] : r; return r; }
VW_SVE double svminv_f64(svbool_t p, vw_sve a) { double r = INFINITY; for(int i = 0; i < p.lanes; i++) r = a[i] < r ? a[i] : r; return r; }
