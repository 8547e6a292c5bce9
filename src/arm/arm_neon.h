/* Stand-in for the compiler's arm_neon.h on machines that are not ARM: the
   intrinsics that simint's ASIMD header uses, with the semantics of the ARM C
   language extensions. */
#pragma once
#include <math.h>
#include <string.h>
typedef double float64x2_t __attribute__((vector_size(16)));
typedef double float64_t;
#define VW_NEON static inline __attribute__((always_inline))
VW_NEON float64x2_t vld1q_f64(double const *p) { float64x2_t r; memcpy(&r, p, sizeof r); return r; }
VW_NEON void vst1q_f64(double *p, float64x2_t a) { memcpy(p, &a, sizeof a); }
VW_NEON float64x2_t vdupq_n_f64(double a) { float64x2_t r = { a, a }; return r; }
VW_NEON float64x2_t vmovq_n_f64(double a) { float64x2_t r = { a, a }; return r; }
VW_NEON float64x2_t vnegq_f64(float64x2_t a) { return -a; }
VW_NEON float64x2_t vabsq_f64(float64x2_t a) { float64x2_t r = { __builtin_fabs(a[0]), __builtin_fabs(a[1]) }; return r; }
VW_NEON float64x2_t vaddq_f64(float64x2_t a, float64x2_t b) { return a + b; }
VW_NEON float64x2_t vsubq_f64(float64x2_t a, float64x2_t b) { return a - b; }
VW_NEON float64x2_t vmulq_f64(float64x2_t a, float64x2_t b) { return a * b; }
VW_NEON float64x2_t vmulq_n_f64(float64x2_t a, double b) { return a * b; }
VW_NEON float64x2_t vdivq_f64(float64x2_t a, float64x2_t b) { return a / b; }
VW_NEON float64x2_t vsqrtq_f64(float64x2_t a) { float64x2_t r = { __builtin_sqrt(a[0]), __builtin_sqrt(a[1]) }; return r; }
/* a + b*c and a - b*c, with one rounding */
VW_NEON float64x2_t vfmaq_f64(float64x2_t a, float64x2_t b, float64x2_t c) { float64x2_t r = { __builtin_fma(b[0], c[0], a[0]), __builtin_fma(b[1], c[1], a[1]) }; return r; }
VW_NEON float64x2_t vfmsq_f64(float64x2_t a, float64x2_t b, float64x2_t c) { float64x2_t r = { __builtin_fma(-b[0], c[0], a[0]), __builtin_fma(-b[1], c[1], a[1]) }; return r; }
VW_NEON double vaddvq_f64(float64x2_t a) { return a[0] + a[1]; }
VW_NEON double vminvq_f64(float64x2_t a) { return a[0] < a[1] ? a[0] : a[1]; }
VW_NEON double vmaxvq_f64(float64x2_t a) { return a[0] > a[1] ? a[0] : a[1]; }
VW_NEON float64x2_t vminq_f64(float64x2_t a, float64x2_t b) { float64x2_t r = { a[0] < b[0] ? a[0] : b[0], a[1] < b[1] ? a[1] : b[1] }; return r; }
VW_NEON float64x2_t vmaxq_f64(float64x2_t a, float64x2_t b) { float64x2_t r = { a[0] > b[0] ? a[0] : b[0], a[1] > b[1] ? a[1] : b[1] }; return r; }
#define vgetq_lane_f64(v, l) ((v)[(l)])
VW_NEON float64x2_t vsetq_lane_f64(double x, float64x2_t v, int l) { v[l] = x; return v; }
VW_NEON float64x2_t vpaddq_f64(float64x2_t a, float64x2_t b) { float64x2_t r = { a[0] + a[1], b[0] + b[1] }; return r; }
