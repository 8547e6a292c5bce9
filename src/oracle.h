// Reference implementation of all integrals, independent of the code under
// test: McMurchie-Davidson in extended precision, plus a rounding majorant.
#pragma once
#include <vector>
#include <cstddef>

struct OShell
{
    int am = 0;
    double x = 0, y = 0, z = 0;
    std::vector<double> alpha, coef;
    int nprim() const { return (int)alpha.size(); }
};

struct ORef
{
    std::vector<double> hi, lo;   // value = hi + lo (extended precision)
    std::vector<double> scale;    // rounding majorant: expected error <= K * eps * scale
    std::vector<double> absum;    // sum over primitive quartets of |contribution| (ERI only)
    std::vector<double> extra;    // absolute slack (long-range Boys truncation for total L < 4)
};

inline int ncart(int l) { return (l+1)*(l+2)/2; }

// flags
enum { O_SCALE = 1, O_ABSUM = 2 };

void o_eri(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r, int flags = O_SCALE);
// 12 blocks of ncart: index = ((center*3+xyz) * ncart + comp) * ... see DERIV layout:
//   r.*[12*comp + 3*center + xyz]
void o_eri_deriv(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r, int flags = O_SCALE);

// only r.scale and r.extra
void o_eri_scale(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r, bool deriv);

void o_overlap(const OShell & a, const OShell & b, ORef & r);
void o_ke(const OShell & a, const OShell & b, ORef & r);
void o_potential(int n, const double * Z, const double * x, const double * y, const double * z,
                 const OShell & a, const OShell & b, ORef & r);

// F_0..F_n at x as hi+lo pairs
void o_boys(double x, int n, double * hi, double * lo);

// largest |diagonal| (ij|ij) element of a primitive pair (coefficients included)
double o_prim_diag(const OShell & a, int i, const OShell & b, int j, double * scale);

#ifdef ORACLE_QUAD
void oq_eri(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r);
void oq_eri_deriv(const OShell & a, const OShell & b, const OShell & c, const OShell & d, ORef & r);
void oq_boys(double x, int n, double * hi, double * lo);
void oq_overlap(const OShell & a, const OShell & b, ORef & r);
void oq_ke(const OShell & a, const OShell & b, ORef & r);
void oq_potential(int n, const double * Z, const double * x, const double * y, const double * z,
                 const OShell & a, const OShell & b, ORef & r);
#endif
