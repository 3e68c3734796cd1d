//@@ peel
#include "qlv.h"
#define QLV_VCAP 4
#include "qlv_vector.h"
#include <algorithm>
#include <complex>
#include <iomanip>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
// Amplitude model: exact complex arithmetic on double components; the magnitude is an uninterpreted pure function,
// except that an input carries its magnitude as a number of the case: magnitudes of inputs are only
// compared with each other and with the tolerance, so one representative per ordering covers every input.
extern "C" double qlv_mag(double, double) noexcept __attribute__((const));
namespace std {
struct Z {
  double re, im, m = -1;
  Z() : re(0), im(0) {}
  Z(double r) : re(r), im(0) {}
  Z(int r) : re(r), im(0) {}
  Z(double r, double i) : re(r), im(i) {}
  Z(double r, double i, double mag) : re(r), im(i), m(mag) {}
  Z &operator+=(const Z &o) { re += o.re; im += o.im; m = -1; return *this; }
  Z &operator-=(const Z &o) { re -= o.re; im -= o.im; m = -1; return *this; }
  Z &operator*=(double d) { re *= d; im *= d; m = -1; return *this; }
  Z &operator/=(double d) { re /= d; im /= d; m = -1; return *this; }
  friend Z operator+(const Z &a, const Z &b) { return Z(a.re + b.re, a.im + b.im); }
  friend Z operator-(const Z &a, const Z &b) { return Z(a.re - b.re, a.im - b.im); }
  friend Z operator-(const Z &a) { return Z(-a.re, -a.im, a.m); }
  friend Z operator*(const Z &a, const Z &b) { return Z(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re); }
  friend Z operator*(const Z &a, double d) { return Z(a.re * d, a.im * d); }
  friend Z operator*(double d, const Z &a) { return Z(a.re * d, a.im * d); }
  friend Z operator/(const Z &a, double d) { return Z(a.re / d, a.im / d); }
  double real() const { return re; }
  double imag() const { return im; }
};
inline double abs(const Z &a) { return a.m >= 0 ? a.m : qlv_mag(a.re, a.im); }
inline Z conj(const Z &a) { return Z(a.re, -a.im, a.m); }
inline double real(const Z &a) { return a.re; }
inline double imag(const Z &a) { return a.im; }
inline double norm(const Z &a) { return a.re * a.re + a.im * a.im; }
}
#define vector qlv_vector
#include "qlpeps/algorithm/vmc_update/psi_consistency.h"
#undef vector
using namespace qlpeps;
using namespace qlv;
using std::Z;
typedef std::qlv_vector<double> VD;
typedef std::qlv_vector<Z> VZ;
//@ p_*: include/qlpeps/algorithm/vmc_update/psi_consistency.h :: ComputePsiConsistencySummaryAligned -- sign alignment to the largest amplitude, arithmetic mean, relative radius
static inline bool Eq(double a, double b) { return Same(a, b); }
static inline bool Eq(Z a, Z b) { return Same(a.re, b.re) && Same(a.im, b.im); }
template <class T> static inline double Mag(T a) { return std::abs(a); }
static inline double Ov(Z a, Z b) { return (a * conj(b)).re; }
OB(p_empty_d) { VD v; auto r = ComputePsiConsistencySummaryAligned(v); REQ(p_empty, Eq(r.psi_mean, 0.0) && Eq(r.psi_rel_err, 0.0)); }
OB(p_empty_z) { VZ v; auto r = ComputePsiConsistencySummaryAligned(v); REQ(p_empty, Eq(r.psi_mean, Z(0, 0)) && Eq(r.psi_rel_err, 0.0)); }
// N amplitudes x0..x{N-1}; PERM orders their magnitudes (last = largest); NEG: which overlaps with the reference are negative
template <class T, int N> static inline bool Signs(const T (&x)[N], int ref, unsigned neg) {
  for (int i = 0; i < N; ++i) { const double o = Ov(x[i], x[ref]); if (((neg >> i & 1) != 0) != (o < 0.0)) return false; }
  return true;
}
template <class T, int N> static inline void Check(const T (&x)[N], unsigned neg) {
  std::qlv_vector<T> v;
  for (int i = 0; i < N; ++i) v.push_back(x[i]);
  const auto r = ComputePsiConsistencySummaryAligned(v);
  T a[N], mean(0);
  for (int i = 0; i < N; ++i) { a[i] = (neg >> i & 1) ? -x[i] : x[i]; mean += a[i]; }
  mean = mean / (double)N;
  REQF(p_sum, mean, Eq(r.psi_mean, mean));
  double dev = 0.0;
  for (int i = 0; i < N; ++i) dev = std::max(dev, Mag(a[i] - mean));
  const double den = std::max(Mag(mean), std::numeric_limits<double>::epsilon());
  REQF(p_sum, radius, Eq(r.psi_rel_err, dev / den));
}
template <int A> static inline void S1(double x, double a) { const Z v[1] = {Z(x, a, A)}; ASSUME(Signs<Z, 1>(v, 0, 0)); Check<Z, 1>(v, 0); }
// ranks A, B, C are the magnitudes of the inputs; REF is the largest (first of equals)
template <int A, int B, int REF, unsigned NEG> static inline void S2(double x, double y, double a, double b) {
  const Z v[2] = {Z(x, a, A), Z(y, b, B)}; ASSUME(Signs<Z, 2>(v, REF, NEG)); Check<Z, 2>(v, NEG);
}
template <int A, int B, int C, int REF, unsigned NEG> static inline void S3(double x, double y, double z, double a, double b, double c) {
  const Z v[3] = {Z(x, a, A), Z(y, b, B), Z(z, c, C)}; ASSUME(Signs<Z, 3>(v, REF, NEG)); Check<Z, 3>(v, NEG);
}
OB(p_sum_1, double x, double a) { S1<1>(x, a); }
#define T2(A, B, R, N) OB(p_sum_##A##B##_##N, double x, double y, double a, double b) { S2<A, B, R, N>(x, y, a, b); }
#define T3(A, B, C, R, N) OB(p_sum_##A##B##C##_##N, double x, double y, double z, double a, double b, double c) { S3<A, B, C, R, N>(x, y, z, a, b, c); }
#define T2R(A, B, R) T2(A, B, R, 0) T2(A, B, R, 1) T2(A, B, R, 2) T2(A, B, R, 3)
#define T3R(A, B, C, R) T3(A, B, C, R, 0) T3(A, B, C, R, 1) T3(A, B, C, R, 2) T3(A, B, C, R, 3) T3(A, B, C, R, 4) T3(A, B, C, R, 5) T3(A, B, C, R, 6) T3(A, B, C, R, 7)
T2R(1, 2, 1) T2R(2, 1, 0) T2R(0, 1, 1)
T3R(1, 2, 3, 2) T3R(1, 3, 2, 1) T3R(2, 1, 3, 2) T3R(2, 3, 1, 1) T3R(3, 1, 2, 0) T3R(3, 2, 1, 0) T3R(2, 2, 3, 2) T3R(1, 3, 1, 1)
// below the reference tolerance nothing is flipped
OB(p_sum_tiny_a, double x, double y, double a, double b) { const Z v[2] = {Z(x, a, 1e-15), Z(y, b, 2e-15)}; Check<Z, 2>(v, 0); }
OB(p_sum_tiny_b, double x, double y, double a, double b) { const Z v[2] = {Z(x, a, 9e-15), Z(y, b, 2e-15)}; Check<Z, 2>(v, 0); }
OB(p_sum_tiny_c, double x, double y, double a, double b) { const Z v[2] = {Z(x, a, 0.0), Z(y, b, 0.0)}; Check<Z, 2>(v, 0); }
// and just above it the alignment applies
template <unsigned NEG> static inline void Edge(double x, double y, double a, double b) { const Z v[2] = {Z(x, a, 1e-15), Z(y, b, 1.1e-14)}; ASSUME(Signs<Z, 2>(v, 1, NEG)); Check<Z, 2>(v, NEG); }
OB(p_sum_edge_0, double x, double y, double a, double b) { Edge<0>(x, y, a, b); }
OB(p_sum_edge_1, double x, double y, double a, double b) { Edge<1>(x, y, a, b); }
// documented defaults
OB(p_defaults) {
  RuntimeParams r;
  REQF(p_defaults, warn, r.psi_consistency.enabled && !r.psi_consistency.master_only && Same(r.psi_consistency.threshold, 1e-3) && r.psi_consistency.max_warnings == 50 && r.psi_consistency.max_print_elems == 8);
  REQF(p_defaults, rescue, r.config_rescue.enabled && Same(r.config_rescue.amplitude_min_threshold, 2.2250738585072014e-308) && Same(r.config_rescue.amplitude_max_threshold, 1.7976931348623157e308));
}
