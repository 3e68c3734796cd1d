//@@ peel
#ifndef QLV_VCAP
#define QLV_VCAP 15
#endif
#include "configuration_common.h"
#define vector qlv_vector
#include "qlpeps/vmc_basic/jastrow_factor.h"
#undef vector
//@ pair_*: include/qlpeps/vmc_basic/jastrow_factor.h :: JastrowFactor -- one independent, symmetric value per pair of distinct sites through every accessor
//@ diag_*: include/qlpeps/vmc_basic/jastrow_factor.h :: JastrowFactor::operator() const -- no self-interaction
//@ zero_*: include/qlpeps/vmc_basic/jastrow_factor.h :: JastrowFactor constructor -- starts without correlations
//@ field_*: include/qlpeps/vmc_basic/jastrow_factor.h :: JastrowFactor::JastrowFieldAtSite -- sum over all other sites of v_ij n_j
//@ index_*: include/qlpeps/vmc_basic/jastrow_factor.h :: JastrowFactor site numbering -- row-major
#define A6 double a, double b, double c, double d, double e, double f
#define A6X const double x[] = {a, b, c, d, e, f}
// W: how values are put in; R: how they are read
template <size_t Ly, size_t Lx, int W, int R> static inline void Pair(const double *x) {
  constexpr size_t N = Ly * Lx;
  JastrowFactor v(Ly, Lx);
  REQF(pair, sites, v.NumSites() == N);
  size_t n = 0;
  if constexpr (W == 5) {
    v.Fill([&](size_t i, size_t j) { size_t k = 0; for (size_t p = 0; p < N; ++p) for (size_t q = p + 1; q < N; ++q) { if (p == i && q == j) return x[k]; ++k; } return -1.0; });
  } else
    for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j, ++n) {
      const SiteIdx si{i / Lx, i % Lx}, sj{j / Lx, j % Lx};
      if constexpr (W == 0) v.Set(i, j, x[n]);
      if constexpr (W == 1) v.Set(j, i, x[n]);
      if constexpr (W == 2) v.Set(sj, si, x[n]);
      if constexpr (W == 3) v(j, i) = x[n];
      if constexpr (W == 4) v(si, sj) = x[n];
    }
  n = 0;
  const JastrowFactor &k = v;
  for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j, ++n) {
    const SiteIdx si{i / Lx, i % Lx}, sj{j / Lx, j % Lx};
    if constexpr (R == 0) REQF(pair, const_linear, Same(k(i, j), x[n]) && Same(k(j, i), x[n]));
    if constexpr (R == 1) REQF(pair, const_site, Same(k(si, sj), x[n]) && Same(k(sj, si), x[n]));
    if constexpr (R == 2) REQF(pair, linear, Same(v(i, j), x[n]) && Same(v(j, i), x[n]) && &v(i, j) == &v(j, i));
    if constexpr (R == 3) REQF(pair, site, Same(v(si, sj), x[n]) && &v(si, sj) == &v(sj, si) && &v(si, sj) == &v(i, j));
  }
}
#define PR(nm, Ly, Lx) \
  OB(pair_##nm##_00, A6) { A6X; Pair<Ly, Lx, 0, 0>(x); } OB(pair_##nm##_11, A6) { A6X; Pair<Ly, Lx, 1, 1>(x); } OB(pair_##nm##_22, A6) { A6X; Pair<Ly, Lx, 2, 2>(x); } \
  OB(pair_##nm##_33, A6) { A6X; Pair<Ly, Lx, 3, 3>(x); } OB(pair_##nm##_40, A6) { A6X; Pair<Ly, Lx, 4, 0>(x); } OB(pair_##nm##_50, A6) { A6X; Pair<Ly, Lx, 5, 0>(x); }
PR(22, 2, 2) PR(13, 1, 3) PR(31, 3, 1) PR(14, 1, 4) PR(12, 1, 2)
template <size_t Ly, size_t Lx> static inline void Diag(const double *x) {
  JastrowFactor v(Ly, Lx);
  v.Fill([&](size_t i, size_t j) { return x[0]; });
  const JastrowFactor &k = v;
  for (size_t i = 0; i < Ly * Lx; ++i) REQF(diag, zero, Same(k(i, i), 0.0));
  for (size_t i = 0; i < Ly; ++i) for (size_t j = 0; j < Lx; ++j) REQF(diag, zero_site, Same(k(SiteIdx{i, j}, SiteIdx{i, j}), 0.0));
}
OB(diag_22, A6) { A6X; Diag<2, 2>(x); }
OB(diag_13, A6) { A6X; Diag<1, 3>(x); }
OB(diag_11, A6) { A6X; Diag<1, 1>(x); }
template <size_t Ly, size_t Lx> static inline void Zero() {
  const JastrowFactor v(Ly, Lx);
  REQF(zero, sites, v.NumSites() == Ly * Lx);
  for (size_t i = 0; i < Ly * Lx; ++i) for (size_t j = 0; j < Ly * Lx; ++j) REQF(zero, zero, Same(v(i, j), 0.0));
}
OB(zero_22) { Zero<2, 2>(); }
OB(zero_31) { Zero<3, 1>(); }
OB(zero_11) { Zero<1, 1>(); }
OB(zero_00) { const JastrowFactor v(0, 0); REQ(zero_00, v.NumSites() == 0); }
template <size_t Ly, size_t Lx, size_t S> static inline void Field(const double *x, const size_t *n) {
  constexpr size_t N = Ly * Lx;
  JastrowFactor v(Ly, Lx);
  v.Fill([&](size_t i, size_t j) { size_t k = 0; for (size_t p = 0; p < N; ++p) for (size_t q = p + 1; q < N; ++q) { if (p == i && q == j) return x[k]; ++k; } return -1.0; });
  Configuration c(Ly, Lx); Put<Ly, Lx>(c, n);
  const double g = v.JastrowFieldAtSite(c, SiteIdx{S / Lx, S % Lx});
  double s = 0.0; size_t k = 0; double w[N] = {};
  for (size_t p = 0; p < N; ++p) for (size_t q = p + 1; q < N; ++q, ++k) { if (p == S) w[q] = x[k]; if (q == S) w[p] = x[k]; }
  for (size_t j = 0; j < N; ++j) if (j != S) s += w[j] * (double)n[j];
  REQF(field, value, g == s || s != s);
}
#define N4 size_t k, size_t l, size_t m, size_t n
#define N4X const size_t y[] = {k, l, m, n}
OB(field_22_0, A6, N4) { A6X; N4X; Field<2, 2, 0>(x, y); }
OB(field_22_1, A6, N4) { A6X; N4X; Field<2, 2, 1>(x, y); }
OB(field_22_2, A6, N4) { A6X; N4X; Field<2, 2, 2>(x, y); }
OB(field_22_3, A6, N4) { A6X; N4X; Field<2, 2, 3>(x, y); }
OB(field_13_1, A6, N4) { A6X; N4X; Field<1, 3, 1>(x, y); }
OB(field_31_2, A6, N4) { A6X; N4X; Field<3, 1, 2>(x, y); }
OB(field_11_0, A6, N4) { A6X; N4X; Field<1, 1, 0>(x, y); }
OB(index_22, size_t r, size_t q) { ASSUME(r < 2); ASSUME(q < 2); const JastrowFactor v(2, 2); REQ(index_22, v.SiteIdxToLinear(SiteIdx{r, q}) == r * 2 + q && v.SiteToIndex(SiteIdx{r, q}) == r * 2 + q); }
OB(index_23, size_t r, size_t q) { ASSUME(r < 2); ASSUME(q < 3); const JastrowFactor v(2, 3); REQ(index_23, v.SiteIdxToLinear(SiteIdx{r, q}) == r * 3 + q && v.SiteToIndex(SiteIdx{r, q}) == r * 3 + q); }
OB(index_32, size_t r, size_t q) { ASSUME(r < 3); ASSUME(q < 2); const JastrowFactor v(3, 2); REQ(index_32, v.SiteIdxToLinear(SiteIdx{r, q}) == r * 2 + q && v.SiteToIndex(SiteIdx{r, q}) == r * 2 + q); }
template <size_t Ly, size_t Lx> static inline void Wide() {   // constants: every one of the 15 pairs has its own cell
  JastrowFactor v(Ly, Lx);
  v.Fill([&](size_t i, size_t j) { return 10.0 * i + j + 1; });
  const JastrowFactor &k = v;
  for (size_t i = 0; i < 6; ++i) for (size_t j = i + 1; j < 6; ++j) REQF(pair, wide, k(i, j) == 10.0 * i + j + 1 && k(j, i) == 10.0 * i + j + 1);
}
OB(pair_23_fill) { Wide<2, 3>(); }
OB(pair_32_fill) { Wide<3, 2>(); }
template <size_t Ly, size_t Lx, size_t P, size_t Q> static inline void WideF() {
  JastrowFactor v(Ly, Lx);
  v.Fill([&](size_t i, size_t j) { return 10.0 * i + j + 1; });
  Configuration c(Ly, Lx);
  for (size_t i = 0; i < Ly; ++i) for (size_t j = 0; j < Lx; ++j) c({i, j}) = i * Lx + j + 1;
  double s = 0.0; const size_t a = P * Lx + Q;
  for (size_t j = 0; j < 6; ++j) if (j != a) s += (a < j ? 10.0 * a + j + 1 : 10.0 * j + a + 1) * (j + 1);
  REQF(field, wide, v.JastrowFieldAtSite(c, SiteIdx{P, Q}) == s);
}
OB(field_23) { WideF<2, 3, 0, 1>(); WideF<2, 3, 1, 2>(); }
OB(field_32) { WideF<3, 2, 1, 0>(); WideF<3, 2, 2, 1>(); }
OB(index_13, size_t q) { ASSUME(q < 3); const JastrowFactor v(1, 3); REQ(index_13, v.SiteIdxToLinear(SiteIdx{0, q}) == q && v.SiteToIndex(SiteIdx{0, q}) == q); }
OB(index_31, size_t r) { ASSUME(r < 3); const JastrowFactor v(3, 1); REQ(index_31, v.SiteIdxToLinear(SiteIdx{r, 0}) == r && v.SiteToIndex(SiteIdx{r, 0}) == r); }
