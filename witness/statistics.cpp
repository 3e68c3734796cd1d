//@@ peel
#define QLV_VCAP 6
#include "qlv.h"
#include "qlv_vector.h"
#include "qlv_mpi.h"
using namespace qlv;
// Gather: every rank contributes `n` numbers (or one bin count, the same on every rank by contract), rank after rank.
static inline void PutD_(double *to, const double *from, int words) {
  if (words > 0) to[0] = from[0]; if (words > 1) to[1] = from[1]; if (words > 2) to[2] = from[2]; if (words > 3) to[3] = from[3]; if (words > 4) qlv_model_overflow();
}
template <int W> static inline void Contribute(const void *s, int words) {
  const double *d = static_cast<const double *>(s);
  me.sent = words;
  for (int k = 0; k < QLV_MPI_SLOTS; ++k) if (k < words) me.sent_v[k] = d[k];
}
inline int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  if (c != me.comm || root != 0) qlv_bad_mpi_call();
  ++me.n_coll;
  if (t == MPI_INT) {
    if (n != 1) qlv_bad_mpi_call();
    if (me.rank == 0) {
      if (rn != 1 || rt != MPI_INT) qlv_bad_mpi_call();
      for (int q = 0; q < me.size; ++q) static_cast<int *>(r)[q] = *static_cast<const int *>(s);
    }
    return MPI_SUCCESS;
  }
  const int w = WordsOf(t) * n;
  if (w == 0) qlv_bad_mpi_call();
  Contribute<0>(s, w);
  if (me.rank == 0) {
    if (rn != n || rt != t) qlv_bad_mpi_call();
    double *d = static_cast<double *>(r);
    PutD_(d, static_cast<const double *>(s), w);
    for (int q = 1; q < me.size; ++q) PutD_(d + q * w, me.remote[q - 1], w);
  }
  return MPI_SUCCESS;
}
inline int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *counts, const int *displs, MPI_Datatype rt, int root, MPI_Comm c) {
  if (c != me.comm || root != 0 || WordsOf(t) == 0) qlv_bad_mpi_call();
  ++me.n_coll;
  const int e = WordsOf(t);
  Contribute<0>(s, n * e);
  if (me.rank == 0) {
    if (rt != t) qlv_bad_mpi_call();
    double *d = static_cast<double *>(r);
    for (int q = 0; q < me.size; ++q) {
      if (counts[q] != n) qlv_bad_mpi_call();      // every rank contributes as many as this one
      PutD_(d + displs[q] * e, q == 0 ? static_cast<const double *>(s) : me.remote[q - 1], n * e);
    }
  }
  return MPI_SUCCESS;
}
#include "qlv_null.h"
#define vector qlv_vector
#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
#undef vector
using namespace qlpeps;
typedef std::qlv_vector<double> VD;
typedef std::complex<double> Z;
typedef std::qlv_vector<Z> VZ;
static inline bool Eq(double a, double b) { return a == b || (a != a && b != b); }
static inline bool Eq(Z a, Z b) { return Eq(a.real(), b.real()) && Eq(a.imag(), b.imag()); }
template <int N> static inline VD Make(const double *x) { VD v; for (int i = 0; i < N; ++i) v.push_back(x[i]); return v; }
template <int N> static inline double Sum(const double *x) { double s = x[0]; for (int i = 1; i < N; ++i) s += x[i]; return s; }
template <int N> static inline double Sq(const double *x, double m) { double s = 0; for (int i = 0; i < N; ++i) s += (x[i] - m) * (x[i] - m); return s; }
//@ mean_*: include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h :: Mean -- sum over count; zero for no data
//@ var_*: include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h :: Variance -- mean squared deviation
//@ se_*: include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h :: StandardError -- sqrt(variance/(n-1)); infinite for one sample
//@ ave_*: include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h :: AveListOfData -- per-column mean over samples
//@ bin_*: include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h :: MeanAndBinnedErrorSqrtNUniformBin -- bins of floor(sqrt(n)) samples, trailing samples dropped, all ranks' bins on the master
//@ single_*: include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h :: GatherStatisticSingleData -- mean and standard error over ranks on the master
//@ list_*: include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h :: GatherStatisticListOfData -- mean and standard error over ranks of every entry, on the master
//@ ips_*: include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h :: IPSInflationFactor -- at least one
OB(mean_0) { VD v; REQ(mean_0, Mean(v) == 0.0); }
OB(mean_1, double a) { const double x[] = {a}; VD v = Make<1>(x); REQ(mean_1, Eq(Mean(v), a)); REQ(mean_1, v.size() == 1 && Same(v[0], a)); }
OB(mean_2, double a, double b) { const double x[] = {a, b}; VD v = Make<2>(x); REQ(mean_2, Eq(Mean(v), (a + b) / 2)); }
OB(mean_3, double a, double b, double c) { const double x[] = {a, b, c}; VD v = Make<3>(x); REQ(mean_3, Eq(Mean(v), (a + b + c) / 3)); }
OB(mean_5, double a, double b, double c, double d, double e) { const double x[] = {a, b, c, d, e}; VD v = Make<5>(x); REQ(mean_5, Eq(Mean(v), (a + b + c + d + e) / 5)); }
OB(var_1, double a, double m) { const double x[] = {a}; VD v = Make<1>(x); REQ(var_1, Eq(Variance(v, m), (a - m) * (a - m))); }
OB(var_3, double a, double b, double c, double m) { const double x[] = {a, b, c}; VD v = Make<3>(x); REQ(var_3, Eq(Variance(v, m), Sq<3>(x, m) / 3)); }
OB(var_own, double a, double b) { const double x[] = {a, b}; VD v = Make<2>(x); REQ(var_own, Eq(Variance(v), Sq<2>(x, (a + b) / 2) / 2)); }
OB(var_z, double a, double b, double c, double d, double m, double n) {
  VZ v; v.push_back(Z(a, b)); v.push_back(Z(c, d));
  REQ(var_z, Eq(Variance(v, Z(m, n)), (((a - m) * (a - m) + (b - n) * (b - n)) + ((c - m) * (c - m) + (d - n) * (d - n))) / 2));
}
OB(se_1, double a, double m) { const double x[] = {a}; VD v = Make<1>(x); REQ(se_1, StandardError(v, m) == std::numeric_limits<double>::infinity()); }
OB(se_2, double a, double b, double m) { const double x[] = {a, b}; VD v = Make<2>(x); REQ(se_2, Eq(StandardError(v, m), __builtin_sqrt(Sq<2>(x, m) / 2))); }
OB(se_4, double a, double b, double c, double d, double m) { const double x[] = {a, b, c, d}; VD v = Make<4>(x); REQ(se_4, Eq(StandardError(v, m), __builtin_sqrt(Sq<4>(x, m) / 4 / 3))); }
OB(se_z, double a, double b, double m, double n) { VZ v; v.push_back(Z(a, b)); REQ(se_z, StandardError(v, Z(m, n)) == std::numeric_limits<double>::infinity()); }
typedef std::qlv_vector<VD> VVD;
OB(ave_none) { VVD d; REQ(ave_none, AveListOfData(d).empty()); }
OB(ave_empty) { VVD d; d.push_back(VD()); REQ(ave_empty, AveListOfData(d).empty()); }
template <int S, int N> static inline void Ave(const double *x) {
  VVD d; for (int s = 0; s < S; ++s) d.push_back(Make<N>(x + s * N));
  const VD r = AveListOfData(d);
  REQF(ave, size, r.size() == N);
  for (int i = 0; i < N; ++i) { double t = x[i]; for (int s = 1; s < S; ++s) t += x[s * N + i]; REQF(ave, value, Eq(r[i], t / S)); }
}
OB(ave_1x2, double a, double b) { const double x[] = {a, b}; Ave<1, 2>(x); }
OB(ave_2x1, double a, double b) { const double x[] = {a, b}; Ave<2, 1>(x); }
OB(ave_2x3, double a, double b, double c, double d, double e, double f) { const double x[] = {a, b, c, d, e, f}; Ave<2, 3>(x); }
OB(ave_3x2, double a, double b, double c, double d, double e, double f) { const double x[] = {a, b, c, d, e, f}; Ave<3, 2>(x); }
// binned: N samples here, bin size B, NB bins per rank, on rank R of S
template <int N, int B, int NB, int R, int S> static inline void Bin(MPI_Comm c, const double *x, const double *y) {
  StartMpi(R, S, c);
  for (int k = 0; k < (S - 1) * NB; ++k) me.remote[k / (NB ? NB : 1)][k % (NB ? NB : 1)] = y[k];
  const VD v = Make<N>(x);
  const std::pair<double, double> r = MeanAndBinnedErrorSqrtNUniformBin(v, c);
  double all[NB * S + 1];
  for (int k = 0; k < NB; ++k) { double s = x[k * B]; for (int j = 1; j < B; ++j) s += x[k * B + j]; all[k] = s / B; }
  REQF(bin, collectives, me.n_coll == 2);
  REQF(bin, sent, me.sent == NB);
  for (int k = 0; k < NB; ++k) REQF(bin, bin_mean, Eq(me.sent_v[k], all[k]));
  if (R != 0) { REQF(bin, not_master, r.first == 0.0 && r.second == 0.0); return; }
  for (int k = 0; k < NB * (S - 1); ++k) all[NB + k] = y[k];
  constexpr int T = NB * S;
  if constexpr (T == 0) { REQF(bin, no_data, r.first == 0.0 && r.second == 0.0); }
  else {
    const double m = Sum<T>(all) / T;
    REQF(bin, mean, Eq(r.first, m));
    if constexpr (T == 1) { REQF(bin, one_bin, r.second == std::numeric_limits<double>::infinity()); }
    else { REQF(bin, error, Eq(r.second, __builtin_sqrt(Sq<T>(all, m) / T / (T - 1)))); }
  }
}
#define X5 double a, double b, double c, double d, double e
#define XA const double x[] = {a, b, c, d, e}; const double y[] = {p, q, r, 0}
#define BIN(nm, N, B, NB, R, S) OB(bin_##nm, MPI_Comm k, X5, double p, double q, double r) { XA; Bin<N, B, NB, R, S>(k, x, y); }
BIN(n0, 0, 1, 0, 0, 1) BIN(n1, 1, 1, 1, 0, 1) BIN(n2, 2, 1, 2, 0, 1) BIN(n3, 3, 1, 3, 0, 1) BIN(n4, 4, 2, 2, 0, 1) BIN(n5, 5, 2, 2, 0, 1)
BIN(m0, 0, 1, 0, 0, 2) BIN(m1, 1, 1, 1, 0, 2) BIN(m3, 3, 1, 3, 0, 2) BIN(m4, 4, 2, 2, 0, 2) BIN(m5, 5, 2, 2, 0, 2) BIN(t1, 1, 1, 1, 0, 3)
BIN(s0, 0, 1, 0, 1, 2) BIN(s1, 1, 1, 1, 1, 2) BIN(s3, 3, 1, 3, 1, 2) BIN(s5, 5, 2, 2, 1, 2) BIN(s4, 4, 2, 2, 2, 3)
// one number per rank
OB(single_alone, MPI_Comm k, double a) {
  StartMpi(0, 1, k);
  const std::pair<double, double> r = GatherStatisticSingleData(a, k);
  REQ(single_alone, Same(r.first, a) && r.second == std::numeric_limits<double>::infinity());
}
template <int R, int S> static inline void Single(MPI_Comm k, const double *x) {
  StartMpi(R, S, k);
  for (int q = 1; q < S; ++q) me.remote[q - 1][0] = x[q];
  const std::pair<double, double> r = GatherStatisticSingleData(x[0], k);
  REQF(single, collectives, me.n_coll == 1);
  REQF(single, sent, me.sent == 1 && Same(me.sent_v[0], x[0]));
  if (R != 0) { REQF(single, not_master, r.first == 0.0 && r.second == 0.0); return; }
  const double m = Sum<S>(x) / S;
  REQF(single, mean, Eq(r.first, m));
  REQF(single, error, Eq(r.second, __builtin_sqrt(Sq<S>(x, m) / S / (S - 1))));   // from the deviations: never the root of a negative number
}
OB(single_m2, MPI_Comm k, double a, double b) { const double x[] = {a, b}; Single<0, 2>(k, x); }
OB(single_m3, MPI_Comm k, double a, double b, double c) { const double x[] = {a, b, c}; Single<0, 3>(k, x); }
OB(single_s2, MPI_Comm k, double a, double b) { const double x[] = {a, b}; Single<1, 2>(k, x); }
OB(single_z2, MPI_Comm k, double a, double b, double c, double d) {
  StartMpi(0, 2, k);
  me.remote[0][0] = c; me.remote[0][1] = d;
  const std::pair<Z, double> r = GatherStatisticSingleData(Z(a, b), k);
  const double x[] = {a, c}, y[] = {b, d}, m = (a + c) / 2, n = (b + d) / 2;
  REQF(single_z2, mean, Eq(r.first, Z(m, n)));
  REQF(single_z2, error, Eq(r.second, __builtin_sqrt((((a - m) * (a - m) + (b - n) * (b - n)) + ((c - m) * (c - m) + (d - n) * (d - n))) / 2)));
}
// a list per rank
template <int R, int S, int N> static inline void List(MPI_Comm k, const double *x, double u, double w) {
  StartMpi(R, S, k);
  for (int q = 1; q < S; ++q) for (int i = 0; i < N; ++i) me.remote[q - 1][i] = x[q * N + i];
  const VD data = Make<N>(x);
  VD avg, err; avg.push_back(u); err.push_back(w);
  GatherStatisticListOfData(data, k, avg, err);
  if constexpr (N == 0) { REQF(list, none, avg.empty() && err.empty()); return; }
  if constexpr (S == 1) {
    REQF(list, alone, avg.size() == N && err.empty());
    for (int i = 0; i < N; ++i) REQF(list, alone_value, Same(avg[i], x[i]));
    return;
  }
  REQF(list, collectives, me.n_coll == 1);
  REQF(list, sent, me.sent == N);
  for (int i = 0; i < N; ++i) REQF(list, sent_value, Same(me.sent_v[i], x[i]));
  if (R != 0) return;
  REQF(list, size, avg.size() == N && err.size() == N);
  for (int i = 0; i < N; ++i) {
    double col[S]; for (int q = 0; q < S; ++q) col[q] = x[q * N + i];
    const double m = Sum<S>(col) / S;
    REQF(list, mean, Eq(avg[i], m));
    REQF(list, error, Eq(err[i], __builtin_sqrt(Sq<S>(col, m) / S / (S - 1))));
  }
}
#define X6 double a, double b, double c, double d, double e, double f
#define X6A const double x[] = {a, b, c, d, e, f}
OB(list_none, MPI_Comm k, double u, double w) { const double x[1] = {0}; List<0, 2, 0>(k, x, u, w); }
OB(list_alone, MPI_Comm k, X6, double u, double w) { X6A; List<0, 1, 3>(k, x, u, w); }
OB(list_m2x3, MPI_Comm k, X6, double u, double w) { X6A; List<0, 2, 3>(k, x, u, w); }
OB(list_m3x2, MPI_Comm k, X6, double u, double w) { X6A; List<0, 3, 2>(k, x, u, w); }
OB(list_s2x3, MPI_Comm k, X6, double u, double w) { X6A; List<1, 2, 3>(k, x, u, w); }
template <int N> static inline void Ips(const double *x, bool given, double mu) {
  const VD v = Make<N>(x);
  const double g = given ? IPSInflationFactor(v, mu) : IPSInflationFactor(v);
  REQF(ips, at_least_one, g >= 1.0);
  if (N < 3) REQF(ips, short_series, g == 1.0);
}
OB(ips_0, double m, bool g) { const double x[1] = {0}; Ips<0>(x, g, m); }
OB(ips_2, double a, double b, double m, bool g) { const double x[] = {a, b}; Ips<2>(x, g, m); }
OB(ips_3, double a, double b, double c, double m, bool g) { const double x[] = {a, b, c}; Ips<3>(x, g, m); }
OB(ips_5, X5, double m, bool g) { const double x[] = {a, b, c, d, e}; Ips<5>(x, g, m); }
