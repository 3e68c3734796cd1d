// Environment of the energy and gradient estimators: tensors are single (complex) numbers that know whether they were ever
// given a shape, the engine delivers arbitrary samples (configuration, amplitude, acceptance rates), the model solver arbitrary
// local energies and holes, and reductions over ranks are uninterpreted functions of this rank's contribution.
#ifndef QLV_VCAP
#define QLV_VCAP 3
#endif
#include "qlv.h"
#include "qlv_vector.h"
#include "qlv_null.h"
#include "qlten/qlten.h"
#include <cmath>
#include <complex>
#include <optional>
#include <functional>
#define QLV_R 1
#define QLV_C 2
typedef std::complex<double> Z;
extern "C" {
void qlv_bad_mpi_call() noexcept __attribute__((noreturn));
void qlv_bad_tensor() noexcept __attribute__((noreturn));      // arithmetic on a tensor without indices, a wrong contraction
void qlv_bad_order() noexcept __attribute__((noreturn));       // sampled or evaluated before the state was broadcast and refreshed
double qlv_uf_mean_re(double, double) noexcept __attribute__((const));
double qlv_uf_mean_im(double, double) noexcept __attribute__((const));
double qlv_uf_par_re(double, double) noexcept __attribute__((const));
double qlv_uf_par_im(double, double) noexcept __attribute__((const));
double qlv_uf_nsq(double, double) noexcept __attribute__((const));
}
struct QB { static constexpr bool f = false; };
struct QF { static constexpr bool f = true; };
namespace qlten {
template <class Q> struct Index { static constexpr bool IsFermionic() { return Q::f; } };
template <class E, class Q> struct QLTensor {
  E v = E(0); long d = 1, k = 0;                 // d: no indices; k: 0 site tensor / hole, 1 scalar-like remainder
  QLTensor() {}
  explicit QLTensor(int) : v(E(0)), d(0) {}
  QLTensor(E x) : v(x), d(0) {}
  QLTensor(const QLTensor &o) : v(o.v), d(o.d), k(o.k) {}
  QLTensor &operator=(const QLTensor &o) { v = o.v; d = o.d; k = o.k; return *this; }
  static constexpr bool IsFermionic() { return Q::f; }
  int GetIndexes() const { if (d) qlv_bad_tensor(); return 0; }
  bool IsDefault() const { return d; }
  void ActFermionPOps() { if (d) qlv_bad_tensor(); const double a = v.real(), b = v.imag(); v = E(qlv_uf_par_re(a, b), qlv_uf_par_im(a, b)); }
  E GetElem(std::initializer_list<size_t>) const { if (d || k != 1) qlv_bad_tensor(); return v; }
  QLTensor operator-() const { if (d) qlv_bad_tensor(); QLTensor r(*this); r.v = -v; return r; }
  QLTensor operator*(E s) const { if (d) qlv_bad_tensor(); QLTensor r(*this); r.v = v * s; return r; }
  QLTensor &operator*=(E s) { if (d) qlv_bad_tensor(); v *= s; return *this; }
  QLTensor &operator+=(const QLTensor &o) { if (d || o.d) qlv_bad_tensor(); v += o.v; return *this; }
  QLTensor operator+(const QLTensor &o) const { if (d || o.d) qlv_bad_tensor(); QLTensor r(*this); r.v = v + o.v; return r; }
  QLTensor operator-(const QLTensor &o) const { if (d || o.d) qlv_bad_tensor(); QLTensor r(*this); r.v = v - o.v; return r; }
};
template <class E, class Q> inline QLTensor<E, Q> operator*(E s, const QLTensor<E, Q> &t) { return t * s; }
template <class E, class Q> inline QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) { if (t.d) qlv_bad_tensor(); QLTensor<E, Q> r(t); r.v = std::conj(t.v); return r; }
typedef std::initializer_list<size_t> Ax;
template <class E, class Q> inline void Contract(const QLTensor<E, Q> *a, Ax x, const QLTensor<E, Q> *b, Ax y, QLTensor<E, Q> *c) {
  if (a->d || b->d || a->k != 0 || x.size() != y.size()) qlv_bad_tensor();
  const size_t *p = x.begin(), *q = y.begin();
  if (x.size() == 4) { if (b->k != 0 || p[0] != 1 || p[1] != 2 || p[2] != 3 || p[3] != 4 || q[0] != 0 || q[1] != 1 || q[2] != 2 || q[3] != 3) qlv_bad_tensor(); c->k = 1; }
  else { if (x.size() != 1 || b->k != 1 || p[0] != 0 || q[0] != 0) qlv_bad_tensor(); c->k = 0; }
  c->v = a->v * b->v; c->d = 0;
}
namespace hp_numeric {
inline void MPI_Bcast(Z *p, int n, int root, MPI_Comm c);
}
}  // namespace qlten
#define QLPEPS_VMC_BASIC_CONFIGURATION_H
#define QLPEPS_OND_DIM_TN_BOUNDARY_MPS_BMPS_H
#define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_H
#define QLPEPS_TWO_DIM_TN_TPS_TENSOR_NETWORK_2D_H
#define QLPEPS_VMC_PEPS_ALGORITHM_VMC_UPDATE_WAVE_FUNCTION_COMPONENT_H
#define QLPEPS_ALGORITHM_VMC_UPDATE_MONTE_CARLO_ENGINE_H
#define QLPEPS_ALGORITHM_VMC_UPDATE_MODEL_ENERGY_SOLVER_H
#define QLPEPS_MONTE_CARLO_TOOLS_STATISTICS_H
#ifndef QLV_REAL_MEAN
#define QLPEPS_VMC_BASIC_STATISTICS_TENSOR_H
#endif
#define vector qlv_vector
#include "qlpeps/basic.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
namespace qlpeps {
using namespace qlten;
struct BMPSTruncateParamsModel { int id = 0; };
template <class E, class Q> struct BMPSContractor { typedef BMPSTruncateParamsModel TruncateParams; };
struct NoDress {};
struct Configuration {
  size_t R_ = 0, C_ = 0, e_[4] = {};
  Configuration() {}
  Configuration(size_t r, size_t c) : R_(r), C_(c) {}
  size_t rows() const { return R_; } size_t cols() const { return C_; }
  size_t &operator()(const SiteIdx &s) { if (s.row() >= R_ || s.col() >= C_) qlv_out_of_bounds(); const size_t i = s.row() * C_ + s.col(); return i == 0 ? e_[0] : i == 1 ? e_[1] : i == 2 ? e_[2] : e_[3]; }
  const size_t &operator()(const SiteIdx &s) const { return const_cast<Configuration &>(*this)(s); }
};
template <class T> struct Grid {
  T s[2]; size_t rows_ = 0, cols_ = 0;
  T &operator()(const SiteIdx &x) { if (x.row() >= rows_ || x.col() >= cols_) qlv_out_of_bounds(); return x.col() == 0 ? s[0] : s[1]; }
  const T &operator()(const SiteIdx &x) const { if (x.row() >= rows_ || x.col() >= cols_) qlv_out_of_bounds(); return x.col() == 0 ? s[0] : s[1]; }
  size_t rows() const { return rows_; } size_t cols() const { return cols_; } size_t size() const { return rows_ * cols_; }
};
template <class E, class Q> struct TensorNetwork2D : Grid<QLTensor<E, Q>> {
  TensorNetwork2D() {}
  TensorNetwork2D(size_t r, size_t c) { this->rows_ = r; this->cols_ = c; }
};
template <class E, class Q> struct SplitIndexTPS : Grid<std::vector<QLTensor<E, Q>>> {
  typedef QLTensor<E, Q> Tensor;
  SplitIndexTPS() {}
  SplitIndexTPS(size_t r, size_t c) { this->rows_ = r; this->cols_ = c; }
  SplitIndexTPS(size_t r, size_t c, size_t d) { this->rows_ = r; this->cols_ = c; this->s[0].resize(d); this->s[1].resize(d); }
  size_t PhysicalDim() const { return this->s[0].size(); }
  template <class F> void each(F f) const { for (int a = 0; a < 2; ++a) for (size_t i = 0; i < QLV_VCAP; ++i) if (i < this->s[a].size()) f(a, i); }
  SplitIndexTPS like() const { return SplitIndexTPS(this->rows_, this->cols_, PhysicalDim()); }
  SplitIndexTPS operator*(E x) const { SplitIndexTPS r = like(); each([&](int a, size_t i) { if (!this->s[a][i].d) r.s[a][i] = this->s[a][i] * x; }); return r; }
  SplitIndexTPS operator*=(E x) { *this = *this * x; return *this; }
  SplitIndexTPS operator-() const { SplitIndexTPS r = like(); each([&](int a, size_t i) { if (!this->s[a][i].d) r.s[a][i] = -this->s[a][i]; }); return r; }
  SplitIndexTPS operator+(const SplitIndexTPS &o) const {
    if (this->rows_ != o.rows_ || this->cols_ != o.cols_) qlv_bad_tensor();
    SplitIndexTPS r = like();
    each([&](int a, size_t i) { const Tensor &x = this->s[a][i], &y = o.s[a][i]; if (!x.d && !y.d) r.s[a][i] = x + y; else if (!x.d) r.s[a][i] = x; else if (!y.d) r.s[a][i] = y; });
    return r;
  }
  SplitIndexTPS operator-(const SplitIndexTPS &o) const { return *this + (-o); }
  SplitIndexTPS &operator+=(const SplitIndexTPS &o) { *this = *this + o; return *this; }
  double NormSquare() const { double t = 0; each([&](int a, size_t i) { if (!this->s[a][i].d) t += qlv_uf_nsq(this->s[a][i].v.real(), this->s[a][i].v.imag()); }); return t; }
};
template <class E, class Q> inline SplitIndexTPS<E, Q> operator*(E x, const SplitIndexTPS<E, Q> &w) { return w * x; }
// ---- samples
struct Smp { Z e, a; size_t c[2]; Z h[2]; double r[2]; };
struct Run {
  long n, n_energy, n_bcast, n_refresh, n_assign, n_sub; Smp s[3];
  long rank, size; size_t spr; Z mean; double err; double legal;
  long n_bin; size_t bin_n; Z bin[3]; long n_eb; long n_max; double gmax[2]; long want_assign, fill;
};
static Run run;
static inline void QlvComm(MPI_Comm c) { if (c != (MPI_Comm)1) qlv_bad_mpi_call(); }
template <class E, class Q> inline void MPI_Bcast(SplitIndexTPS<E, Q> &t, const MPI_Comm &c, int root = 0) {
  QlvComm(c); if (root != 0) qlv_bad_mpi_call(); if (run.fill) { t = SplitIndexTPS<E, Q>(QLV_R, QLV_C, 2); t.s[0][0] = QLTensor<E, Q>(Z(.5, .25)); t.s[0][1] = QLTensor<E, Q>(Z(.5, .5)); t.s[1][0] = QLTensor<E, Q>(Z(2, 1)); t.s[1][1] = QLTensor<E, Q>(Z(3, 1)); }
  if (run.rank == 0 && run.n_assign != run.want_assign) qlv_bad_order(); ++run.n_bcast; }
template <class E, class Q, class D = NoDress, template <class, class> class C = BMPSContractor> struct TPSWaveFunctionComponent {
  Z amplitude; Configuration config{QLV_R, QLV_C}; TensorNetwork2D<E, Q> tn{QLV_R, QLV_C};
  TPSWaveFunctionComponent() {}
  template <class T> TPSWaveFunctionComponent(const SplitIndexTPS<E, Q> &st, const Configuration &f, const T &) : config(f) { init(st, f); }
  void init(const SplitIndexTPS<E, Q> &, const Configuration &);
  Z GetAmplitude() const { return amplitude; }
  const size_t &GetConfiguration(const SiteIdx &x) const { return config(x); }
  const Configuration &GetConfiguration() const { return config; }
  bool IsAmplitudeSquareLegal() const { return run.legal > 0; }
};
struct Upd {};
template <class E, class Q, class U, template <class, class> class C> struct MonteCarloEngine {
  typedef TPSWaveFunctionComponent<E, Q, NoDress, C> W;
  SplitIndexTPS<E, Q> st{QLV_R, QLV_C, 2}; W w; MPI_Comm comm = (MPI_Comm)1;
  SplitIndexTPS<E, Q> &State() { return st; }
  const SplitIndexTPS<E, Q> &State() const { return st; }
  void AssignState(const SplitIndexTPS<E, Q> &x) { st = x; ++run.n_assign; }
  const MPI_Comm &Comm() const { return comm; }
  int Rank() const { return run.rank; } int MpiSize() const { return run.size; }
  size_t Ly() const { return QLV_R; } size_t Lx() const { return QLV_C; }
  size_t SamplesPerRank() const { return run.spr; }
  W &WavefuncComp() { return w; } const W &WavefuncComp() const { return w; }
  void RefreshWavefunctionComponent() { if (run.n_bcast != 1) qlv_bad_order(); ++run.n_refresh; w.amplitude = Z(1, 0); }
  std::vector<double> StepSweep() {
    if (run.n_refresh != 1 || run.n >= 3) qlv_bad_order();
    const int k = run.n++; const Smp &s = k == 0 ? run.s[0] : k == 1 ? run.s[1] : run.s[2]; w.amplitude = s.a; w.config({0, 0}) = s.c[0]; w.config({0, 1}) = s.c[1];
    w.tn({0, 0}) = st.s[0][s.c[0]]; w.tn({0, 1}) = st.s[1][s.c[1]];
    std::vector<double> r; r.push_back(s.r[0]); r.push_back(s.r[1]); return r;
  }
};
template <class E, class Q> struct Solver {
  template <class EE, class QQ, bool H> Z CalEnergyAndHoles(const SplitIndexTPS<EE, QQ> *st, TPSWaveFunctionComponent<EE, QQ> *w, TensorNetwork2D<EE, QQ> &h) {
    if (!H) qlv_bad_order();
    Z e = CalEnergy<EE, QQ>(st, w); const int k = run.n_energy - 1; const Smp &s = k == 0 ? run.s[0] : k == 1 ? run.s[1] : run.s[2];
    h({0, 0}) = QLTensor<EE, QQ>(s.h[0]); h({0, 1}) = QLTensor<EE, QQ>(s.h[1]); return e;
  }
  template <class EE, class QQ> Z CalEnergy(const SplitIndexTPS<EE, QQ> *st, TPSWaveFunctionComponent<EE, QQ> *w) {
    const int k = run.n_energy++; if (run.n_energy != run.n) qlv_bad_order();
    const Smp &s = k == 0 ? run.s[0] : k == 1 ? run.s[1] : run.s[2];
    if (w->config({0, 0}) != s.c[0] || w->config({0, 1}) != s.c[1]) qlv_bad_order();
    chk(st); return s.e;
  }
  const SplitIndexTPS<E, Q> *own = nullptr;
  void chk(const void *p) { if (own && p != own) qlv_bad_order(); }
};
inline std::pair<Z, double> MeanAndBinnedErrorSqrtNUniformBin(const std::vector<Z> &x, const MPI_Comm &c) {
  QlvComm(c); ++run.n_bin; run.bin_n = x.size(); for (size_t k = 0; k < 3; ++k) if (k < x.size()) run.bin[k] = x[k];
  return run.rank == 0 ? std::pair<Z, double>(run.mean, run.err) : std::pair<Z, double>(Z(0, 0), 0.0);
}
#ifndef QLV_REAL_MEAN
template <class E, class Q> inline QLTensor<E, Q> MPIMeanTensor(const QLTensor<E, Q> &t, const MPI_Comm &c) {
  QlvComm(c); if (t.d) qlv_bad_tensor(); ++run.n_sub; QLTensor<E, Q> r;
  if (run.rank == 0) r = QLTensor<E, Q>(E(qlv_uf_mean_re(t.v.real(), t.v.imag()), qlv_uf_mean_im(t.v.real(), t.v.imag())));
  return r;
}
#endif
}  // namespace qlpeps
// only the collectives an estimator makes; the energy is broadcast after the binned mean
inline void qlten::hp_numeric::MPI_Bcast(Z *p, int n, int root, MPI_Comm c) { qlpeps::QlvComm(c); if (n != 1 || root != 0 || qlpeps::run.n_bin != 1) qlv_bad_mpi_call(); ++qlpeps::run.n_eb; if (qlpeps::run.rank != 0) *p = qlpeps::run.mean; }
inline int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  qlpeps::QlvComm(c); if (t != MPI_DOUBLE || op != MPI_MAX || n != 2) qlv_bad_mpi_call();
  ++qlpeps::run.n_max; ((double *)b)[0] = qlpeps::run.gmax[0]; ((double *)b)[1] = qlpeps::run.gmax[1]; return MPI_SUCCESS;
}
