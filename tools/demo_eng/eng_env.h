// Functional stand-ins below the sampling engine and the energy estimator: a site tensor is one number per physical state, the
// amplitude their product, the hole of a site the product of the others; the updater walks through given configurations.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <complex>
#include <filesystem>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <optional>
#include <random>
#include <variant>
#include <vector>
#define QLPEPS_VMC_BASIC_CONFIGURATION_H
#define QLPEPS_OND_DIM_TN_BOUNDARY_MPS_BMPS_H
#define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_H
#define QLPEPS_VMC_PEPS_TWO_DIM_TN_TPS_TPS_H
#define QLPEPS_TWO_DIM_TN_TPS_TENSOR_NETWORK_2D_H
#define QLPEPS_TWO_DIM_TN_TENSOR_NETWORK_2D_TRG_CONTRACTOR_H
#define QLPEPS_VMC_PEPS_ALGORITHM_VMC_UPDATE_WAVE_FUNCTION_COMPONENT_H
#define QLPEPS_ALGORITHM_VMC_UPDATE_MODEL_ENERGY_SOLVER_H
#define QLPEPS_MONTE_CARLO_TOOLS_STATISTICS_H
#define QLPEPS_VMC_BASIC_STATISTICS_TENSOR_H
#include "mpi_threads.h"
#include "qlten/qlten.h"
#include "qlten/utility/timer.h"
#include "qlpeps/basic.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#include "qlpeps/two_dim_tn/common/boundary_condition.h"
#define CHECK(c) do { if (!(c)) { std::printf("FAILED %s:%d %s\n", __FILE__, __LINE__, #c); std::exit(1); } } while (0)
typedef std::complex<double> Z;
struct Q0 {};
inline void Need(bool b) { if (!b) throw std::logic_error("tensor without indices"); }
namespace qlten {
template <class Q> struct Index { static constexpr bool IsFermionic() { return false; } };
template <class E, class Q> struct QLTensor {
  E v = E(0); bool d = true;
  QLTensor() {} explicit QLTensor(int) : d(false) {} QLTensor(E x) : v(x), d(false) {}
  static constexpr bool IsFermionic() { return false; }
  int GetIndexes() const { Need(!d); return 0; } bool IsDefault() const { return d; } void ActFermionPOps() {} E GetElem(std::initializer_list<size_t>) const { return v; }
  QLTensor operator-() const { Need(!d); return QLTensor(-v); } QLTensor operator*(E s) const { Need(!d); return QLTensor(v * s); } QLTensor &operator*=(E s) { v *= s; return *this; }
  QLTensor &operator+=(const QLTensor &o) { Need(!d && !o.d); v += o.v; return *this; } QLTensor operator+(const QLTensor &o) const { Need(!d && !o.d); return QLTensor(v + o.v); } QLTensor operator-(const QLTensor &o) const { Need(!d && !o.d); return QLTensor(v - o.v); }
};
template <class E, class Q> inline QLTensor<E, Q> operator*(E s, const QLTensor<E, Q> &t) { return t * s; }
template <class E, class Q> inline QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) { return QLTensor<E, Q>(std::conj(t.v)); }
template <class E, class Q> inline void Contract(const QLTensor<E, Q> *a, std::initializer_list<size_t>, const QLTensor<E, Q> *b, std::initializer_list<size_t>, QLTensor<E, Q> *c) { *c = QLTensor<E, Q>(a->v * b->v); }
namespace hp_numeric {
inline void GatherAndPrintErrorMessages(const std::string &, MPI_Comm c) { ::MPI_Barrier(c); } inline int GetTensorManipulationThreads() { return 1; }
inline int MPI_Bcast(Z *p, int n, int root, MPI_Comm c) { return ::MPI_Bcast(p, n, MPI_CXX_DOUBLE_COMPLEX, root, c); }
}
}
namespace qlpeps {
using namespace qlten; using std::size_t;
enum class CompressMPSScheme { SVD_COMPRESS };
template <class E> struct BMPSTruncateParams { long id = 0; size_t D_min = 1, D_max = 1; CompressMPSScheme compress_scheme{}; };
template <class E> struct TRGTruncateParams { long id = 0; size_t D_min = 1, D_max = 1; double trunc_err = 0, inv_relative_eps = 0; };
struct Configuration {
  size_t R = 0, C = 0; std::vector<size_t> e;
  Configuration() {} Configuration(size_t r, size_t c, std::vector<size_t> v = {}) : R(r), C(c), e(v) { e.resize(r * c); }
  size_t rows() const { return R; } size_t cols() const { return C; } bool Load(const std::string &, size_t) { return true; }
  size_t &operator()(const SiteIdx &s) { return e.at(s.row() * C + s.col()); } const size_t &operator()(const SiteIdx &s) const { return e.at(s.row() * C + s.col()); }
};
inline void MPI_BCast(Configuration &f, size_t root, const MPI_Comm &c) { ::MPI_Bcast(f.e.data(), (int)f.e.size(), MPI_UNSIGNED_LONG, (int)root, c); }
template <class E, class Q> struct TPS {};
template <class T> struct Grid {
  size_t R = 0, C = 0; std::vector<T> e;
  Grid() {} Grid(size_t r, size_t c) : R(r), C(c), e(r * c) {}
  size_t rows() const { return R; } size_t cols() const { return C; } size_t size() const { return R * C; }
  T &operator()(const SiteIdx &s) { return e.at(s.row() * C + s.col()); } const T &operator()(const SiteIdx &s) const { return e.at(s.row() * C + s.col()); }
};
template <class E, class Q> struct TensorNetwork2D : Grid<QLTensor<E, Q>> { using Grid<QLTensor<E, Q>>::Grid; };
template <class E, class Q> struct SplitIndexTPS : Grid<std::vector<QLTensor<E, Q>>> {
  typedef QLTensor<E, Q> Tensor; BoundaryCondition bc = BoundaryCondition::Open; using G = Grid<std::vector<Tensor>>;
  SplitIndexTPS() {} SplitIndexTPS(size_t r, size_t c) : G(r, c) {} SplitIndexTPS(size_t r, size_t c, size_t d) : G(r, c) { for (auto &x : this->e) x.resize(d); }
  size_t PhysicalDim() const { return this->e[0].size(); } BoundaryCondition GetBoundaryCondition() const { return bc; } size_t GetMaxBondDimension() const { return 1; }
  template <class F> SplitIndexTPS map(F f) const { SplitIndexTPS r(*this); for (auto &x : r.e) for (auto &t : x) if (!t.d) t.v = f(t.v); return r; }
  template <class S> SplitIndexTPS operator*(S x) const { return map([&](E v) { return v * x; }); } template <class S> SplitIndexTPS &operator*=(S x) { *this = *this * x; return *this; } SplitIndexTPS operator-() const { return map([](E v) { return -v; }); }
  SplitIndexTPS operator+(const SplitIndexTPS &o) const { SplitIndexTPS r(*this); for (size_t i = 0; i < r.e.size(); ++i) for (size_t k = 0; k < r.e[i].size(); ++k) { if (o.e[i][k].d) continue; if (r.e[i][k].d) r.e[i][k] = o.e[i][k]; else r.e[i][k].v += o.e[i][k].v; } return r; }
  SplitIndexTPS operator-(const SplitIndexTPS &o) const { return *this + (-o); } SplitIndexTPS &operator+=(const SplitIndexTPS &o) { *this = *this + o; return *this; }
  double NormSquare() const { double s = 0; for (auto &x : this->e) for (auto &t : x) if (!t.d) s += std::norm(t.v); return s; }
};
template <class E, class Q> inline SplitIndexTPS<E, Q> operator*(E x, const SplitIndexTPS<E, Q> &w) { return w * x; }
template <class E, class Q> inline void MPI_Bcast(SplitIndexTPS<E, Q> &t, const MPI_Comm &c, int root = 0) { for (auto &x : t.e) for (auto &y : x) { ::MPI_Bcast(&y.v, (int)(sizeof(E) / 8), MPI_DOUBLE, root, c); y.d = false; } }
template <class E, class Q> struct BMPSContractor { typedef BMPSTruncateParams<double> TruncateParams; };
template <class E, class Q> struct TRGContractor { typedef TRGTruncateParams<double> TruncateParams; };
struct NoDress {};
template <class E, class Q, class D = NoDress, template <class, class> class C = BMPSContractor> struct TPSWaveFunctionComponent {
  typedef typename C<E, Q>::TruncateParams TruncateParams;
  Configuration config; E amplitude{}; TruncateParams trun_para; TensorNetwork2D<E, Q> tn;
  TPSWaveFunctionComponent(size_t r, size_t c, const TruncateParams &t) : config(r, c), trun_para(t) {}
  TPSWaveFunctionComponent(const SplitIndexTPS<E, Q> &s, const Configuration &f, const TruncateParams &t) : config(f), amplitude(1), trun_para(t), tn(f.R, f.C) {
    for (size_t i = 0; i < f.e.size(); ++i) { if (f.e[i] >= s.PhysicalDim()) throw std::runtime_error("empty tensor"); tn.e[i] = s.e[i][f.e[i]]; amplitude *= tn.e[i].v; }
  }
  E GetAmplitude() const { return amplitude; } const size_t &GetConfiguration(const SiteIdx &x) const { return config(x); } const Configuration &GetConfiguration() const { return config; }
  bool IsAmplitudeSquareLegal() const { return std::abs(amplitude) > 0; }
};
template <class W> inline bool CheckWaveFunctionAmplitudeValidity(const W &w, double lo, double hi) { const double a = std::abs(w.amplitude); return a > lo && a < hi; }
inline std::pair<Z, double> MeanAndBinnedErrorSqrtNUniformBin(const std::vector<Z> &x, const MPI_Comm &c) { Z s = 0, t = 0; for (auto &y : x) s += y; s /= double(x.size()); std::vector<Z> g(mpit::size); ::MPI_Gather(&s, 1, MPI_CXX_DOUBLE_COMPLEX, g.data(), 1, MPI_CXX_DOUBLE_COMPLEX, 0, c); if (mpit::rank) return {Z(0), 0.0}; for (auto &y : g) t += y; return {t / double(mpit::size), 0.25}; }
template <class E, class Q> inline QLTensor<E, Q> MPIMeanTensor(const QLTensor<E, Q> &t, const MPI_Comm &c) { std::vector<E> g(mpit::size); ::MPI_Gather(&t.v, (int)(sizeof(E) / 8), MPI_DOUBLE, g.data(), 1, MPI_DOUBLE, 0, c); if (mpit::rank) return QLTensor<E, Q>(); E s = 0; for (auto &y : g) s += y; return QLTensor<E, Q>(s / double(mpit::size)); }
}
#include "qlpeps/algorithm/vmc_update/monte_carlo_engine.h"
#include "qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h"
using namespace qlpeps;
// the k-th sweep of a rank leaves configuration walk[rank][k]
inline std::vector<std::vector<std::vector<size_t>>> walk; inline std::vector<int> steps;
struct Walk {
  template <class S, class W> void operator()(const S &s, W &w, std::vector<double> &r) { auto &p = walk[mpit::rank]; const int k = steps[mpit::rank]++; if (k < (int)p.size()) w = W(s, Configuration(w.config.R, w.config.C, p[k]), w.trun_para); r = {0.5 + k}; }
};
inline std::function<Z(const std::vector<size_t> &)> local_energy = [](const std::vector<size_t> &e) { double s = 0; for (size_t i = 0; i < e.size(); ++i) s += (i + 1) * (e[i] + 0.5); return Z(s, 0.25 * s * s); };
struct Ham {
  template <class E, class Q, bool H> Z CalEnergyAndHoles(const SplitIndexTPS<E, Q> *s, TPSWaveFunctionComponent<E, Q> *w, TensorNetwork2D<E, Q> &h) { for (size_t i = 0; i < w->config.e.size(); ++i) h.e[i] = QLTensor<E, Q>(w->amplitude / w->tn.e[i].v); return local_energy(w->config.e); }
  template <class E, class Q> Z CalEnergy(const SplitIndexTPS<E, Q> *, TPSWaveFunctionComponent<E, Q> *w) { return local_energy(w->config.e); }
};
