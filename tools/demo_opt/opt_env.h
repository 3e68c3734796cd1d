// A runnable stand-in for what class Optimizer is built on: the state is a list of numbers (one site), the linear solver returns
// what the demonstration gives it.  The optimizer itself is the repository's code.
#pragma once
#include "mpi.h"
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
namespace mpirun { inline int rank = 0, size = 1; inline std::vector<double> in; inline std::vector<double> out; }
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = mpirun::rank; return 0; }
inline int MPI_Comm_size(MPI_Comm, int *s) { *s = mpirun::size; return 0; }
inline int MPI_Barrier(MPI_Comm) { return 0; }
inline int MPI_Abort(MPI_Comm, int) { std::abort(); }
// rank 0 keeps what it sends; the others take what the demonstration put into mpirun::in
inline int MPI_Bcast(void *p, int, MPI_Datatype t, int, MPI_Comm) {
  if (mpirun::rank == 0) { mpirun::out.push_back(t == MPI_INT ? *(int *)p : *(double *)p); return 0; }
  double v = 0; if (!mpirun::in.empty()) { v = mpirun::in.front(); mpirun::in.erase(mpirun::in.begin()); }
  if (t == MPI_INT) *(int *)p = (int)v; else *(double *)p = v;
  return 0;
}
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { for (int i = 0; i < n; ++i) if (t == MPI_INT) ((int *)r)[i] = ((const int *)s)[i]; else ((double *)r)[i] = ((const double *)s)[i]; return 0; }
inline int MPI_Allgather(const void *s, int n, MPI_Datatype, void *r, int, MPI_Datatype, MPI_Comm) { for (int i = 0; i < n; ++i) ((double *)r)[i] = ((const double *)s)[i]; return 0; }
inline int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype, MPI_Op, int, MPI_Comm) { for (int i = 0; i < n; ++i) ((double *)r)[i] = ((const double *)s)[i]; return 0; }
#include "qlten/qlten.h"
#include "qlten/utility/timer.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
namespace qlten {
template <class E, class Q> struct QLTensor {
  E v = 0;
  QLTensor() {}
  explicit QLTensor(int) {}
  int GetIndexes() const { return 0; }
  Q Div() const { return Q(); }
  bool IsDefault() const { return false; }
  void Fill(const Q &, E x) { v = x; }
  QLTensor operator-() const { QLTensor r; r.v = -v; return r; }
  QLTensor operator*(E s) const { QLTensor r; r.v = v * s; return r; }
  QLTensor &operator*=(E s) { v *= s; return *this; }
  QLTensor &operator+=(const QLTensor &o) { v += o.v; return *this; }
  QLTensor operator+(const QLTensor &o) const { QLTensor r; r.v = v + o.v; return r; }
};
template <class E, class Q> inline QLTensor<E, Q> operator*(E s, const QLTensor<E, Q> &t) { return t * s; }
template <class E, class Q> inline QLTensor<E, Q> ElementWiseMultiply(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) { QLTensor<E, Q> r; r.v = a.v * b.v; return r; }
template <class T> T Dag(const T &);
template <class T> void Contract(const T *, std::initializer_list<size_t>, const T *, std::initializer_list<size_t>, T *);
}  // namespace qlten
#define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_H
namespace qlpeps {
using std::size_t;
template <class E, class Q> struct SplitIndexTPS {
  typedef qlten::QLTensor<E, Q> Tensor;
  std::vector<Tensor> t; size_t r_ = 0, c_ = 0;
  SplitIndexTPS() {}
  SplitIndexTPS(size_t r, size_t c, size_t d) : t(d), r_(r), c_(c) {}
  size_t rows() const { return r_; } size_t cols() const { return c_; } size_t PhysicalDim() const { return t.size(); } size_t size() const { return r_ * c_; }
  std::vector<Tensor> &operator()(const SiteIdx &) { return t; }
  const std::vector<Tensor> &operator()(const SiteIdx &) const { return t; }
  template <class F> SplitIndexTPS map(F f) const { SplitIndexTPS r(*this); for (auto &x : r.t) x.v = f(x.v); return r; }
  SplitIndexTPS operator*(E x) const { return map([&](E a) { return a * x; }); }
  SplitIndexTPS operator*=(E x) { *this = map([&](E a) { return a * x; }); return *this; }
  SplitIndexTPS operator-() const { return map([](E a) { return -a; }); }
  SplitIndexTPS &operator+=(const SplitIndexTPS &o) { for (size_t i = 0; i < t.size(); ++i) t[i].v += o.t.at(i).v; return *this; }
  SplitIndexTPS &operator-=(const SplitIndexTPS &o) { for (size_t i = 0; i < t.size(); ++i) t[i].v -= o.t.at(i).v; return *this; }
  SplitIndexTPS operator+(const SplitIndexTPS &o) const { SplitIndexTPS r(*this); r += o; return r; }
  SplitIndexTPS operator-(const SplitIndexTPS &o) const { SplitIndexTPS r(*this); r -= o; return r; }
  E operator*(const SplitIndexTPS &o) const { E s = 0; for (size_t i = 0; i < t.size(); ++i) s += t[i].v * o.t.at(i).v; return s; }
  double NormSquare() const { double s = 0; for (auto &x : t) s += std::norm(x.v); return s; }
  SplitIndexTPS ElementWiseSquaredNorm() const { return map([](E a) { return std::norm(a); }); }
  SplitIndexTPS ElementWiseSqrt() const { return map([](E a) { return std::sqrt(a); }); }
  SplitIndexTPS ElementWiseInverse(double e) const { return map([&](E a) { return std::abs(a) > e ? 1.0 / a : 0.0; }); }
  void ElementWiseClipTo(double c) { *this = map([&](E a) { return std::abs(a) > c ? a / std::abs(a) * c : a; }); }
  void ClipByGlobalNorm(double c) { const double n = std::sqrt(NormSquare()); if (n > c) *this *= c / n; }
  void Dump(const std::string &, bool = false) {}
  void Dump(const std::string &) const {}
};
template <class E, class Q> SplitIndexTPS<E, Q> operator*(E x, const SplitIndexTPS<E, Q> &w) { return w * x; }
template <class E, class Q> SplitIndexTPS<E, Q> ElementWiseSquaredNorm(const SplitIndexTPS<E, Q> &w) { return w.ElementWiseSquaredNorm(); }
template <class E, class Q> SplitIndexTPS<E, Q> ElementWiseSqrt(const SplitIndexTPS<E, Q> &w) { return w.ElementWiseSqrt(); }
template <class E, class Q> SplitIndexTPS<E, Q> ElementWiseInverse(const SplitIndexTPS<E, Q> &w, double e) { return w.ElementWiseInverse(e); }
}  // namespace qlpeps
#define QLPEPS_VMC_PEPS_CONJUGATE_GRADIENT_SOLVER_H
#define QLPEPS_VMC_PEPS_STOCHASTIC_RECONFIGURATION_SMATRIX_H
#define QLPEPS_OPTIMIZER_MINSR_TMATRIX_H
#define QLPEPS_OPTIMIZER_MINSR_EIGENSOLVE_H
#include "qlpeps/optimizer/optimizer_params.h"
struct QN {};
typedef qlpeps::SplitIndexTPS<double, QN> W;
inline W St(std::vector<double> v) { W w(1, 1, v.size()); for (size_t i = 0; i < v.size(); ++i) w.t[i].v = v[i]; return w; }
inline W St(double a) { return St(std::vector<double>{a}); }
inline double V(const W &w) { return w.t.at(0).v; }
namespace solver { inline W rhs, guess; inline std::function<W(const W &)> solve = [](const W &b) { return b; }; inline size_t iters = 9; inline double shift = 0; inline int n = 0; inline std::function<std::vector<double>(const std::vector<double> &)> eig = [](const std::vector<double> &b) { return b; }; }
namespace qlpeps {
enum class CGTerminationReason { kConverged, kMaxIterations, kIndefiniteMatrix, kNumericalBreakdown, kStagnated };
inline const char *to_string(CGTerminationReason) { return "r"; }
template <class T> struct CGResult { T x; double residual_norm; size_t iterations; CGTerminationReason reason; bool converged() const { return true; } };
template <class E, class Q> struct SRSMatrix {
  typedef SplitIndexTPS<E, Q> S;
  E diag_shift = 0.0;
  SRSMatrix(std::vector<S> *, S *, size_t, MPI_Comm) {}
};
template <class E, class Q> CGResult<SplitIndexTPS<E, Q>> ConjugateGradientSolver(const SRSMatrix<E, Q> &m, const SplitIndexTPS<E, Q> &b, const SplitIndexTPS<E, Q> &x0, const ConjugateGradientParams &, const MPI_Comm &) {
  ++solver::n; solver::rhs = b; solver::guess = x0; solver::shift = m.diag_shift;
  return {solver::solve(b), 0.0, solver::iters, CGTerminationReason::kConverged};
}
template <class E, class Q> struct MinSRTMatrix {
  void Construct(const std::vector<SplitIndexTPS<E, Q>> &s, MPI_Comm) { n = s.size(); }
  size_t n = 0; const E *RowBlockData() const { return nullptr; } size_t LocalRows() const { return n; } size_t GlobalSize() const { return n; }
};
template <class E> std::vector<E> MinSREigenSolveDispatch(const E *, size_t, size_t, const std::vector<E> &b, MPI_Comm, double, double, bool, MinSRSolverMode) { return solver::eig(b); }
template <class E, class Q> inline void MPI_Bcast(SplitIndexTPS<E, Q> &, const MPI_Comm &, int = 0) {}
template <class E, class Q> inline void MPI_Send(const SplitIndexTPS<E, Q> &, int, const MPI_Comm &, int = 0) {}
template <class E, class Q> inline MPI_Status MPI_Recv(SplitIndexTPS<E, Q> &, int, const MPI_Comm &, int = 0) { return MPI_Status(); }
}  // namespace qlpeps
#include "qlpeps/optimizer/optimizer.h"
using namespace qlpeps;
typedef Optimizer<double, QN> Opt;
typedef std::tuple<double, W, double> Ev;
inline OptimizerParams Pars(size_t it, double lr) { OptimizerParams p; p.base_params.max_iterations = it; p.base_params.learning_rate = lr; p.base_params.energy_tolerance = 0; p.base_params.gradient_tolerance = 0; p.base_params.plateau_patience = 100; p.spike_recovery_params.enable_auto_recover = false; p.spike_recovery_params.enable_rollback = false; return p; }
inline bool close(double a, double b) { return std::fabs(a - b) < 1e-9 * (1 + std::fabs(b)); }
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("FAIL line %d: %s\n", __LINE__, #__VA_ARGS__); std::exit(1); } } while (0)
