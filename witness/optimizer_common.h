// Environment of class Optimizer: the tensor-network state is an element of a small vector space (QLV_R x QLV_C sites
// with QLV_D components, one number each) whose non-linear element-wise operations are uninterpreted functions; the
// energy evaluator returns arbitrary numbers and records the states it is given; linear solvers, files and clocks are
// models.  The optimizer itself, its parameters, spike detection and step logic are the repository's code.
#ifndef QLV_VCAP
#define QLV_VCAP 4
#endif
#ifndef QLV_R
#define QLV_R 1
#endif
#ifndef QLV_C
#define QLV_C 1
#endif
#ifndef QLV_D
#define QLV_D 1
#endif
#define QLV_STR_HASH
#include "qlv.h"
#include "qlv_vector.h"
#include "qlv_string.h"
#include "qlv_function.h"
#include "qlv_null.h"
#include "qlv_mpi.h"
// collectives: the master's values go out as they are; another rank receives what the obligation put into `co`
struct Coll { int n; long sig; int ints[16]; double dbl[16]; int n_abort, n_barrier; };
static Coll co;
static inline void QlvColl(long code, MPI_Comm c) { if (c != (MPI_Comm)1) qlv_bad_mpi_call(); co.sig = co.sig * 131 + code; if (co.n >= 16) qlv_model_overflow(); ++co.n; }
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm c) {
  if (n != 1 || root != 0) qlv_bad_mpi_call();
  const int k = co.n; QlvColl(t == MPI_INT ? 1 : t == MPI_DOUBLE ? 2 : 3, c);
  if (t == MPI_INT) { if (qlv::me.rank == 0) co.ints[k] = *(int *)p; else *(int *)p = co.ints[k]; }
  else if (t == MPI_DOUBLE) { if (qlv::me.rank == 0) co.dbl[k] = *(double *)p; else *(double *)p = co.dbl[k]; }
  else qlv_bad_mpi_call();
  return MPI_SUCCESS;
}
static int qlv_other_flags;      // what the other ranks contribute to a reduction of failure flags
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  if (n != 1 || t != MPI_INT || op != MPI_BOR) qlv_bad_mpi_call();
  QlvColl(4, c); *(int *)r = *(const int *)s | qlv_other_flags; return MPI_SUCCESS;
}
inline int MPI_Barrier(MPI_Comm c) { QlvColl(5, c); ++co.n_barrier; return MPI_SUCCESS; }
inline int MPI_Abort(MPI_Comm, int) { ++co.n_abort; return MPI_SUCCESS; }
inline long qlv_str_cat(long a, long b) noexcept { return a * 1000003 + b; }
inline long qlv_str_num(long n) noexcept { return n * 8 + 3; }
extern "C" {
double qlv_uf_nsq(double) noexcept __attribute__((const));
double qlv_uf_nsq2(double, double) noexcept __attribute__((const));
double qlv_uf_abs2(double) noexcept __attribute__((const));
double qlv_uf_root(double) noexcept __attribute__((const));
double qlv_uf_inv(double, double) noexcept __attribute__((const));
double qlv_uf_clipv(double, double) noexcept __attribute__((const));
double qlv_uf_clipn(double, double) noexcept __attribute__((const));
double qlv_uf_clipn2(double, double, double, int) noexcept __attribute__((const));
double qlv_uf_pow(double, double) noexcept __attribute__((const));
double qlv_uf_lr(long, size_t, double) noexcept __attribute__((const));
}
namespace std {
template <class T> struct qlv_deque : qlv_vector<T> {
  using qlv_vector<T>::qlv_vector;
  void pop_front() { if (this->n_ == 0) qlv_out_of_bounds(); for (size_t k = 0; k + 1 < QLV_VCAP; ++k) if (k + 1 < this->n_) this->e_[k] = std::move(this->e_[k + 1]); --this->n_; }
};
// files: not opened unless the obligation says so
struct qlv_ofs_null {
  typedef int openmode;
  bool open_ = false;
  qlv_ofs_null() {}
  template <class S> explicit qlv_ofs_null(const S &, int = 0) {}
  template <class S> void open(const S &, ios_base::openmode = ios_base::out) {}
  bool is_open() const { return open_; }
  explicit operator bool() const { return open_; }
  bool operator!() const { return !open_; }
  bool fail() const { return !open_; } bool good() const { return open_; }
  void close() {} void flush() {}
  template <class T> void exceptions(T) {}
  template <class T> qlv_ofs_null &operator<<(const T &) { return *this; }
  qlv_ofs_null &operator<<(ostream &(*)(ostream &)) { return *this; }
  qlv_ofs_null &operator<<(ios_base &(*)(ios_base &)) { return *this; }
};
namespace qlv_filesystem {
struct path {
  qlv_string s; path() {} template <class S> path(const S &x) : s(x) {}
  path parent_path() const { return *this; } bool empty() const { return s.empty(); }
};
struct filesystem_error : runtime_error { using runtime_error::runtime_error; };
inline bool create_directories(const path &) { return true; }
}  // namespace qlv_filesystem
inline double qlv_pow(double x, double y) { return qlv_uf_pow(x, y); }
}  // namespace std
#define string qlv_string
#define to_string qlv_to_string
#define vector qlv_vector
#define deque qlv_deque
#define function qlv_function
#define ofstream qlv_ofs_null
#define filesystem qlv_filesystem
#define pow qlv_pow
// ---- learning-rate scheduler: an uninterpreted function of the arguments (the schedulers: C01)
#define QLPEPS_OPTIMIZER_LR_SCHEDULERS_H
namespace qlpeps {
struct LearningRateScheduler {
  long kind; 
  explicit LearningRateScheduler(long k) : kind(k) {}
  template <class... A> LearningRateScheduler(A...) : kind(0) {}
  double GetLearningRate(size_t it, double e) const { return qlv_uf_lr(kind, it, e); }
  void Step() {} void Reset() {}
  std::unique_ptr<LearningRateScheduler> Clone() const { return std::make_unique<LearningRateScheduler>(*this); }
};
#define QLV_LR_(N) struct N : LearningRateScheduler { template <class... A> N(A...) : LearningRateScheduler(1L) {} }
struct ProbeLR : LearningRateScheduler { explicit ProbeLR(long k) : LearningRateScheduler(k) {} };
QLV_LR_(ConstantLR); QLV_LR_(ExponentialDecayLR); QLV_LR_(StepLR); QLV_LR_(PlateauLR); QLV_LR_(CosineAnnealingLR); QLV_LR_(WarmupLR);
}  // namespace qlpeps
// ---- tensors and states
#include "qlten/qlten.h"
#include "qlten/utility/timer.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
namespace qlten {
template <class E, class Q> struct QLTensor {
  E v = 0;
  QLTensor() {}
  explicit QLTensor(int) {}
  int GetIndexes() const { return 0; }
  Q Div() const { return Q(); }
  bool IsDefault() const { return false; }
  void Fill(const Q &, E x) { v = x; }
  QLTensor operator-() const { QLTensor r; r.v = -v; return r; }
  QLTensor operator*(E s) const { QLTensor r; r.v = v * s; return r; }
  QLTensor &operator*=(E s) { v *= s; return *this; }
  QLTensor &operator+=(const QLTensor &o) { v += o.v; return *this; }
  QLTensor operator+(const QLTensor &o) const { QLTensor r; r.v = v + o.v; return r; }
};
template <class E, class Q> inline QLTensor<E, Q> operator*(E s, const QLTensor<E, Q> &t) { return t * s; }
template <class E, class Q> inline QLTensor<E, Q> ElementWiseMultiply(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b) { QLTensor<E, Q> r; r.v = a.v * b.v; return r; }
template <class T> T Dag(const T &);
template <class T> void Contract(const T *, std::initializer_list<size_t>, const T *, std::initializer_list<size_t>, T *);
}  // namespace qlten
#define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_H
namespace qlpeps {
using std::size_t;
template <class E, class Q> struct SplitIndexTPS {
  typedef qlten::QLTensor<E, Q> Tensor;
  struct Site { Tensor t[QLV_D]; size_t n = 0; size_t size() const { return n; } Tensor &operator[](size_t i) { return i == 0 ? t[0] : t[QLV_D - 1]; } const Tensor &operator[](size_t i) const { return i == 0 ? t[0] : t[QLV_D - 1]; } };
  static constexpr int N = QLV_R * QLV_C;
  Site s[N]; size_t rows_ = 0, cols_ = 0;
  SplitIndexTPS() {}
#if QLV_D > 1
  // element-wise copies (a block copy of the whole state would hide the elements from load forwarding)
  SplitIndexTPS(const SplitIndexTPS &o) { cp(o); }
  SplitIndexTPS &operator=(const SplitIndexTPS &o) { cp(o); return *this; }
  void cp(const SplitIndexTPS &o) { for (int k = 0; k < N; ++k) { s[k].n = o.s[k].n; for (int j = 0; j < QLV_D; ++j) s[k].t[j].v = o.s[k].t[j].v; } rows_ = o.rows_; cols_ = o.cols_; }
#endif
  SplitIndexTPS(size_t r, size_t c, size_t d) : rows_(r), cols_(c) { for (int k = 0; k < N; ++k) s[k].n = d; }
  SplitIndexTPS(size_t r, size_t c) : rows_(r), cols_(c) { for (int k = 0; k < N; ++k) s[k].n = QLV_D; }
  size_t rows() const { return rows_; } size_t cols() const { return cols_; } size_t PhysicalDim() const { return QLV_D; }
  size_t size() const { return rows_ * cols_; }
  Site &operator()(const SiteIdx &x) { return x.row() * QLV_C + x.col() == 0 ? s[0] : s[N - 1]; }
  const Site &operator()(const SiteIdx &x) const { return x.row() * QLV_C + x.col() == 0 ? s[0] : s[N - 1]; }
  template <class F> SplitIndexTPS map(F f) const { SplitIndexTPS r(*this); for (int k = 0; k < N; ++k) for (int j = 0; j < QLV_D; ++j) r.s[k].t[j].v = f(s[k].t[j].v); return r; }
  template <class F> SplitIndexTPS zip(const SplitIndexTPS &o, F f) const { SplitIndexTPS r(*this); for (int k = 0; k < N; ++k) for (int j = 0; j < QLV_D; ++j) r.s[k].t[j].v = f(s[k].t[j].v, o.s[k].t[j].v); return r; }
  SplitIndexTPS operator*(E x) const { return map([&](E a) { return a * x; }); }
  SplitIndexTPS operator*=(E x) { *this = map([&](E a) { return a * x; }); return *this; }
  SplitIndexTPS operator-() const { return map([&](E a) { return -a; }); }
  SplitIndexTPS operator+(const SplitIndexTPS &o) const { return zip(o, [](E a, E b) { return a + b; }); }
  SplitIndexTPS operator-(const SplitIndexTPS &o) const { return zip(o, [](E a, E b) { return a - b; }); }
  SplitIndexTPS &operator+=(const SplitIndexTPS &o) { *this = *this + o; return *this; }
  SplitIndexTPS &operator-=(const SplitIndexTPS &o) { *this = *this - o; return *this; }
  E operator*(const SplitIndexTPS &o) const { E r = 0; for (int k = 0; k < N; ++k) for (int j = 0; j < QLV_D; ++j) r += s[k].t[j].v * o.s[k].t[j].v; return r; }
  double NormSquare() const { if constexpr (N * QLV_D == 1) return qlv_uf_nsq(s[0].t[0].v); else return qlv_uf_nsq2(s[0].t[0].v, s[N - 1].t[QLV_D - 1].v); }
  SplitIndexTPS ElementWiseSquaredNorm() const { return map([](E a) { return qlv_uf_abs2(a); }); }
  SplitIndexTPS ElementWiseSqrt() const { return map([](E a) { return qlv_uf_root(a); }); }
  SplitIndexTPS ElementWiseInverse(double e) const { return map([&](E a) { return qlv_uf_inv(a, e); }); }
  void ElementWiseClipTo(double c) { *this = map([&](E a) { return qlv_uf_clipv(a, c); }); }
  void ClipByGlobalNorm(double c) {
    if constexpr (N * QLV_D == 1) s[0].t[0].v = qlv_uf_clipn(s[0].t[0].v, c);
    else { const double a = s[0].t[0].v, b = s[N - 1].t[QLV_D - 1].v; s[0].t[0].v = qlv_uf_clipn2(a, b, c, 0); s[N - 1].t[QLV_D - 1].v = qlv_uf_clipn2(a, b, c, 1); }
  }
  void ElementWiseSquaredNormInPlace() { *this = ElementWiseSquaredNorm(); }
  void ElementWiseSqrtInPlace() { *this = ElementWiseSqrt(); }
  void ElementWiseInverseInPlace(double e) { *this = ElementWiseInverse(e); }
  void Dump(const std::qlv_string &, bool = false);
  void Dump(const std::qlv_string &) const;
};
template <class E, class Q> inline SplitIndexTPS<E, Q> operator*(E x, const SplitIndexTPS<E, Q> &w) { return w * x; }
template <class E, class Q> inline SplitIndexTPS<E, Q> ElementWiseSquaredNorm(const SplitIndexTPS<E, Q> &w) { return w.ElementWiseSquaredNorm(); }
template <class E, class Q> inline SplitIndexTPS<E, Q> ElementWiseSqrt(const SplitIndexTPS<E, Q> &w) { return w.ElementWiseSqrt(); }
template <class E, class Q> inline SplitIndexTPS<E, Q> ElementWiseInverse(const SplitIndexTPS<E, Q> &w, double e) { return w.ElementWiseInverse(e); }
template <class E, class Q> inline SplitIndexTPS<E, Q> ElementWiseClipTo(const SplitIndexTPS<E, Q> &w, double c) { SplitIndexTPS<E, Q> r(w); r.ElementWiseClipTo(c); return r; }
template <class E, class Q> inline SplitIndexTPS<E, Q> ClipByGlobalNorm(const SplitIndexTPS<E, Q> &w, double c) { SplitIndexTPS<E, Q> r(w); r.ClipByGlobalNorm(c); return r; }
}  // namespace qlpeps
struct QN {};
typedef qlpeps::SplitIndexTPS<double, QN> W;
static inline W St(double a) { W w(QLV_R, QLV_C, QLV_D); w.s[0].t[0].v = a; return w; }
static inline W St(double a, double b) { W w(QLV_R, QLV_C, QLV_D); w.s[0].t[0].v = a; w.s[W::N - 1].t[QLV_D - 1].v = b; return w; }
static inline double V(const W &w) { return w.s[0].t[0].v; }
static inline double V2(const W &w) { return w.s[W::N - 1].t[QLV_D - 1].v; }
// ---- energy evaluations: call k returns (e[k], g[k], err[k]) and records the state it was given
#ifndef QLV_EVALS
#define QLV_EVALS 8
#endif
struct Evals { int n; double e[QLV_EVALS], g[QLV_EVALS], err[QLV_EVALS]; double at[QLV_EVALS]; int n_eo; double eo[QLV_EVALS], eoerr[QLV_EVALS], eoat[QLV_EVALS]; };
static Evals ev;
// ---- linear solvers
struct Solve { int n; double x, x2, resid; size_t iters, iters2; int reason; MPI_Comm mcomm; double rhs, guess, shift; const void *samples, *mean; size_t ranks; MPI_Comm comm; size_t max_iter; };
static Solve cg;
#define QLPEPS_VMC_PEPS_CONJUGATE_GRADIENT_SOLVER_H
#define QLPEPS_VMC_PEPS_STOCHASTIC_RECONFIGURATION_SMATRIX_H
#define QLPEPS_OPTIMIZER_MINSR_TMATRIX_H
#define QLPEPS_OPTIMIZER_MINSR_EIGENSOLVE_H
#define QLPEPS_UTILITY_FILESYSTEM_UTILS_H
#include "qlpeps/optimizer/optimizer_params.h"
namespace qlpeps {
enum class CGTerminationReason { kConverged, kMaxIterations, kIndefiniteMatrix, kNumericalBreakdown, kStagnated };
inline const char *qlv_to_string(CGTerminationReason) { return "r"; }
template <class T> struct CGResult { T x; double residual_norm; size_t iterations; CGTerminationReason reason; bool converged() const { return reason == CGTerminationReason::kConverged; } };
template <class E, class Q> struct SRSMatrix {
  typedef SplitIndexTPS<E, Q> S;
  std::qlv_vector<S> *samples; S *mean; size_t ranks; MPI_Comm comm; E diag_shift = 0.0;
  SRSMatrix(std::qlv_vector<S> *a, S *b, size_t n, MPI_Comm c) : samples(a), mean(b), ranks(n), comm(c) {}
};
template <class E, class Q> inline CGResult<SplitIndexTPS<E, Q>> ConjugateGradientSolver(const SRSMatrix<E, Q> &m, const SplitIndexTPS<E, Q> &b, const SplitIndexTPS<E, Q> &x0, const ConjugateGradientParams &p, const MPI_Comm &c) {
  ++cg.n; cg.rhs = V(b); cg.guess = V(x0); cg.shift = m.diag_shift; cg.samples = m.samples; cg.mean = m.mean; cg.ranks = m.ranks; cg.comm = c; cg.max_iter = p.max_iter;
  if (m.comm != c) qlv_bad_mpi_call();
  return {St(cg.n == 1 ? cg.x : cg.x2), cg.resid, cg.n == 1 ? cg.iters : cg.iters2, static_cast<CGTerminationReason>(cg.reason)};
}
#ifndef QLV_MINSR_MODEL
template <class E, class Q> struct MinSRTMatrix {
  void Construct(const std::qlv_vector<SplitIndexTPS<E, Q>> &, MPI_Comm);
  const E *RowBlockData() const; size_t LocalRows() const; size_t GlobalSize() const;
};
template <class E, class... A> std::qlv_vector<E> MinSREigenSolveDispatch(A &&...) { return std::qlv_vector<E>(); }
#endif
static inline bool EnsureDirectoryExists(const std::qlv_string &) { return true; }
static inline bool IsPathExist(const std::qlv_string &) { return true; }
static inline bool CreatePath(const std::qlv_string &) { return true; }
template <class E, class Q> inline void MPI_Bcast(SplitIndexTPS<E, Q> &, const MPI_Comm &c, int root = 0) { if (root != 0) qlv_bad_mpi_call(); QlvColl(6, c); }
template <class E, class Q> inline void MPI_Send(const SplitIndexTPS<E, Q> &, int, const MPI_Comm &, int = 0) {}
template <class E, class Q> inline MPI_Status MPI_Recv(SplitIndexTPS<E, Q> &, int, const MPI_Comm &, int = 0) { return MPI_Status(); }
}  // namespace qlpeps
#include "qlpeps/optimizer/optimizer.h"
#undef string
#undef vector
#undef deque
#undef function
#undef filesystem
using namespace qlpeps;
using namespace qlv;
typedef Optimizer<double, QN> Opt;
typedef std::tuple<double, W, double> Ev;
static inline Ev Evaluate(const W &w) { const int k = ev.n++; if (k >= QLV_EVALS) qlv_model_overflow(); ev.at[k] = V(w); return Ev(ev.e[k], St(ev.g[k]), ev.err[k]); }
static inline std::pair<double, double> EvaluateOnly(const W &w) { const int k = ev.n_eo++; if (k >= QLV_EVALS) qlv_model_overflow(); ev.eoat[k] = V(w); return {ev.eo[k], ev.eoerr[k]}; }
struct Full { Ev operator()(const W &w) const { return Evaluate(w); } };
struct Only { std::pair<double, double> operator()(const W &w) const { return EvaluateOnly(w); } };
static inline void StartRun(int rank = 0, int size = 1) { StartMpi(rank, size, (MPI_Comm)1); co.n = 0; co.sig = 0; co.n_abort = 0; co.n_barrier = 0; qlv_other_flags = 0; ev.n = 0; ev.n_eo = 0; cg.n = 0; }
static inline void Call(int k, double e, double g, double err) { ev.e[k] = e; ev.g[k] = g; ev.err[k] = err; }
// expected numbers may be NaN, in which case nothing is said
static inline bool Eq(double got, double want) { return got == want || want != want; }
