// Environment of the Monte-Carlo updaters: the real updaters and the real wave-function component on a model lattice.
// Amplitudes are uninterpreted functions of the projected tensors asked for; the contractor checks that its window is where
// the trace is asked; a draw is an arbitrary number of the interval; the Suwa-Todo rule (decided by C15) returns an arbitrary state.
#ifndef QLV_VCAP
#define QLV_VCAP 6
#endif
#include "qlv.h"
#include "qlv_vector.h"
#include "qlv_null.h"
#include "qlten/qlten.h"
#include <random>
#include <chrono>
#include <fstream>
#include <variant>
#include <limits>
#include <type_traits>
#define QLV_ALGO_FIND
#include "qlv_algo.h"
extern "C" {
double qlv_uf_amp1(size_t, size_t, size_t, int) noexcept __attribute__((const));
double qlv_uf_amp2(size_t, size_t, size_t, size_t, size_t, size_t, int) noexcept __attribute__((const));
double qlv_uf_amp3(size_t, size_t, size_t, size_t, size_t, size_t, int) noexcept __attribute__((const));
double qlv_uf_amp(size_t) noexcept __attribute__((const));
void qlv_bad_window() noexcept __attribute__((noreturn));
}
struct Rn { int reals; double u[4]; int ints; size_t v[80]; size_t lo[80], hi[80]; bool range_ok, by_range; };
static Rn rn;
static inline void StartRn() { rn.reals = 0; rn.ints = 0; rn.range_ok = true; rn.by_range = false; }
namespace std {
struct qlv_engine { typedef unsigned long result_type; qlv_engine(unsigned long = 0) {} static constexpr unsigned long min() { return 0; } static constexpr unsigned long max() { return ~0ul; } unsigned long operator()() { return 0; } };
struct qlv_rd { unsigned operator()() { return 0; } };
template <class T = double> struct qlv_urd {
  T a_, b_; qlv_urd(T a = 0, T b = 1) : a_(a), b_(b) {}
  T operator()(qlv_engine &) { if (!(a_ == 0) || !(b_ == 1)) rn.range_ok = false; const int k = rn.reals++; return rn.u[k & 3]; }
};
template <class T = int> struct qlv_uid {
  T a_, b_; qlv_uid(T a, T b) : a_(a), b_(b) {}
  T operator()(qlv_engine &) { if (rn.ints >= 80) qlv_model_overflow(); const int k = rn.ints++; rn.lo[k] = a_; rn.hi[k] = b_; const T x = rn.by_range ? rn.v[b_ < 80 ? b_ : 0] : rn.v[k]; return x >= a_ && x <= b_ ? x : a_; }
};
}
#define random_device qlv_rd
#define mt19937 qlv_engine
#define uniform_real_distribution qlv_urd
#define uniform_int_distribution qlv_uid
#define QLPEPS_VMC_BASIC_CONFIGURATION_H
#define QLPEPS_OND_DIM_TN_BOUNDARY_MPS_BMPS_H
#define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_H
#define QLPEPS_TWO_DIM_TN_TENSOR_NETWORK_2D_BMPS_CONTRACTOR_H
#define QLPEPS_TWO_DIM_TN_TPS_TENSOR_NETWORK_2D_H
#define QLPEPS_TWO_DIM_TN_TENSOR_NETWORK_2D_TRG_CONTRACTOR_H
#define QLPEPS_MONTE_CARLO_TOOLS_SUWA_TODO_UPDATE_H
#define QLPEPS_ALGORITHM_VMC_UPDATE_MODEL_SOLVERS_SQUARE_HUBBARD_MODEL_H
#define vector qlv_vector
#include "qlpeps/basic.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#ifndef QLV_R
#define QLV_R 3
#endif
#ifndef QLV_C
#define QLV_C 3
#endif
namespace qlten { template <class Q> struct Index { static constexpr bool IsFermionic() { return false; } }; }
struct QN_ {};
struct Tn { size_t r = 0, c = 0, s = 99; Tn() {} Tn(size_t a, size_t b, size_t d) : r(a), c(b), s(d) {} bool IsDefault() const { return s == 99; } int GetIndexes() const { return 0; } };
struct Su { int n; size_t init, result; double w[QLV_VCAP]; size_t nw; bool keep; bool log; };     // Suwa-Todo
static Su su;
namespace qlpeps {
using qlten::Index;
struct Configuration {
  size_t R_ = 0, C_ = 0, e_[QLV_R * QLV_C] = {};
  Configuration() {}
  Configuration(size_t r, size_t c) : R_(r), C_(c) {}
  size_t rows() const { return R_; } size_t cols() const { return C_; }
  size_t &operator()(const SiteIdx &s) { if (s.row() >= R_ || s.col() >= C_) qlv_out_of_bounds(); return e_[s.row() * QLV_C + s.col()]; }
  const size_t &operator()(const SiteIdx &s) const { if (s.row() >= R_ || s.col() >= C_) qlv_out_of_bounds(); return e_[s.row() * QLV_C + s.col()]; }
  void Random(const std::vector<size_t> &) { e_[0] = 1; }
};
using DensityConfig = Configuration;
template <class E, class Q> struct SplitIndexTPS {
  struct P { size_t r, c, d; Tn operator[](size_t s) const { if (s >= d) qlv_out_of_bounds(); return Tn(r, c, s); } };
  size_t dim = 2;
  size_t PhysicalDim() const { return dim; }
  P operator()(const SiteIdx &s) const { return P{s.row(), s.col(), dim}; }
};
template <class E, class Q> struct TensorNetwork2D {
  size_t R_ = 0, C_ = 0; Tn e_[QLV_R * QLV_C];
  TensorNetwork2D() {}
  TensorNetwork2D(size_t r, size_t c) : R_(r), C_(c) {}
  TensorNetwork2D(const SplitIndexTPS<E, Q> &, const Configuration &f) : R_(f.rows()), C_(f.cols()) { for (size_t i = 0; i < QLV_R; ++i) for (size_t j = 0; j < QLV_C; ++j) if (i < R_ && j < C_) e_[i * QLV_C + j] = Tn(i, j, f({i, j})); }
  size_t rows() const { return R_; } size_t cols() const { return C_; }
  Tn &operator()(const SiteIdx &s) { if (s.row() >= R_ || s.col() >= C_) qlv_out_of_bounds(); return e_[s.row() * QLV_C + s.col()]; }
  const Tn &operator()(const SiteIdx &s) const { if (s.row() >= R_ || s.col() >= C_) qlv_out_of_bounds(); return e_[s.row() * QLV_C + s.col()]; }
  size_t Key() const { size_t k = 0; for (size_t i = 0; i < QLV_R * QLV_C; ++i) k = k * 8 + e_[i].s % 8; return k; }
  void UpdateSiteTensor(const SiteIdx &s, size_t k, const SplitIndexTPS<E, Q> &t) { (*this)(s) = t(s)[k]; }
};
struct BMPSTruncateParamsModel { int tag = 0; };
template <class E, class Q> struct BMPSContractor {
  typedef Tn Tensor; typedef BMPSTruncateParamsModel TruncateParams;
  size_t R_, C_; int trunc = -1, inits = 0, calls = 0; int phase = 0; size_t line = 0, pos = 0, width = 0; bool left = false, right = false; int erased[QLV_R * QLV_C] = {}; bool trial = false; bool check = false; int cleaned = 0;
  BMPSContractor(size_t r, size_t c) : R_(r), C_(c) {}
  typedef TensorNetwork2D<E, Q> TN;
  void Init(const TN &t) { ++inits; phase = 0; left = right = false; if (t({0, 0}).IsDefault()) qlv_bad_window(); }
  void SetTruncateParams(const TruncateParams &p) { trunc = p.tag; }
  void GenerateBMPSApproach(const TN &, BMPSPOSITION p) { phase = p == UP ? 1 : p == LEFT ? 2 : 0; line = 0; left = right = false; }
  void GrowBMPSForRow(const TN &, size_t r) { phase = 1; line = r; left = right = false; }
  void InitBTen(const TN &, BMPSPOSITION p, size_t k) { if (k != line || p != (phase == 1 ? LEFT : UP)) qlv_bad_window(); left = true; pos = 0; }
  void GrowFullBTen(const TN &, BMPSPOSITION p, size_t k, size_t remain, bool) { if (k != line || p != (phase == 1 ? RIGHT : DOWN)) qlv_bad_window(); right = true; width = remain; }
  void ShiftBTenWindow(const TN &, BMPSPOSITION p) { if (!left || !right || p != (phase == 1 ? RIGHT : DOWN)) qlv_bad_window(); ++pos; }
  void ShiftBMPSWindow(const TN &, BMPSPOSITION p) { if (p != (phase == 1 ? DOWN : RIGHT)) qlv_bad_window(); ++line; left = right = false; }
  void DeleteInnerBMPS(BMPSPOSITION) { ++cleaned; }
  bool At(const SiteIdx &a, const SiteIdx &b, BondOrientation d, size_t w) const {
    return left && right && width == w && (d == HORIZONTAL ? phase == 1 && a.row() == line && a.col() == pos && b.row() == line && b.col() == pos + w - 1 : phase == 2 && a.col() == line && a.row() == pos && b.col() == line && b.row() == pos + w - 1);
  }
  E Trace(const TN &t, const SiteIdx &s, BondOrientation d) { if (!left || !right || phase != 1 || line != s.row() || pos != s.col() || d != HORIZONTAL) qlv_bad_window(); ++calls; return qlv_uf_amp(t.Key()); }
  E ReplaceNNSiteTrace(const TN &, const SiteIdx &a, const SiteIdx &b, BondOrientation d, const Tn &x, const Tn &y) {
    ++calls; if (check && !At(a, b, d, 2)) qlv_bad_window();
    if (x.r != a.row() || x.c != a.col() || y.r != b.row() || y.c != b.col()) qlv_bad_window();
    return qlv_uf_amp2(a.row(), a.col(), x.s, b.row(), b.col(), y.s, (int)d);
  }
  E ReplaceTNNSiteTrace(const TN &, const SiteIdx &a, BondOrientation d, const Tn &x, const Tn &y, const Tn &z) {
    ++calls; const bool h = d == HORIZONTAL; if (check && !At(a, h ? SiteIdx{a.row(), a.col() + 2} : SiteIdx{a.row() + 2, a.col()}, d, 3)) qlv_bad_window();
    if (x.r != a.row() || x.c != a.col() || y.r != a.row() + !h || y.c != a.col() + h || z.r != a.row() + 2 * !h || z.c != a.col() + 2 * h) qlv_bad_window();
    return qlv_uf_amp3(a.row(), a.col(), x.s, y.s, z.s, 0, (int)d);
  }
  void EraseEnvsAfterUpdate(const SiteIdx &s) { erased[s.row() * QLV_C + s.col()]++; }
};
template <class E, class Q> struct TRGContractor {
  typedef Tn Tensor; typedef BMPSTruncateParamsModel TruncateParams;
  struct Trial { E amplitude{}; int id = 0; };
  size_t R_, C_; int trunc = -1, inits = 0, begun = 0, commits = 0, committed = 0, calls = 0;
  TRGContractor(size_t r, size_t c) : R_(r), C_(c) {}
  typedef TensorNetwork2D<E, Q> TN;
  void Init(const TN &) { ++inits; }
  void SetTruncateParams(const TruncateParams &p) { trunc = p.tag; }
  E Trace(const TN &t) { ++calls; return qlv_uf_amp(t.Key()); }
  Trial BeginTrialWithReplacement(const std::vector<std::pair<SiteIdx, Tn>> &v) const {
    Trial t; if (v.size() != 2) qlv_bad_window();
    const auto &a = v[0].first, &b = v[1].first; const Tn &x = v[0].second, &y = v[1].second; if (x.r != a.row() || x.c != a.col() || y.r != b.row() || y.c != b.col()) qlv_bad_window();
    t.amplitude = qlv_uf_amp2(a.row(), a.col(), x.s, b.row(), b.col(), y.s, 7); t.id = (int)(1 + x.s * 4 + y.s); return t;
  }
  void CommitTrial(Trial &&t) { ++commits; committed = t.id; }
};
template <class R> size_t SuwaTodoStateUpdate(size_t init, const std::vector<double> &w, R &) {
  ++su.n; su.init = init; su.nw = w.size(); if (init >= w.size()) qlv_out_of_bounds(); if (su.log) for (size_t k = 0; k < QLV_VCAP; ++k) if (k < w.size()) su.w[k] = w[k];
  return su.keep ? init : (su.result < w.size() ? su.result : init);
}
}
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/square_3site_updater.h"
namespace qlpeps { enum class HubbardSingleSiteState { DoubleOccupancy = 0, SpinUp = 1, SpinDown = 2, Empty = 3 }; }
#include "qlpeps/vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h"
#undef vector
using namespace qlpeps; using qlv::Same;
static inline bool Eq(double got, double want) { return got == want || want != want; }
typedef SplitIndexTPS<double, QN_> ST;
typedef TPSWaveFunctionComponent<double, QN_> WF;
typedef TPSWaveFunctionComponent<double, QN_, NoDress, TRGContractor> WT;
