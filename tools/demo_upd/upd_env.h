// Functional stand-ins for the tensor network below the Monte-Carlo updaters: a tensor is (site, state), the amplitude a function of the configuration.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <random>
#include <iostream>
#include <limits>
#include <algorithm>
#include <functional>
#include <cassert>
#include <map>
#include <concepts>
#define QLPEPS_VMC_BASIC_CONFIGURATION_H
#define QLPEPS_OND_DIM_TN_BOUNDARY_MPS_BMPS_H
#define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_H
#define QLPEPS_TWO_DIM_TN_TENSOR_NETWORK_2D_BMPS_CONTRACTOR_H
#define QLPEPS_TWO_DIM_TN_TPS_TENSOR_NETWORK_2D_H
#define QLPEPS_TWO_DIM_TN_TENSOR_NETWORK_2D_TRG_CONTRACTOR_H
#define QLPEPS_ALGORITHM_VMC_UPDATE_MODEL_SOLVERS_SQUARE_HUBBARD_MODEL_H
#include "qlten/qlten.h"
#include "qlpeps/basic.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
#define CHECK(c) do { if (!(c)) { std::printf("FAILED %s:%d %s\n", __FILE__, __LINE__, #c); std::exit(1); } } while (0)
namespace qlten { template <class Q> struct Index { static constexpr bool IsFermionic() { return false; } }; }
struct Q0 {};
struct Tn { size_t s = 99; bool IsDefault() const { return s == 99; } int GetIndexes() const { return 0; } };
static std::function<double(const std::vector<size_t> &)> amplitude_of;
namespace qlpeps {
using qlten::Index;
struct Configuration {
  size_t R = 0, C = 0; std::vector<size_t> e;
  Configuration() {} Configuration(size_t r, size_t c) : R(r), C(c), e(r * c, 0) {}
  size_t rows() const { return R; } size_t cols() const { return C; }
  size_t &operator()(const SiteIdx &s) { return e.at(s.row() * C + s.col()); }
  const size_t &operator()(const SiteIdx &s) const { return e.at(s.row() * C + s.col()); }
  void Random(const std::vector<size_t> &) {}
};
using DensityConfig = Configuration;
template <class E, class Q> struct SplitIndexTPS { size_t dim = 2; size_t PhysicalDim() const { return dim; } struct P { Tn operator[](size_t s) const { return Tn{s}; } }; P operator()(const SiteIdx &) const { return P(); } };
template <class E, class Q> struct TensorNetwork2D {
  size_t R = 0, C = 0; std::vector<Tn> e;
  TensorNetwork2D() {} TensorNetwork2D(size_t r, size_t c) : R(r), C(c), e(r * c) {}
  TensorNetwork2D(const SplitIndexTPS<E, Q> &, const Configuration &f) : R(f.R), C(f.C), e(f.R * f.C) { for (size_t i = 0; i < e.size(); ++i) e[i].s = f.e[i]; }
  size_t rows() const { return R; } size_t cols() const { return C; }
  Tn &operator()(const SiteIdx &s) { return e.at(s.row() * C + s.col()); }
  const Tn &operator()(const SiteIdx &s) const { return e.at(s.row() * C + s.col()); }
  void UpdateSiteTensor(const SiteIdx &s, size_t k, const SplitIndexTPS<E, Q> &) { (*this)(s).s = k; }
  std::vector<size_t> States() const { std::vector<size_t> v; for (auto &t : e) v.push_back(t.s); return v; }
};
struct TruncPar { int tag = 0; };
template <class E, class Q> struct BMPSContractor {
  typedef Tn Tensor; typedef TruncPar TruncateParams; typedef TensorNetwork2D<E, Q> TN;
  size_t R, C; int phase = 0; size_t line = 0, pos = 0; std::map<size_t, int> erased; int trunc = -1, inits = 0;
  BMPSContractor(size_t r, size_t c) : R(r), C(c) {}
  void Init(const TN &) { ++inits; }
  void SetTruncateParams(const TruncPar &p) { trunc = p.tag; }
  void GenerateBMPSApproach(const TN &, BMPSPOSITION p) { phase = p == UP ? 1 : 2; line = 0; }
  void GrowBMPSForRow(const TN &, size_t r) { phase = 1; line = r; }
  void InitBTen(const TN &, BMPSPOSITION, size_t) { pos = 0; }
  void GrowFullBTen(const TN &, BMPSPOSITION, size_t, size_t, bool) {}
  void ShiftBTenWindow(const TN &, BMPSPOSITION) { ++pos; }
  void ShiftBMPSWindow(const TN &, BMPSPOSITION) { ++line; }
  void DeleteInnerBMPS(BMPSPOSITION) {}
  E Trace(const TN &t, const SiteIdx &, BondOrientation) { return amplitude_of(t.States()); }
  E With(const TN &t, std::vector<std::pair<SiteIdx, Tn>> v) const { auto s = t.States(); for (auto &x : v) s.at(x.first.row() * C + x.first.col()) = x.second.s; return amplitude_of(s); }
  E ReplaceNNSiteTrace(const TN &t, const SiteIdx &a, const SiteIdx &b, BondOrientation, const Tn &x, const Tn &y) { return With(t, {{a, x}, {b, y}}); }
  E ReplaceTNNSiteTrace(const TN &t, const SiteIdx &a, BondOrientation d, const Tn &x, const Tn &y, const Tn &z) { const size_t h = d == HORIZONTAL, v = !h; return With(t, {{a, x}, {SiteIdx{a.row() + v, a.col() + h}, y}, {SiteIdx{a.row() + 2 * v, a.col() + 2 * h}, z}}); }
  void EraseEnvsAfterUpdate(const SiteIdx &s) { erased[s.row() * C + s.col()]++; }
};
template <class E, class Q> struct TRGContractor {
  typedef Tn Tensor; typedef TruncPar TruncateParams; typedef TensorNetwork2D<E, Q> TN;
  struct Trial { E amplitude{}; std::vector<std::pair<SiteIdx, Tn>> repl; };
  size_t R, C; int commits = 0, inits = 0; TN cache;
  TRGContractor(size_t r, size_t c) : R(r), C(c) {}
  void Init(const TN &t) { ++inits; cache = t; } void SetTruncateParams(const TruncPar &) {}
  E Trace(const TN &t) { cache = t; return amplitude_of(t.States()); }
  Trial BeginTrialWithReplacement(const std::vector<std::pair<SiteIdx, Tn>> &v) const { auto s = cache.States(); for (auto &x : v) s.at(x.first.row() * C + x.first.col()) = x.second.s; Trial t; t.amplitude = amplitude_of(s); t.repl = v; return t; }
  void CommitTrial(Trial &&t) { ++commits; for (auto &x : t.repl) cache(x.first) = x.second; }
};
enum class HubbardSingleSiteState { DoubleOccupancy = 0, SpinUp = 1, SpinDown = 2, Empty = 3 };
}
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/square_3site_updater.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h"
using namespace qlpeps;
typedef SplitIndexTPS<double, Q0> ST;
typedef TPSWaveFunctionComponent<double, Q0> WF;
typedef TPSWaveFunctionComponent<double, Q0, NoDress, TRGContractor> WT;
