//@@ peel
#include "qlv.h"
#define QLV_VCAP 3
#include "qlv_vector.h"
#include <random>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <utility>
#include "qlv_algo.h"
// Randomness model: a draw returns an arbitrary number; the interval it was asked for is recorded.
struct Gen {
  typedef unsigned long result_type;
  long double x, lo, hi; unsigned draws;
  static constexpr unsigned long min() { return 0; }
  static constexpr unsigned long max() { return ~0ul; }
  unsigned long operator()() { ++draws; return 0; }
};
namespace std {
template <class T> struct qlv_urd {
  T a_, b_;
  explicit qlv_urd(T a = 0, T b = 1) : a_(a), b_(b) {}
  T a() const { return a_; } T b() const { return b_; }
  struct param_type { T a_, b_; explicit param_type(T a = 0, T b = 1) : a_(a), b_(b) {} };
  T operator()(Gen &g) { ++g.draws; g.lo = a_; g.hi = b_; return (T)g.x; }
  T operator()(Gen &g, const param_type &p) { ++g.draws; g.lo = p.a_; g.hi = p.b_; return (T)g.x; }
};
}  // namespace std
#define uniform_real_distribution qlv_urd
#define vector qlv_vector
#include "qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h"
#undef vector
using namespace qlpeps;
using namespace qlv;
//@ st_*: include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h :: SuwaTodoStateUpdate -- ring construction of Suwa and Todo: sampling interval of the current state, unique target interval of the drawn point
typedef std::qlv_vector<double> VD;
typedef long double L;
static inline bool EqL(L a, L b) { return a == b || (a != a && b != b); }
// N states, K = index of the (first) largest weight, I = current state, the drawn point lies in the interval of ring position J
template <int N, int K, int I, bool OLD, int J, bool WRAP> static inline void Ring_(const double *w, L x) {
  VD v; for (int i = 0; i < N; ++i) v.push_back(w[i]);
  Gen g{x, -1, -1, 0};
  int at[N];                             // ring position -> state: the largest weight changes places with state 0
  for (int i = 0; i < N; ++i) at[i] = i == 0 ? K : i == K ? 0 : i;
  int pos = 0; for (int i = 0; i < N; ++i) if (at[i] == I) pos = i;
  L s[N]; s[0] = (L)w[at[0]]; for (int i = 1; i < N; ++i) s[i] = s[i - 1] + (L)w[at[i]];
  const L S = s[N - 1];
  L start = (pos == 0 ? (L)0 : s[pos - 1]) + (L)w[K];
  if (start >= S) start -= S;
  ASSUME((x >= S) == WRAP);
  const L y = WRAP ? x - S : x;          // the point on the ring
  for (int i = 0; i < J; ++i) ASSUME(!(y < s[i]));
  ASSUME(y < s[J]);
  const size_t r = OLD ? NonDBMCMCStateUpdate((size_t)I, v, g) : SuwaTodoStateUpdate((size_t)I, v, g);
  REQF(st_ring, one_draw, g.draws == 1);
  REQF(st_ring, from, EqL(g.lo, start));
  REQF(st_ring, upto, EqL(g.hi, std::nextafter(start + (L)w[I], start)));
  REQF(st_ring, target, r == (size_t)at[J]);
  for (int i = 0; i < N; ++i) REQF(st_ring, input_kept, Same(v[i], w[i]));
}
template <int N, int K, int I, bool OLD, int J> static inline void RingJ(const double *w, L x, bool wrap) { if (wrap) Ring_<N, K, I, OLD, J, true>(w, x); else Ring_<N, K, I, OLD, J, false>(w, x); }
template <int N, int K, int I, bool OLD> static inline void Ring(const double *w, L x, int j, bool wrap) {
  if (j == 0) RingJ<N, K, I, OLD, 0>(w, x, wrap);
  if constexpr (N > 1) if (j == 1) RingJ<N, K, I, OLD, 1>(w, x, wrap);
  if constexpr (N > 2) if (j == 2) RingJ<N, K, I, OLD, 2>(w, x, wrap);
}
template <int I> static inline void R1(double a, L x, int j, bool q) { ASSUME(a > 0); const double w[1] = {a}; Ring<1, 0, I, false>(w, x, j, q); }
template <int K, int I, bool OLD = false> static inline void R2(double a, double b, L x, int j, bool q) {
  ASSUME((a < b) == (K == 1)); const double w[2] = {a, b}; Ring<2, K, I, OLD>(w, x, j, q);
}
// F: whether the second weight exceeds the first (decides against whom the third one is compared)
template <int K, int F, int I> static inline void R3(double a, double b, double c, L x, int j, bool q) {
  ASSUME((a < b) == (F == 1));
  if (F == 1) { ASSUME((b < c) == (K == 2)); } else { ASSUME((a < c) == (K == 2)); }
  const double w[3] = {a, b, c};
  Ring<3, K, I, false>(w, x, j, q);
}
OB(st_ring_1, double a, L x, int j, bool q) { R1<0>(a, x, j, q); }
OB(st_ring_2a, double a, double b, L x, int j, bool q) { R2<0, 0>(a, b, x, j, q); }
OB(st_ring_2b, double a, double b, L x, int j, bool q) { R2<0, 1>(a, b, x, j, q); }
OB(st_ring_2c, double a, double b, L x, int j, bool q) { R2<1, 0>(a, b, x, j, q); }
OB(st_ring_2d, double a, double b, L x, int j, bool q) { R2<1, 1>(a, b, x, j, q); }
OB(st_ring_2e, double a, double b, L x, int j, bool q) { R2<1, 1, true>(a, b, x, j, q); }
#define R3J(nm, K, F, I, J) \
  OB(st_ring_3##nm##I##J##n, double a, double b, double c, L x) { R3<K, F, I>(a, b, c, x, J, false); } \
  OB(st_ring_3##nm##I##J##w, double a, double b, double c, L x) { R3<K, F, I>(a, b, c, x, J, true); }
#define R3I(nm, K, F) R3J(nm, K, F, 0, 0) R3J(nm, K, F, 0, 1) R3J(nm, K, F, 0, 2) R3J(nm, K, F, 1, 0) R3J(nm, K, F, 1, 1) R3J(nm, K, F, 1, 2) \
  R3J(nm, K, F, 2, 0) R3J(nm, K, F, 2, 1) R3J(nm, K, F, 2, 2)
R3I(a, 0, 0) R3I(b, 1, 1) R3I(c, 2, 0) R3I(d, 2, 1)
