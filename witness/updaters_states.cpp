//@@ flat
#include "updaters_common.h"
//@ fs_*: include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h :: MCUpdateSquareNNFullSpaceUpdateOBC/PBC -- every pair of states is offered, with weight |psi'/psi|^2, and the state drawn is the one adopted
//@ ts_*: include/qlpeps/vmc_basic/configuration_update_strategies/square_3site_updater.h :: MCUpdateSquareTNN3SiteExchange -- every distinct permutation is offered once, with weights in the ratio of |psi|^2, and the one drawn is adopted
//@ hu_*: include/qlpeps/vmc_basic/configuration_update_strategies/square_hubbard_u1u1_updater.h :: MCUpdateSquareNNHubbardU1U1OBC -- exactly the pairs with the same numbers of up and of down electrons are offered
#define SITES const SiteIdx A{1, 0}, B = vert ? SiteIdx{2, 0} : SiteIdx{1, 1}; const BondOrientation D = vert ? VERTICAL : HORIZONTAL
#define ER(i) w.contractor.erased[i]
// Offered states are told apart by drawing each in turn: SuwaTodo draws k, the configuration adopted is state k.
// got[k]: the pair adopted when state k is drawn
#define PAIRS(nm, T, M, DIM, KIND, NSTATES, INSET, BEGIN, ENVS) \
  size_t seen = 0; bool ok = true, wt = true, amp = true, rest = true, tens = true; size_t cnt = 0; \
  [&]<size_t... K>(std::index_sequence<K...>) { ((void)[&]() { \
    su.n = 0; su.keep = false; su.log = true; su.result = K; \
    ST ps; ps.dim = DIM; Configuration f(3, 3); f(A) = S; f(B) = T2; T w(3, 3, BMPSTruncateParamsModel()); w.config = f; w.tn = TensorNetwork2D<double, QN_>(ps, f); w.amplitude = a; \
    M m(1u); const bool r = m.TwoSiteNNUpdateLocalImpl(A, B, D, ps, w); \
    if (NSTATES == 1) { if (r || !(w.config(A) == S && w.config(B) == T2) || !Same(w.amplitude, a)) ok = false; return; } \
    if (su.n != 1 || su.nw != NSTATES) ok = false; \
    const size_t x = w.config(A), y = w.config(B); \
    if (x >= DIM || y >= DIM || !(INSET)) ok = false; \
    if (seen >> (x * DIM + y) & 1) ok = false; seen |= size_t(1) << (x * DIM + y); ++cnt; \
    const bool stay = su.init == K; if (stay != !r || stay != (x == S && y == T2)) ok = false; \
    const double b = stay ? a : qlv_uf_amp2(A.row(), A.col(), x, B.row(), B.col(), y, KIND); \
    if (!Same(w.amplitude, b)) amp = false; \
    if (!Eq(su.w[K] * (a * a), su.w[su.init] * (b * b))) wt = false; \
    if (w.tn(A).s != x || w.tn(B).s != y) tens = false; \
    if (w.config({0, 0}) || w.config({0, 1}) || w.config({0, 2}) || w.config({1, 2}) || w.config({2, 1}) || w.config({2, 2}) || w.config(vert ? SiteIdx{1, 1} : SiteIdx{2, 0})) rest = false; \
    ENVS; \
  }(), ...); }(std::make_index_sequence<NSTATES>()); \
  REQF(nm, states, ok && (NSTATES == 1 || cnt == NSTATES)); REQF(nm, amplitude, amp); REQF(nm, weights, wt); REQF(nm, tensors, tens); REQF(nm, others, rest)
#define OENV if (stay ? ER(3) + ER(4) + ER(6) != 0 : !((x == S || ER(3) >= 1) && (y == T2 || ER(vert ? 6 : 4) >= 1))) tens = false
#define PENV if (stay ? w.contractor.commits != 0 : !(w.contractor.commits == 1 && w.contractor.committed == (int)(1 + x * 4 + y))) tens = false
#define FS(S_, T_) \
  OB(fs_o##S_##T_, bool vert, double a) { SPLIT(0, vert); SITES; constexpr size_t S = S_, T2 = T_; PAIRS(fs_o##S_##T_, WF, MCUpdateSquareNNFullSpaceUpdateOBC, 2, (int)D, 4, true, , OENV); } \
  OB(fs_p##S_##T_, bool vert, double a) { SPLIT(0, vert); SITES; constexpr size_t S = S_, T2 = T_; PAIRS(fs_p##S_##T_, WT, MCUpdateSquareNNFullSpaceUpdatePBC, 2, 7, 4, true, , PENV); }
FS(0, 0) FS(0, 1) FS(1, 0) FS(1, 1)
constexpr int Up(size_t s) { return s == 0 || s == 1; }
constexpr int Dn(size_t s) { return s == 0 || s == 2; }
constexpr size_t NP(size_t s, size_t t) { size_t n = 0; for (size_t x = 0; x < 4; ++x) for (size_t y = 0; y < 4; ++y) if (Up(x) + Up(y) == Up(s) + Up(t) && Dn(x) + Dn(y) == Dn(s) + Dn(t)) ++n; return n; }
#define HU(S_, T_) OB(hu_##S_##T_, bool vert, double a) { SPLIT(0, vert); SITES; constexpr size_t S = S_, T2 = T_; constexpr size_t NS = NP(S, T2); PAIRS(hu_##S_##T_, WF, MCUpdateSquareNNHubbardU1U1OBC, 4, (int)D, NS, Up(x) + Up(y) == Up(S) + Up(T2) && Dn(x) + Dn(y) == Dn(S) + Dn(T2), , OENV); }
HU(0, 0) HU(0, 1) HU(0, 2) HU(0, 3) HU(1, 0) HU(1, 1) HU(1, 2) HU(1, 3) HU(2, 0) HU(2, 1) HU(2, 2) HU(2, 3) HU(3, 0) HU(3, 1) HU(3, 2) HU(3, 3)
// three sites: td_* every distinct permutation is adopted for exactly one of the states offered; ts_* for each state: amplitude, weight, tensors
//@ td_*: include/qlpeps/vmc_basic/configuration_update_strategies/square_3site_updater.h :: MCUpdateSquareTNN3SiteExchange -- every distinct permutation is adopted for exactly one of the states offered
#define TSITES const SiteIdx A{0, 0}, B = vert ? SiteIdx{1, 0} : SiteIdx{0, 1}, C = vert ? SiteIdx{2, 0} : SiteIdx{0, 2}; const BondOrientation D = vert ? VERTICAL : HORIZONTAL
#define TRUN(S_, T_, V_, k) su.n = 0; su.keep = false; su.result = k; \
    ST ps; ps.dim = 3; Configuration f(3, 3); f(A) = S_; f(B) = T_; f(C) = V_; WF w(3, 3, BMPSTruncateParamsModel()); w.config = f; w.tn = TensorNetwork2D<double, QN_>(ps, f); w.amplitude = a; \
    MCUpdateSquareTNN3SiteExchange m; const bool r = m.TNN3SiteUpdateImpl(A, B, C, D, ps, w); \
    const size_t x = w.config(A), y = w.config(B), z = w.config(C)
#define TD(S_, T_, V_, N_, VERT) OB(td_##S_##T_##V_, double a) { constexpr bool vert = VERT; TSITES; \
  size_t seen = 0, cnt = 0; bool ok = true; su.log = false; \
  [&]<size_t... K>(std::index_sequence<K...>) { ((void)[&]() { \
    TRUN(S_, T_, V_, K); \
    if (N_ == 1) { if (r || x != S_ || y != T_ || z != V_ || !Same(w.amplitude, a)) ok = false; return; } \
    if (su.n != 1 || su.nw != N_) ok = false; \
    if (x >= 3 || y >= 3 || z >= 3 || (1 << 2 * x) + (1 << 2 * y) + (1 << 2 * z) != (1 << 2 * S_) + (1 << 2 * T_) + (1 << 2 * V_)) ok = false; \
    if (seen >> (x * 9 + y * 3 + z) & 1) ok = false; seen |= size_t(1) << (x * 9 + y * 3 + z); ++cnt; \
    const bool stay = su.init == K; if (stay != !r || stay != (x == S_ && y == T_ && z == V_)) ok = false; \
  }(), ...); }(std::make_index_sequence<N_>()); \
  REQF(td_##S_##T_##V_, states, ok && (N_ == 1 || cnt == N_)); }
TD(0, 0, 0, 1, false) TD(2, 2, 2, 1, true) TD(0, 0, 1, 3, true) TD(0, 1, 0, 3, false) TD(1, 0, 0, 3, true) TD(1, 2, 2, 3, false) TD(2, 1, 2, 3, true) TD(2, 2, 1, 3, false) TD(0, 1, 2, 6, false) TD(1, 0, 2, 6, true) TD(2, 1, 0, 6, false) TD(1, 2, 0, 6, true) TD(2, 0, 1, 6, false) TD(0, 2, 1, 6, true)
#define TS(S_, T_, V_, k) OB(ts_##S_##T_##V_##_##k, bool vert, double a) { SPLIT(0, vert); TSITES; su.log = true; TRUN(S_, T_, V_, k); \
    const bool stay = su.init == k; const double b = stay ? a : qlv_uf_amp3(A.row(), A.col(), x, y, z, 0, (int)D); \
    REQF(ts_##S_##T_##V_##_##k, amplitude, Same(w.amplitude, b)); \
    REQF(ts_##S_##T_##V_##_##k, weights, Eq(su.w[k] * (a * a), su.w[su.init] * (b * b))); \
    REQF(ts_##S_##T_##V_##_##k, tensors, w.tn(A).s == x && w.tn(B).s == y && w.tn(C).s == z); \
    REQF(ts_##S_##T_##V_##_##k, envs, stay ? ER(0) + ER(1) + ER(2) + ER(3) + ER(6) == 0 : (x == S_ || ER(0)) && (y == T_ || ER(vert ? 3 : 1)) && (z == V_ || ER(vert ? 6 : 2))); \
    REQF(ts_##S_##T_##V_##_##k, others, !(w.config({1, 1}) || w.config({1, 2}) || w.config({2, 1}) || w.config({2, 2}) || w.config(vert ? SiteIdx{0, 1} : SiteIdx{1, 0}) || w.config(vert ? SiteIdx{0, 2} : SiteIdx{2, 0}))); }
TS(0, 0, 1, 0) TS(0, 0, 1, 1) TS(0, 0, 1, 2) TS(2, 1, 2, 0) TS(2, 1, 2, 1) TS(2, 1, 2, 2) TS(1, 0, 2, 0) TS(1, 0, 2, 1) TS(1, 0, 2, 2) TS(1, 0, 2, 3) TS(1, 0, 2, 4) TS(1, 0, 2, 5)
