//@@ flat
#define QLV_R 4
#define QLV_C 4
#include "updaters_common.h"
//@ sw_*: include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h :: MCUpdateSquareNNUpdateBaseOBC/PBC::operator() -- one sweep visits every nearest-neighbour bond exactly once with the environments at that bond; acceptance rate = accepted / attempted
//@ sp_*: include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h :: MCUpdateSquareNNUpdateBasePBC::operator() -- as many random bonds as the lattice has, every bond equally likely
//@ s3_*: include/qlpeps/vmc_basic/configuration_update_strategies/square_3site_updater.h :: MCUpdateSquareTNN3SiteUpdateBase::operator() -- one sweep visits every straight triple exactly once, environments at that triple
struct Log { size_t n, acc; unsigned long h, v, take; bool ok, trunc, amp; };
static Log lg;
static inline void StartLog(unsigned long take) { lg.n = lg.acc = 0; lg.h = lg.v = 0; lg.take = take; lg.ok = lg.trunc = lg.amp = true; }
static inline bool Visit(const SiteIdx &a, const SiteIdx &b, BondOrientation d, size_t R, size_t C, size_t reach, bool wrap) {
  const bool h = d == HORIZONTAL; const size_t r = a.row(), c = a.col();
  if (r >= R || c >= C) { lg.ok = false; return false; }
  const size_t er = h ? r : (wrap ? (r + reach == R ? 0 : r + reach) : r + reach), ec = h ? (wrap ? (c + reach == C ? 0 : c + reach) : c + reach) : c;
  if (b.row() != er || b.col() != ec || b.row() >= R || b.col() >= C) lg.ok = false;
  unsigned long &m = h ? lg.h : lg.v; const unsigned long bit = 1ul << (r * QLV_C + c);
  if (!wrap && (m & bit)) lg.ok = false; m |= bit;
  const bool t = lg.take >> lg.n & 1; ++lg.n; lg.acc += t; return t;
}
struct Nn : MCUpdateSquareNNUpdateBaseOBC<Nn> {
  template <class S, class W> bool TwoSiteNNUpdateLocalImpl(const SiteIdx &a, const SiteIdx &b, BondOrientation d, const S &, W &w) {
    if (!w.contractor.At(a, b, d, 2)) lg.ok = false; if (w.contractor.trunc != 5) lg.trunc = false; return Visit(a, b, d, w.tn.rows(), w.tn.cols(), 1, false);
  }
};
struct Np : MCUpdateSquareNNUpdateBasePBC<Np> {
  template <class S, class W> bool TwoSiteNNUpdateLocalImpl(const SiteIdx &a, const SiteIdx &b, BondOrientation d, const S &, W &w) { return Visit(a, b, d, w.tn.rows(), w.tn.cols(), 1, true); }
};
struct N3 : MCUpdateSquareTNN3SiteUpdateBase<N3> {
  template <class S, class W> bool TNN3SiteUpdateImpl(const SiteIdx &a, const SiteIdx &b, const SiteIdx &c, BondOrientation d, const S &, W &w) {
    if (!w.contractor.At(a, c, d, 3)) lg.ok = false; if (w.contractor.trunc != 5) lg.trunc = false;
    const bool h = d == HORIZONTAL; if (b.row() != a.row() + !h || b.col() != a.col() + h) lg.ok = false;
    return Visit(a, c, d, w.tn.rows(), w.tn.cols(), 2, false);
  }
};
constexpr unsigned long Hm(size_t R, size_t C, size_t reach) { unsigned long m = 0; for (size_t r = 0; r < R; ++r) for (size_t c = 0; c + reach < C; ++c) m |= 1ul << (r * QLV_C + c); return m; }
constexpr unsigned long Vm(size_t R, size_t C, size_t reach) { unsigned long m = 0; for (size_t r = 0; r + reach < R; ++r) for (size_t c = 0; c < C; ++c) m |= 1ul << (r * QLV_C + c); return m; }
#define COMP(T, R, C) BMPSTruncateParamsModel tp; tp.tag = 5; ST ps; Configuration f(R, C); T w(R, C, tp); w.config = f; w.tn = TensorNetwork2D<double, QN_>(ps, f); std::qlv_vector<double> rate
#define SW(R, C) OB(sw_##R##C, unsigned long take) { COMP(WF, R, C); w.contractor.check = true; StartLog(take); Nn m; m(ps, w, rate); \
  constexpr size_t n = R * (C - 1) + (R - 1) * C; REQF(sw_##R##C, bonds, lg.ok && lg.h == Hm(R, C, 1) && lg.v == Vm(R, C, 1) && lg.n == n); REQF(sw_##R##C, truncation, lg.trunc); REQF(sw_##R##C, rate, rate.size() == 1 && rate[0] == double(lg.acc) / double(n)); }
SW(2, 2) SW(2, 3) SW(3, 2) SW(3, 3) SW(4, 4) SW(2, 4) SW(4, 2)
#define S3(R, C) OB(s3_##R##C, unsigned long take) { COMP(WF, R, C); w.contractor.check = true; StartLog(take); N3 m; m(ps, w, rate); \
  constexpr size_t n = R * (C - 2) + (R - 2) * C; REQF(s3_##R##C, triples, lg.ok && lg.h == Hm(R, C, 2) && lg.v == Vm(R, C, 2) && lg.n == n); REQF(s3_##R##C, truncation, lg.trunc); REQF(s3_##R##C, rate, rate.size() == 1 && rate[0] == double(lg.acc) / double(n)); }
S3(3, 3) S3(3, 4) S3(4, 3) S3(4, 4)
// periodic: 2*R*C random bonds; each draw of row, column and direction spans exactly its range; the partner wraps
// (a draw is told from the others by its range, so the order of the three draws does not matter)
#define SP(R, C, x, y) OB(sp_##x##y, unsigned long take, size_t z) { SPLIT(0, z == 0); ASSUME(z < 2); COMP(WT, R, C); StartLog(take); StartRn(); rn.by_range = true; rn.v[R - 1] = x; rn.v[C - 1] = y; rn.v[1] = z; \
  Np m; m(ps, w, rate); bool rg = rn.ints == 6 * R * C && rn.range_ok; for (size_t k = 0; k < 2 * R * C; ++k) if (rn.lo[3 * k] != 0 || rn.lo[3 * k + 1] != 0 || rn.lo[3 * k + 2] != 0 || rn.hi[3 * k] + rn.hi[3 * k + 1] + rn.hi[3 * k + 2] != R + C - 1) rg = false; \
  REQF(sp_##x##y, ranges, rg); REQF(sp_##x##y, bonds, lg.ok && lg.n == 2 * R * C && lg.h == (z == 0 ? 1ul << (x * QLV_C + y) : 0) && lg.v == (z == 0 ? 0 : 1ul << (x * QLV_C + y))); REQF(sp_##x##y, rate, rate.size() == 1 && rate[0] == double(lg.acc) / double(2 * R * C)); }
SP(3, 4, 0, 0) SP(3, 4, 0, 3) SP(3, 4, 2, 0) SP(3, 4, 2, 3) SP(3, 4, 1, 2)
