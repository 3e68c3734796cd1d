//@@ flat
#include "updaters_common.h"
//@ ex_*: include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h :: MCUpdateSquareNNExchangeOBC/PBC::TwoSiteNNUpdateLocalImpl -- exchange of the states of a bond accepted with probability min(1, |psi'/psi|^2)
//@ ep_*: include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h :: MCUpdateSquareNNExchangeOBC/PBC::TwoSiteNNUpdateLocalImpl -- exchange of the states of a bond accepted with probability min(1, |psi'/psi|^2)
#define SITES const SiteIdx A{1, 1}, B = vert ? SiteIdx{2, 1} : SiteIdx{1, 2}; const BondOrientation D = vert ? VERTICAL : HORIZONTAL
#define P0 bool vert, size_t s, size_t t, double a, double u
#define SETUP(T) StartRn(); rn.u[0] = u; ST ps; ps.dim = 4; ASSUME(s < 4); ASSUME(t < 4); Configuration f(3, 3); f(A) = s; f(B) = t; T w(3, 3, BMPSTruncateParamsModel()); w.config = f; w.tn = TensorNetwork2D<double, QN_>(ps, f); w.amplitude = a
#define NEWO const double b = qlv_uf_amp2(A.row(), A.col(), t, B.row(), B.col(), s, (int)D)
#define NEWP const double b = qlv_uf_amp2(A.row(), A.col(), t, B.row(), B.col(), s, 7)
#define KEPT(nm) REQF(nm, kept, !r && w.config(A) == s && w.config(B) == t && Same(w.amplitude, a) && w.tn(A).s == s && w.tn(B).s == t); OTHERS(nm)
#define MOVED(nm) REQF(nm, moved, r && w.config(A) == t && w.config(B) == s && Same(w.amplitude, b)); REQF(nm, tensors, w.tn(A).s == t && w.tn(B).s == s && w.tn(A).r == A.row() && w.tn(A).c == A.col() && w.tn(B).r == B.row() && w.tn(B).c == B.col()); OTHERS(nm)
#define OTHERS(nm) REQF(nm, others, w.config({0, 0}) == 0 && w.config({0, 1}) == 0 && w.config({0, 2}) == 0 && w.config({1, 0}) == 0 && w.config({2, 0}) == 0 && w.config({2, 2}) == 0 && w.config(vert ? SiteIdx{1, 2} : SiteIdx{2, 1}) == 0)
#define ER(i) w.contractor.erased[i]
#define CLEAN(nm) REQF(nm, envs, ER(0) + ER(1) + ER(2) + ER(3) + ER(4) + ER(5) + ER(6) + ER(7) + ER(8) == 0)
#define DIRTY(nm) REQF(nm, envs, ER(4) >= 1 && (vert ? ER(7) >= 1 && ER(5) == 0 : ER(5) >= 1 && ER(7) == 0) && ER(0) + ER(1) + ER(2) + ER(3) + ER(6) + ER(8) == 0)
#define AB(x) __builtin_fabs(x)
OB(ex_same, P0) { SPLIT(0, vert); SITES; ASSUME(s == t); SETUP(WF); MCUpdateSquareNNExchangeOBC m(1u); const bool r = m.TwoSiteNNUpdateLocalImpl(A, B, D, ps, w); KEPT(ex_same); CLEAN(ex_same); REQF(ex_same, draw, rn.reals == 0); }
OB(ex_up, P0) { SPLIT(0, vert); SITES; ASSUME(s != t); NEWO; ASSUME(AB(b) >= AB(a)); SETUP(WF); MCUpdateSquareNNExchangeOBC m(1u); const bool r = m.TwoSiteNNUpdateLocalImpl(A, B, D, ps, w); MOVED(ex_up); DIRTY(ex_up); }
OB(ex_accept, P0) { SPLIT(0, vert); SITES; ASSUME(s != t); NEWO; ASSUME(AB(b) < AB(a)); ASSUME(u < AB(b) / AB(a) * (AB(b) / AB(a))); SETUP(WF); MCUpdateSquareNNExchangeOBC m(1u); const bool r = m.TwoSiteNNUpdateLocalImpl(A, B, D, ps, w); MOVED(ex_accept); DIRTY(ex_accept); REQF(ex_accept, draw, rn.reals == 1 && rn.range_ok); }
OB(ex_reject, P0) { SPLIT(0, vert); SITES; ASSUME(s != t); NEWO; ASSUME(AB(b) < AB(a)); ASSUME(u >= AB(b) / AB(a) * (AB(b) / AB(a))); SETUP(WF); MCUpdateSquareNNExchangeOBC m(1u); const bool r = m.TwoSiteNNUpdateLocalImpl(A, B, D, ps, w); KEPT(ex_reject); CLEAN(ex_reject); REQF(ex_reject, draw, rn.reals == 1 && rn.range_ok); }
OB(ep_same, P0) { SPLIT(0, vert); SITES; ASSUME(s == t); SETUP(WT); MCUpdateSquareNNExchangePBC m(1u); const bool r = m.TwoSiteNNUpdateLocalImpl(A, B, D, ps, w); KEPT(ep_same); REQF(ep_same, trial, w.contractor.commits == 0); }
OB(ep_up, P0) { SPLIT(0, vert); SITES; ASSUME(s != t); NEWP; ASSUME(AB(b) >= AB(a)); SETUP(WT); MCUpdateSquareNNExchangePBC m(1u); const bool r = m.TwoSiteNNUpdateLocalImpl(A, B, D, ps, w); MOVED(ep_up); REQF(ep_up, trial, w.contractor.commits == 1 && w.contractor.committed == (int)(1 + t * 4 + s)); }
OB(ep_accept, P0) { SPLIT(0, vert); SITES; ASSUME(s != t); NEWP; ASSUME(AB(b) < AB(a)); ASSUME(u < AB(b) / AB(a) * (AB(b) / AB(a))); SETUP(WT); MCUpdateSquareNNExchangePBC m(1u); const bool r = m.TwoSiteNNUpdateLocalImpl(A, B, D, ps, w); MOVED(ep_accept); REQF(ep_accept, trial, w.contractor.commits == 1 && w.contractor.committed == (int)(1 + t * 4 + s)); REQF(ep_accept, draw, rn.reals == 1 && rn.range_ok); }
OB(ep_reject, P0) { SPLIT(0, vert); SITES; ASSUME(s != t); NEWP; ASSUME(AB(b) < AB(a)); ASSUME(u >= AB(b) / AB(a) * (AB(b) / AB(a))); SETUP(WT); MCUpdateSquareNNExchangePBC m(1u); const bool r = m.TwoSiteNNUpdateLocalImpl(A, B, D, ps, w); KEPT(ep_reject); REQF(ep_reject, trial, w.contractor.commits == 0); }
