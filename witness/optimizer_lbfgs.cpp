//@@ flat
#define QLV_D 2
#define QLV_EVALS 5
#include "optimizer_lbfgs.h"
//@ lb_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::ComputeLBFGSSearchDirection_ -- direction -H g with H the BFGS update of (s.y/y.y) by the kept pairs; -g without pairs or when not a descent direction
//@ lh_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::UpdateLBFGSHistoryFromAnchor_ -- pairs s = theta' - theta, y = g' - g of consecutive accepted steps; curvature threshold, damping, history length
#define P2 double x, double y, double lr, double e0, double a0, double b0, double e1, double a1, double b1, double mc
#define FIX_ ASSUME(lr > 0)
OB(lb_first, double x, double y, double lr, double e0, double a0, double b0) {
  StartRun(); Call2(0, e0, a0, b0, 1); ASSUME(a0 * a0 + b0 * b0 > 0);
  Opt o(Lb(1, lr, Fixed(3, 0.0, true)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2()); const double t = lr > 0 ? lr : 0.0;
  REQF(lb_first, law, Eq(V(r.optimized_state), x - t * a0) && Eq(V2(r.optimized_state), y - t * b0));
  REQF(lb_first, rate, r.learning_rate_trajectory.size() == 1 && Eq(r.learning_rate_trajectory[0], t) && ev.n == 1);
}
OB(lb_cap, double x, double y, double lr, double e0, double a0, double b0, double cap) {
  SPLIT(0, __builtin_sqrt(qlv_uf_nsq2(-a0, -b0)) > cap); if (__builtin_sqrt(qlv_uf_nsq2(-a0, -b0)) > cap) ASSUME(__builtin_sqrt(qlv_uf_nsq2(-a0, -b0)) > 0);
  StartRun(); FIX_; ASSUME(cap > 0); Call2(0, e0, a0, b0, 1); const double n = __builtin_sqrt(qlv_uf_nsq2(-a0, -b0)), f = n > cap ? cap / n : 1.0; ASSUME(a0 * (-f * a0) + b0 * (-f * b0) < 0);
  Opt o(Lb(1, lr, Fixed(3, 0.0, true, cap)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lb_cap, law, Eq(V(r.optimized_state), x - lr * f * a0) && Eq(V2(r.optimized_state), y - lr * f * b0));
}
#define TWO(damp, hist) \
  StartRun(); FIX_; ASSUME(a0 * a0 + b0 * b0 > 0); Call2(0, e0, a0, b0, 1); Call2(1, e1, a1, b1, 1); \
  const V_ g0 = {a0, b0}, g1 = {a1, b1}, s = Scl(-lr, g0), z = Sub(g1, g0), t1 = {x - lr * a0, y - lr * b0}; const double c = Dot(s, z)
OB(lb_pair, P2) {              // one pair with enough curvature
  TWO(false, 3); ASSUME(mc >= 0); ASSUME(c > mc); ASSUME(Dot(z, z) > EPS_);
  const V_ d = Scl(-1, Mul(Bfgs(Id(Gam(s, z)), s, z), g1)); ASSUME(Dot(g1, d) < 0);
  Opt o(Lb(2, lr, Fixed(3, mc, false)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lb_pair, first, Eq(ev.at[1], t1.a) && Eq(ev_at2[1], t1.b));
  REQF(lb_pair, law, Eq(V(r.optimized_state), t1.a + lr * d.a)); REQF(lb_pair, law_b, Eq(V2(r.optimized_state), t1.b + lr * d.b));
}
OB(lh_skip, P2) {              // too little curvature, no damping: no pair, steepest descent
  TWO(false, 3); ASSUME(c <= mc); ASSUME(a1 * a1 + b1 * b1 > 0);
  Opt o(Lb(2, lr, Fixed(3, mc, false)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lh_skip, law, Eq(V(r.optimized_state), t1.a - lr * a1) && Eq(V2(r.optimized_state), t1.b - lr * b1));
}

OB(lh_damp, double x, double y, double e0, double e1, double a1, double b1, double mc) { const double lr = 1, a0 = 1, b0 = 0;              // damping lifts y by (mc - c + 1e-15)/|y|^2 s
  TWO(true, 3); ASSUME(mc >= 0); ASSUME(c <= mc); ASSUME(Dot(z, z) > EPS_); const V_ w = Axpy((mc - c + 1e-15) / Dot(z, z), s, z); ASSUME(Dot(s, w) > mc); ASSUME(Dot(w, w) > EPS_);
  const V_ d = Scl(-1, Mul(Bfgs(Id(Gam(s, w)), s, w), g1)); ASSUME(Dot(g1, d) < 0);
  Opt o(Lb(2, lr, Fixed(3, mc, true)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lh_damp, law, Eq(V(r.optimized_state), t1.a + lr * d.a)); REQF(lh_damp, law_b, Eq(V2(r.optimized_state), t1.b + lr * d.b));
}
OB(lh_damp_skip, P2) {         // still too little curvature after damping: no pair
  TWO(true, 3); ASSUME(c <= mc); const V_ w = Axpy((mc - c + 1e-15) / Dot(z, z), s, z); SPLIT(0, Dot(z, z) > EPS_); ASSUME(!(Dot(z, z) > EPS_) || Dot(s, w) <= mc); ASSUME(a1 * a1 + b1 * b1 > 0);
  Opt o(Lb(2, lr, Fixed(3, mc, true)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lh_damp_skip, law, Eq(V(r.optimized_state), t1.a - lr * a1) && Eq(V2(r.optimized_state), t1.b - lr * b1));
}
OB(lh_damp_off, P2) {          // damping leaves pairs with enough curvature alone
  TWO(true, 3); ASSUME(mc >= 0); ASSUME(c > mc); ASSUME(Dot(z, z) > EPS_);
  const V_ d = Scl(-1, Mul(Bfgs(Id(Gam(s, z)), s, z), g1)); ASSUME(Dot(g1, d) < 0);
  Opt o(Lb(2, lr, Fixed(3, mc, true)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lh_damp_off, law, Eq(V(r.optimized_state), t1.a + lr * d.a)); REQF(lh_damp_off, law_b, Eq(V2(r.optimized_state), t1.b + lr * d.b));
}
OB(lb_ascent, P2) {            // not a descent direction: steepest descent instead
  TWO(false, 3); ASSUME(mc >= 0); ASSUME(c > mc); ASSUME(Dot(z, z) > EPS_);
  const V_ d = Scl(-1, Mul(Bfgs(Id(Gam(s, z)), s, z), g1)); ASSUME(Dot(g1, d) >= 0);
  Opt o(Lb(2, lr, Fixed(3, mc, false)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lb_ascent, law, Eq(V(r.optimized_state), t1.a - lr * a1)); REQF(lb_ascent, law_b, Eq(V2(r.optimized_state), t1.b - lr * b1));
}
OB(lb_flat, P2) {              // |y|^2 below machine precision: H starts from 1
  TWO(false, 3); ASSUME(mc >= 0); ASSUME(c > mc); ASSUME(Dot(z, z) <= EPS_);
  const V_ d = Scl(-1, Mul(Bfgs(Id(1), s, z), g1)); ASSUME(Dot(g1, d) < 0);
  Opt o(Lb(2, lr, Fixed(3, mc, false)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lb_flat, law, Eq(V(r.optimized_state), t1.a + lr * d.a)); REQF(lb_flat, law_b, Eq(V2(r.optimized_state), t1.b + lr * d.b));
}
// three steps: the first two gradients are numbers for which the recursion is exact, the third is arbitrary
#define P3 double x, double y, double e0, double e1, double e2, double a2, double b2, double mc
#define THREE const double lr = 1, a0 = 1, b0 = 0, a1 = -1, b1 = 2; TWO(false, 3); (void)c; Call2(2, e2, a2, b2, 1); const V_ g2 = {a2, b2}; ASSUME(mc >= 0); ASSUME(mc < 2); \
  const V_ d1 = {.25, -.25}, s2 = d1, z2 = Sub(g2, g1), t2 = {t1.a + .25, t1.b - .25}; ASSUME(Dot(s2, z2) > mc); ASSUME(Dot(z2, z2) > EPS_)
OB(lb_two, P3) {               // two pairs
  THREE; const V_ d = Scl(-1, Mul(Bfgs(Bfgs(Id(Gam(s2, z2)), s, z), s2, z2), g2)); ASSUME(Dot(g2, d) < 0);
  Opt o(Lb(3, lr, Fixed(2, mc, false)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lb_two, law, Eq(V(r.optimized_state), t2.a + lr * d.a)); REQF(lb_two, law_b, Eq(V2(r.optimized_state), t2.b + lr * d.b));
}
OB(lh_trim, P3) {              // history of one: only the last pair counts
  THREE; const V_ d = Scl(-1, Mul(Bfgs(Id(Gam(s2, z2)), s2, z2), g2)); ASSUME(Dot(g2, d) < 0);
  Opt o(Lb(3, lr, Fixed(1, mc, false)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lh_trim, law, Eq(V(r.optimized_state), t2.a + lr * d.a)); REQF(lh_trim, law_b, Eq(V2(r.optimized_state), t2.b + lr * d.b));
}
OB(lh_skip_keep, P3) {         // a skipped pair does not displace the kept one, and the next pair starts at the last step
  const double lr = 1, a0 = 1, b0 = 0, a1 = -1, b1 = 2; TWO(false, 3); (void)c; Call2(2, e2, a2, b2, 1); const V_ g2 = {a2, b2}; ASSUME(mc >= 0); ASSUME(mc < 2);
  const V_ d1 = {.25, -.25}, z2 = Sub(g2, g1), t2 = {t1.a + .25, t1.b - .25}; ASSUME(Dot(d1, z2) <= mc);
  const V_ d = Scl(-1, Mul(Bfgs(Id(.25), s, z), g2)); ASSUME(Dot(g2, d) < 0);
  Opt o(Lb(3, lr, Fixed(2, mc, false)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lh_skip_keep, law, Eq(V(r.optimized_state), t2.a + d.a)); REQF(lh_skip_keep, law_b, Eq(V2(r.optimized_state), t2.b + d.b));
}
OB(lb_reset, P3) {             // after a reset only pairs measured since then count
  const double lr = 1, a0 = 1, b0 = 0, a1 = 3, b1 = 2; StartRun(); Call2(0, e0, a0, b0, 1); Call2(1, e1, a1, b1, 1); Call2(2, e2, a2, b2, 1); (void)mc;
  const V_ g2 = {a2, b2}, g1 = {3, 2}, s2 = {-3, -2}, z2 = Sub(g2, g1), t2 = {x - 4, y - 2}; ASSUME(Dot(s2, z2) > -100); ASSUME(Dot(z2, z2) > EPS_);
  const V_ d = Scl(-1, Mul(Bfgs(Id(Gam(s2, z2)), s2, z2), g2)); ASSUME(Dot(g2, d) < 0);
  Opt o(Lb(3, lr, Fixed(3, -100, false)), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lb_reset, second, Eq(ev.at[2], t2.a) && Eq(ev_at2[2], t2.b));
  REQF(lb_reset, law, Eq(V(r.optimized_state), t2.a + d.a)); REQF(lb_reset, law_b, Eq(V2(r.optimized_state), t2.b + d.b));
}
OB(lb_again, double x, double y, double u, double v, double e0, double e1, double e2, double a2, double b2) {      // a second run starts without pairs
  StartRun(); Call2(0, e0, 1, 0, 1); Call2(1, e1, -1, 2, 1); Call2(2, e2, a2, b2, 1); ASSUME(a2 * a2 + b2 * b2 > 0);
  OptimizerParams p = Lb(2, 1, Fixed(3, 0, false));
  Opt o(p, C_, 0, 1); o.IterativeOptimize(St(x, y), Full2()); ASSUME(ev.n == 2); ev.n = 2; ev.e[3] = e1; ev.g[3] = a2; ev_h[3] = b2; ev.err[3] = 1;
  o.IterativeOptimize(St(u, v), Full2());
  REQF(lb_again, law, Eq(ev.at[3], u - a2) && Eq(ev_at2[3], v - b2));
}
static inline double N2(double a, double b) { return __builtin_sqrt(qlv_uf_nsq2(a, b)); }
static inline OptimizerParams LbSp(size_t it, size_t hist, size_t retries, bool roll) {
  OptimizerParams p = Lb(it, 1, Fixed(hist, 0, false)); auto &s = p.spike_recovery_params; s.enable_auto_recover = true; s.redo_mc_max_retries = retries; s.factor_err = 2; s.ema_window = 3; s.enable_rollback = roll; return p;
}
OB(lh_resample, double x, double y, double e0, double e1, double e2, double a1, double b1, double a2, double b2) {      // the pair is made of the accepted measurement
  ASSUME(!(N2(1, 0) > 0)); StartRun(); Call2(0, e0, 1, 0, 1); Call2(1, e1, a1, b1, 100); Call2(2, e2, a2, b2, 1);
  const V_ g2 = {a2, b2}, s = {-1, 0}, z = {a2 - 1, b2}; ASSUME(Dot(s, z) > 0); ASSUME(Dot(z, z) > EPS_); const V_ d = Scl(-1, Mul(Bfgs(Id(Gam(s, z)), s, z), g2)); ASSUME(Dot(g2, d) < 0);
  Opt o(LbSp(2, 3, 1, false), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lh_resample, evals, ev.n == 3 && Eq(ev.at[2], x - 1) && Eq(ev_at2[2], y));
  REQF(lh_resample, law, Eq(V(r.optimized_state), x - 1 + d.a)); REQF(lh_resample, law_b, Eq(V2(r.optimized_state), y + d.b));
}
OB(lh_rollback, double x, double y, double e2, double a2, double b2, double a3, double b3) {      // after a rollback pairs start from the state before it
  ASSUME(!(N2(1, 0) > 0)); ASSUME(!(N2(1, 0) + .5 * (N2(-1, 2) - N2(1, 0)) > 0)); StartRun(); Call2(0, 0, 1, 0, 1); Call2(1, 0, -1, 2, 1); Call2(2, e2, a2, b2, 100); Call2(3, 0, a3, b3, 1);
  const V_ g3 = {a3, b3}, s = {-1, 0}, z = {a3 - 1, b3}; ASSUME(Dot(s, z) > 0); ASSUME(Dot(z, z) > EPS_); const V_ d = Scl(-1, Mul(Bfgs(Id(Gam(s, z)), s, z), g3)); ASSUME(Dot(g3, d) < 0);
  Opt o(LbSp(3, 1, 0, true), C_, 0, 1); auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lh_rollback, evals, ev.n == 4 && Eq(ev.at[3], x - 1) && Eq(ev_at2[3], y));
  REQF(lh_rollback, law, Eq(V(r.optimized_state), x - 1 + d.a)); REQF(lh_rollback, law_b, Eq(V2(r.optimized_state), y + d.b));
}
OBC(lb_zero_master, double x, double y, double e0, double a0, double b0) {
  StartRun(0, 2); Call2(0, e0, a0, b0, 1); bool threw = false; Opt o(Lb(1, 1, Fixed(0, 0, false)), C_, 0, 2);
  try { o.IterativeOptimize(St(x, y), Full2()); } catch (...) { threw = true; }
  REQ(lb_zero_master, threw && co.n == 0);
}
OBC(lb_zero_worker, double x, double y, double e0, double a0, double b0) {
  StartRun(1, 2); Call2(0, e0, a0, b0, 1); bool threw = false; Opt o(Lb(1, 1, Fixed(0, 0, false)), C_, 1, 2);
  try { o.IterativeOptimize(St(x, y), Full2()); } catch (...) { threw = true; }
  REQ(lb_zero_worker, threw && co.n == 0);
}
OB(lb_worker, double x, double y, double lr, double e0, double a0, double b0, double dphi) {      // other ranks: same collectives, state unchanged
  SPLIT(0, dphi >= 0); StartRun(1, 2); Call2(0, e0, a0, b0, 1); co.dbl[0] = dphi; co.dbl[1] = -1; Opt o(Lb(1, lr, Fixed(3, 0, false)), C_, 1, 2);
  auto r = o.IterativeOptimize(St(x, y), Full2());
  REQF(lb_worker, state, Same(V(r.optimized_state), x) && Same(V2(r.optimized_state), y) && ev.n == 1);
  REQF(lb_worker, coll, co.n == (dphi >= 0 ? 2 : 1) && co.sig == (dphi >= 0 ? 2 * 131 + 2 : 2));
}
OB(lb_master, double x, double y, double lr, double e0, double a0, double b0) {
  SPLIT(0, a0 * a0 + b0 * b0 > 0); ASSUME(a0 * a0 + b0 * b0 >= 0); StartRun(0, 2); Call2(0, e0, a0, b0, 1); Opt o(Lb(1, lr, Fixed(3, 0, false)), C_, 0, 2);
  auto r = o.IterativeOptimize(St(x, y), Full2()); const bool asc = !(a0 * a0 + b0 * b0 > 0);
  REQF(lb_master, coll, co.n == (asc ? 2 : 1) && co.sig == (asc ? 2 * 131 + 2 : 2));
}
