//@@ flat
#define QLV_EVALS 5
#include "optimizer_lbfgs.h"
//@ wf_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::StrongWolfeLBFGSStep_ -- a step is accepted only with sufficient decrease and strong curvature; trial points by doubling and bisection; failure or fixed-step fallback
#define PW double th, double lr, double e0, double g, double e1, double g1, double c1, double c2, double tol
#define PW2 PW, double e2, double g2
static inline LBFGSParams Wolfe(double c1, double c2, double tol, size_t me, double mn, double mx, bool fb = false, double sc = 0.2, double tc = 0) {
  LBFGSParams l; l.history_size = 3; l.max_direction_norm = 0; l.step_mode = LBFGSStepMode::kStrongWolfe; l.wolfe_c1 = c1; l.wolfe_c2 = c2; l.tolerance_grad = tol; l.max_eval = me; l.min_step = mn; l.max_step = mx; l.allow_fallback_to_fixed_step = fb; l.fallback_fixed_step_scale = sc; l.tolerance_change = tc; return l;
}
#define WF ASSUME(c1 > 0); ASSUME(c1 < 1); ASSUME(c2 > c1); ASSUME(c2 < 1); ASSUME(tol >= 0); ASSUME(lr > 0.125); ASSUME(lr < 64); const double d0 = -(g * g); ASSUME(d0 < 0); SPLIT(0, -c2 * d0 < tol); const double thr = -c2 * d0 < tol ? tol : -c2 * d0
#define GO(me, ...) StartRun(); Call(0, e0, g, 1); Call(1, e1, g1, 1); Opt o(Lb(1, lr, Wolfe(c1, c2, tol, me, 0.125, 64, ##__VA_ARGS__)), C_, 0, 1)
#define ARM(e, a) (!((e) > e0 + c1 * (a) * d0))
#define CUR(gg) (__builtin_fabs((gg) * -g) <= thr)
#define GOT(nm, cnt_, al_) REQF(nm, evals, ev.n == (cnt_)); REQF(nm, state, Eq(V(r.optimized_state), th - (al_) * g)); REQF(nm, rate, r.learning_rate_trajectory.size() == 1 && Eq(r.learning_rate_trajectory[0], (al_)) && r.energy_trajectory.size() == 1 && Same(r.energy_trajectory[0], e0))
OB(wf_first, PW) {
  WF; ASSUME(ARM(e1, lr)); ASSUME(CUR(g1)); GO(3); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_first, at, Eq(ev.at[1], th - lr * g)); GOT(wf_first, 2, lr);
}
OB(wf_double, PW2) {             // falling on and too steep: twice the step
  WF; ASSUME(ARM(e1, lr)); ASSUME(!CUR(g1)); ASSUME(g1 * -g < 0); ASSUME(lr <= 32); ASSUME(ARM(e2, 2 * lr)); ASSUME(e2 < e1); ASSUME(CUR(g2));
  GO(3); Call(2, e2, g2, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_double, at, Eq(ev.at[1], th - lr * g) && Eq(ev.at[2], th - 2 * lr * g)); GOT(wf_double, 3, 2 * lr);
}
OB(wf_bisect, PW2) {             // no sufficient decrease: half the step
  WF; ASSUME(!ARM(e1, lr)); ASSUME(ARM(e2, lr / 2)); ASSUME(e2 < e0); ASSUME(CUR(g2));
  GO(3); Call(2, e2, g2, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_bisect, at, Eq(ev.at[2], th - lr / 2 * g)); GOT(wf_bisect, 3, lr / 2);
}
OB(wf_back, PW2) {               // slope has turned positive: between 0 and the step
  WF; ASSUME(ARM(e1, lr)); ASSUME(!CUR(g1)); ASSUME(g1 * -g >= 0); ASSUME(ARM(e2, lr / 2)); ASSUME(e2 < e1); ASSUME(CUR(g2));
  GO(3); Call(2, e2, g2, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_back, at, Eq(ev.at[2], th - lr / 2 * g)); GOT(wf_back, 3, lr / 2);
}
OB(wf_bracket, PW2, double e3, double g3) {          // energy rises at the doubled step: between the two
  WF; ASSUME(ARM(e1, lr)); ASSUME(!CUR(g1)); ASSUME(g1 * -g < 0); ASSUME(lr <= 32); ASSUME(e2 >= e1); ASSUME(ARM(e3, 1.5 * lr)); ASSUME(e3 < e1); ASSUME(CUR(g3));
  GO(4); Call(2, e2, g2, 1); Call(3, e3, g3, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_bracket, at, Eq(ev.at[2], th - 2 * lr * g) && Eq(ev.at[3], th - 1.5 * lr * g)); GOT(wf_bracket, 4, 1.5 * lr);
}
OB(wf_zoom_low, PW2, double e3, double g3) {         // inside the bracket, still falling: the lower end moves
  WF; ASSUME(!ARM(e1, lr)); ASSUME(ARM(e2, lr / 2)); ASSUME(e2 < e0); ASSUME(!CUR(g2)); ASSUME(g2 * -g * (lr - 0) < 0); ASSUME(ARM(e3, .75 * lr)); ASSUME(e3 < e2); ASSUME(CUR(g3));
  GO(4); Call(2, e2, g2, 1); Call(3, e3, g3, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_zoom_low, at, Eq(ev.at[2], th - lr / 2 * g) && Eq(ev.at[3], th - .75 * lr * g)); GOT(wf_zoom_low, 4, .75 * lr);
}
OB(wf_zoom_turn, PW2, double e3, double g3) {        // inside the bracket, rising: the bracket turns to the lower end
  WF; ASSUME(!ARM(e1, lr)); ASSUME(ARM(e2, lr / 2)); ASSUME(e2 < e0); ASSUME(!CUR(g2)); ASSUME(g2 * -g * (lr - 0) >= 0); ASSUME(ARM(e3, .25 * lr)); ASSUME(e3 < e2); ASSUME(CUR(g3));
  GO(4); Call(2, e2, g2, 1); Call(3, e3, g3, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_zoom_turn, at, Eq(ev.at[2], th - lr / 2 * g) && Eq(ev.at[3], th - .25 * lr * g)); GOT(wf_zoom_turn, 4, .25 * lr);
}
OB(wf_zoom_high, PW2, double e3, double g3) {        // inside the bracket, no decrease: the upper end moves
  WF; ASSUME(!ARM(e1, lr)); SPLIT(1, ARM(e2, lr / 2)); ASSUME(!ARM(e2, lr / 2) || e2 >= e0); ASSUME(ARM(e3, .25 * lr)); ASSUME(e3 < e0); ASSUME(CUR(g3));
  GO(4); Call(2, e2, g2, 1); Call(3, e3, g3, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_zoom_high, at, Eq(ev.at[3], th - .25 * lr * g)); GOT(wf_zoom_high, 4, .25 * lr);
}
OBC(wf_fail, PW) {               // nothing acceptable within max_eval: an exception, no step
  WF; SPLIT(1, ARM(e1, lr)); ASSUME(!ARM(e1, lr) || !CUR(g1)); GO(1); bool threw = false; try { o.IterativeOptimize(St(th), Full()); } catch (...) { threw = true; }
  REQ(wf_fail, threw && ev.n == 2);
}
OB(wf_fallback, PW, double sc) {
  WF; SPLIT(1, ARM(e1, lr)); SPLIT(2, lr * sc > 0.125); ASSUME(!ARM(e1, lr) || !CUR(g1)); GO(1, true, sc); auto r = o.IterativeOptimize(St(th), Full());
  GOT(wf_fallback, 2, lr * sc > 0.125 ? lr * sc : 0.125);
}
#define THROWS(nm, cnt_) bool threw = false; try { o.IterativeOptimize(St(th), Full()); } catch (...) { threw = true; } REQ(nm, threw && ev.n == (cnt_))
OBC(wf_no_bisect, PW2) {         // a later trial point is accepted on its own merits only
  WF; ASSUME(!ARM(e1, lr)); SPLIT(1, ARM(e2, lr / 2)); SPLIT(2, e2 >= e0); ASSUME(!ARM(e2, lr / 2) || e2 >= e0 || !CUR(g2));
  GO(2); Call(2, e2, g2, 1); THROWS(wf_no_bisect, 3);
}
OBC(wf_no_back, PW2) {
  WF; ASSUME(ARM(e1, lr)); ASSUME(!CUR(g1)); ASSUME(g1 * -g >= 0); SPLIT(1, ARM(e2, lr / 2)); SPLIT(2, e2 >= e1); ASSUME(!ARM(e2, lr / 2) || e2 >= e1 || !CUR(g2));
  GO(2); Call(2, e2, g2, 1); THROWS(wf_no_back, 3);
}
OBC(wf_no_double, PW2) {
  WF; ASSUME(ARM(e1, lr)); ASSUME(!CUR(g1)); ASSUME(g1 * -g < 0); ASSUME(lr <= 32); SPLIT(1, ARM(e2, 2 * lr)); SPLIT(2, e2 >= e1); ASSUME(!ARM(e2, 2 * lr) || e2 >= e1 || !CUR(g2));
  GO(2); Call(2, e2, g2, 1); THROWS(wf_no_double, 3);
}
OBC(wf_narrow, PW, double tc) {  // a bracket narrower than the step tolerance ends the search
  WF; ASSUME(!ARM(e1, lr)); ASSUME(!ARM(e1, lr / 2)); ASSUME(__builtin_fabs(lr / 2) <= tc); GO(4, false, 0.2, tc); Call(2, e1, g1, 1); bool threw = false; try { o.IterativeOptimize(St(th), Full()); } catch (...) { threw = true; }
  REQ(wf_narrow, threw && ev.n == 3);
}
OBC(wf_limit, PW) {              // no room for a longer step: the search ends
  WF; ASSUME(ARM(e1, 64)); ASSUME(!CUR(g1)); ASSUME(g1 * -g < 0); StartRun(); Call(0, e0, g, 1); Call(1, e1, g1, 1); Opt o(Lb(1, 100, Wolfe(c1, c2, tol, 4, 0.125, 64)), C_, 0, 1);
  bool threw = false; try { o.IterativeOptimize(St(th), Full()); } catch (...) { threw = true; }
  REQ(wf_limit, threw && ev.n == 2);
}
OB(wf_clamp, PW, bool big) {     // the first trial step is the learning rate within [min_step, max_step]
  WF; SPLIT(1, big); const double a = big ? 64 : 0.125; ASSUME(ARM(e1, a)); ASSUME(CUR(g1)); StartRun(); Call(0, e0, g, 1); Call(1, e1, g1, 1);
  Opt o(Lb(1, big ? 100 : 0.01, Wolfe(c1, c2, tol, 4, 0.125, 64)), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  GOT(wf_clamp, 2, a);
}
OBC(wf_bad, bool k0, bool k1, bool k2, double th, double e0, double g, double c1, double c2, double tol, size_t me) {        // meaningless parameters are rejected before anything is evaluated
  ASSUME(g * g > 0); SPLIT(0, k0); SPLIT(1, k1); SPLIT(2, k2);
  ASSUME(k2 ? (k1 ? me == 0 : tol < 0) : k1 ? (k0 ? c1 <= 0 : c1 >= 1) : (k0 ? c2 <= c1 : c2 >= 1));
  StartRun(); Call(0, e0, g, 1); Opt o(Lb(1, 1, Wolfe(c1, c2, tol, me, 0.125, 64)), C_, 0, 1); bool threw = false; try { o.IterativeOptimize(St(th), Full()); } catch (...) { threw = true; }
  REQ(wf_bad, threw && ev.n == 1);
}
OBC(wf_bad_worker, bool k0, bool k1, bool k2, double th, double e0, double g, double d0, double c1, double c2, double tol, size_t me) {
  ASSUME(d0 < 0); SPLIT(0, k0); SPLIT(1, k1); SPLIT(2, k2);
  ASSUME(k2 ? (k1 ? me == 0 : tol < 0) : k1 ? (k0 ? c1 <= 0 : c1 >= 1) : (k0 ? c2 <= c1 : c2 >= 1));
  StartRun(1, 2); Call(0, e0, g, 1); co.dbl[0] = d0; Opt o(Lb(1, 1, Wolfe(c1, c2, tol, me, 0.125, 64)), C_, 1, 2); bool threw = false; try { o.IterativeOptimize(St(th), Full()); } catch (...) { threw = true; }
  REQ(wf_bad_worker, threw && ev.n == 1);
}
#define BC(k, v) co.dbl[k] = (v)
OB(wf_worker, double th, double lr, double e0, double g, double e1, double g1, double f0, double d0, double f1, double d1, double f2, double d2) {      // other ranks decide on the numbers of the master
  ASSUME(d0 < 0); ASSUME(lr > 0.125); ASSUME(lr < 64); ASSUME(f1 > e0 + 0.25 * lr * d0); ASSUME(!(f2 > e0 + 0.25 * (lr / 2) * d0)); ASSUME(f2 < e0); ASSUME(__builtin_fabs(d2) <= -0.5 * d0);
  StartRun(1, 2); Call(0, e0, g, 1); Call(1, e1, g1, 1); Call(2, e1, g1, 1); BC(0, d0); BC(2, f1); BC(3, d1); BC(4, f2); BC(5, d2);
  Opt o(Lb(1, lr, Wolfe(0.25, 0.5, 0, 4, 0.125, 64)), C_, 1, 2); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_worker, evals, ev.n == 3 && Same(ev.at[1], th) && Same(ev.at[2], th)); REQF(wf_worker, coll, co.n == 6); REQF(wf_worker, state, Same(V(r.optimized_state), th));
  REQF(wf_worker, rate, r.learning_rate_trajectory.size() == 1 && Eq(r.learning_rate_trajectory[0], lr / 2));
}
OB(wf_master, double th, double lr, double e0, double g, double e1, double g1, double e2, double g2) {      // ... which the master sends
  const double d0 = -(g * g); ASSUME(d0 < 0); ASSUME(lr > 0.125); ASSUME(lr < 64); ASSUME(e1 > e0 + 0.25 * lr * d0); ASSUME(!(e2 > e0 + 0.25 * (lr / 2) * d0)); ASSUME(e2 < e0); ASSUME(__builtin_fabs(g2 * -g) <= -0.5 * d0);
  StartRun(0, 2); Call(0, e0, g, 1); Call(1, e1, g1, 1); Call(2, e2, g2, 1);
  Opt o(Lb(1, lr, Wolfe(0.25, 0.5, 0, 4, 0.125, 64)), C_, 0, 2); auto r = o.IterativeOptimize(St(th), Full());
  REQF(wf_master, coll, ev.n == 3 && co.n == 6 && Eq(co.dbl[0], d0) && Same(co.dbl[2], e1) && Eq(co.dbl[3], g1 * -g) && Same(co.dbl[4], e2) && Eq(co.dbl[5], g2 * -g));
}
