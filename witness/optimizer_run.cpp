//@@ flat
#include "optimizer_first.h"
//@ res_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize -- trajectories, lowest state, final and minimal energy, iteration count describe the run
//@ stop_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::ShouldStop -- stop on gradient norm, energy change or plateau, never after the first step; no update after a stop
//@ cb_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize -- callbacks are told about every accepted step, in order, and can stop the run
//@ again_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::ClearUp -- a second run equals a run of a fresh optimizer
//@ worker_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize -- other ranks follow the decisions of the master
#define FIN(x) ASSUME((x) < __DBL_MAX__)
static inline double Nrm(double g) { return __builtin_sqrt(qlv_uf_nsq(g)); }
#define A3 double th, double lr, double e0, double g0, double r0, double e1, double g1, double r1, double e2, double g2, double r2
#define CALLS3 FIN(e0); FIN(e1); FIN(e2); Call(0, e0, g0, r0); Call(1, e1, g1, r1); Call(2, e2, g2, r2)
OB(res_zero, double th, double lr) {      // no iterations: the initial state comes back
  StartRun(); Opt o(Sgd(0, lr, 0, false, 0), C_, 0, 1);
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(res_zero, state, Same(V(r.optimized_state), th) && Same(V(r.lowest_state), th) && ev.n == 0);
  REQF(res_zero, rest, r.total_iterations == 0 && !r.converged && r.energy_trajectory.size() == 0 && r.energy_error_trajectory.size() == 0 && r.gradient_norms.size() == 0 && r.learning_rate_trajectory.size() == 0);
}
OB(res_traj, A3) {
  StartRun(); CALLS3; Opt o(Sgd(3, lr, 0, false, 0), C_, 0, 1);
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(res_traj, energy, r.energy_trajectory.size() == 3 && Same(r.energy_trajectory[0], e0) && Same(r.energy_trajectory[1], e1) && Same(r.energy_trajectory[2], e2));
  REQF(res_traj, error, r.energy_error_trajectory.size() == 3 && Same(r.energy_error_trajectory[0], r0) && Same(r.energy_error_trajectory[1], r1) && Same(r.energy_error_trajectory[2], r2));
  REQF(res_traj, norm, r.gradient_norms.size() == 3 && Same(r.gradient_norms[0], Nrm(g0)) && Same(r.gradient_norms[1], Nrm(g1)) && Same(r.gradient_norms[2], Nrm(g2)));
  REQF(res_traj, lr, r.learning_rate_trajectory.size() == 3 && Same(r.learning_rate_trajectory[0], lr) && Same(r.learning_rate_trajectory[1], lr) && Same(r.learning_rate_trajectory[2], lr));
  REQF(res_traj, count, r.total_iterations == 3 && !r.converged && ev.n == 3);
  REQF(res_traj, final, Same(r.final_energy, e2));
  REQF(res_traj, spikes, r.spike_stats.total_resamples == 0 && r.spike_stats.total_rollbacks == 0 && r.spike_stats.total_forced_accepts == 0 && r.spike_stats.event_log.size() == 0);
}
OB(res_lowest, A3) {                      // the lowest state is the state whose evaluation gave the lowest energy (the first of equals)
  StartRun(); CALLS3; Opt o(Sgd(3, lr, 0, false, 0), C_, 0, 1);
  auto r = o.IterativeOptimize(St(th), Full());
  double e = e0; double s = th;
  if (e1 < e) { e = e1; s = ev.at[1]; }
  if (e2 < e) { e = e2; s = ev.at[2]; }
  REQF(res_lowest, energy, Same(r.min_energy, e));
  REQF(res_lowest, state, Same(V(r.lowest_state), s));
}
OB(res_shape, double th, double lr, double e, double g, double err) {
  StartRun(); FIN(e); Call(0, e, g, err); Opt o(Sgd(1, lr, 0, false, 0), C_, 0, 1);
  auto r = o.IterativeOptimize(St(th), Full());
  REQ(res_shape, r.optimized_state.rows() == QLV_R && r.optimized_state.cols() == QLV_C && r.lowest_state.rows() == QLV_R && r.lowest_state.cols() == QLV_C);
}
// ---- stopping: each criterion alone, then together
static inline OptimizerParams Stop(size_t it, double lr, double et, double gt, size_t pp) { OptimizerParams p = Sgd(it, lr, 0, false, 0); p.base_params.energy_tolerance = et; p.base_params.gradient_tolerance = gt; p.base_params.plateau_patience = pp; return p; }
#define STOP(nm, et, gt, pp, crit1, crit2) STOP_(nm, et, gt, pp, crit1, crit2, crit1, crit2)
#define STOP_(nm, et, gt, pp, crit1, crit2, sp0, sp1) \
  OB(nm, A3, double t) { \
    SPLIT(0, sp0); SPLIT(1, sp1); StartRun(); CALLS3; Opt o(Stop(3, lr, et, gt, pp), C_, 0, 1); \
    auto r = o.IterativeOptimize(St(th), Full()); \
    const bool s1 = (crit1), s2 = !s1 && (crit2); \
    REQF(nm, converged, r.converged == (s1 || s2)); \
    REQF(nm, count, r.total_iterations == (s1 ? 2u : 3u) && ev.n == (s1 ? 2 : 3)); \
    REQF(nm, traj, r.energy_trajectory.size() == (s1 ? 2u : 3u) && r.gradient_norms.size() == (s1 ? 2u : 3u) && r.energy_error_trajectory.size() == (s1 ? 2u : 3u)); \
    REQF(nm, final, Same(r.final_energy, s1 ? e1 : e2)); \
    REQF(nm, state, Eq(V(r.optimized_state), s1 ? ev.at[1] : s2 ? ev.at[2] : ev.at[2] - lr * g2)); \
    double e = e0; double s = ev.at[0]; if (e1 < e) { e = e1; s = ev.at[1]; } if (!s1 && e2 < e) { e = e2; s = ev.at[2]; } \
    REQF(nm, lowest, Same(r.min_energy, e)); }
STOP(stop_energy, t, 0, 100, __builtin_fabs(e1 - e0) < t, __builtin_fabs(e2 - e1) < t)
STOP(stop_gradient, 0, t, 100, Nrm(g1) < t, Nrm(g2) < t)
STOP(stop_plateau1, 0, 0, 1, !(e1 < e0), e1 < e0 && !(e2 < e1))
STOP_(stop_plateau2, 0, 0, 2, false, !(e1 < e0) && !(e2 < e0), e1 < e0, e2 < e0)
STOP(stop_patience0, 0, 0, 0, true, true)
OB(stop_any, double th, double lr, double e0, double g0, double r0, double e1, double g1, double r1, double et, double gt, size_t pp) {
  SPLIT(0, Nrm(g1) < gt); SPLIT(1, __builtin_fabs(e1 - e0) < et); SPLIT(2, e1 < e0);
  StartRun(); FIN(e0); FIN(e1); Call(0, e0, g0, r0); Call(1, e1, g1, r1);
  Opt o(Stop(2, lr, et, gt, pp), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  const bool s = Nrm(g1) < gt || __builtin_fabs(e1 - e0) < et || (e1 < e0 ? 0u : 1u) >= pp;
  REQF(stop_any, converged, r.converged == s);
  REQF(stop_any, state, Eq(V(r.optimized_state), s ? ev.at[1] : ev.at[1] - lr * g1));
}
OB(stop_first, double th, double lr, double e0, double g0, double r0, double et, double gt, size_t pp) {      // one step is always made
  StartRun(); FIN(e0); Call(0, e0, g0, r0);
  Opt o(Stop(1, lr, et, gt, pp), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQ(stop_first, !r.converged && Eq(V(r.optimized_state), th - lr * g0));
}
// ---- callbacks
struct Seen { int n_it, n_low, n_stop, order; size_t it[4]; double e[4], err[4], g[4], lowe[4], low[4]; size_t sit[4]; double se[4], serr[4]; bool ans[4]; };
static Seen seen;
struct OnIt { void operator()(size_t i, double e, double r, double g) const { const int k = seen.n_it++; if (k >= 4) qlv_model_overflow(); seen.it[k] = i; seen.e[k] = e; seen.err[k] = r; seen.g[k] = g; } };
struct OnLow { void operator()(const W &w, double e) const { const int k = seen.n_low++; if (k >= 4) qlv_model_overflow(); seen.low[k] = V(w); seen.lowe[k] = e; } };
struct OnStop { bool operator()(size_t i, double e, double r) const { const int k = seen.n_stop++; if (k >= 4) qlv_model_overflow(); seen.sit[k] = i; seen.se[k] = e; seen.serr[k] = r; return seen.ans[k]; } };
static inline Opt::OptimizationCallback Cb(bool it, bool low, bool stop) { seen.n_it = seen.n_low = seen.n_stop = 0; Opt::OptimizationCallback c; if (it) c.on_iteration = OnIt(); if (low) c.on_lowest_state_found = OnLow(); if (stop) c.should_stop = OnStop(); return c; }
OB(cb_iteration, A3) {
  StartRun(); CALLS3; Opt o(Sgd(3, lr, 0, false, 0), C_, 0, 1);
  o.IterativeOptimize(St(th), Full(), Cb(true, false, false));
  REQF(cb_iteration, count, seen.n_it == 3 && seen.it[0] == 0 && seen.it[1] == 1 && seen.it[2] == 2);
  REQF(cb_iteration, energy, Same(seen.e[0], e0) && Same(seen.e[1], e1) && Same(seen.e[2], e2));
  REQF(cb_iteration, error, Same(seen.err[0], r0) && Same(seen.err[1], r1) && Same(seen.err[2], r2));
  REQF(cb_iteration, norm, Same(seen.g[0], Nrm(g0)) && Same(seen.g[1], Nrm(g1)) && Same(seen.g[2], Nrm(g2)));
}
OB(cb_lowest, double th, double lr, double e0, double g0, double r0, double e1, double g1, double r1) {
  StartRun(); FIN(e0); FIN(e1); Call(0, e0, g0, r0); Call(1, e1, g1, r1); Opt o(Sgd(2, lr, 0, false, 0), C_, 0, 1);
  o.IterativeOptimize(St(th), Full(), Cb(false, true, false));
  REQF(cb_lowest, first, seen.n_low >= 1 && Same(seen.lowe[0], e0) && Same(seen.low[0], th));
  REQF(cb_lowest, count, seen.n_low == (e1 < e0 ? 2 : 1));
  REQF(cb_lowest, second, !(e1 < e0) || (Same(seen.lowe[1], e1) && Same(seen.low[1], ev.at[1])));
}
OB(cb_stop, A3, bool b0, bool b1) {
  StartRun(); CALLS3; Opt o(Sgd(3, lr, 0, false, 0), C_, 0, 1);
  seen.ans[0] = b0; seen.ans[1] = b1; seen.ans[2] = false;
  auto r = o.IterativeOptimize(St(th), Full(), Cb(false, false, true));
  const int n = b0 ? 1 : b1 ? 2 : 3;
  REQF(cb_stop, count, ev.n == n && seen.n_stop == n && r.total_iterations == (size_t)n && !r.converged);
  REQF(cb_stop, args, seen.sit[0] == 0 && Same(seen.se[0], e0) && Same(seen.serr[0], r0) && (n < 2 || (seen.sit[1] == 1 && Same(seen.se[1], e1) && Same(seen.serr[1], r1))));
  REQF(cb_stop, state, Eq(V(r.optimized_state), n == 1 ? th - lr * g0 : n == 2 ? ev.at[1] - lr * g1 : ev.at[2] - lr * g2));
}
// ---- a second run of the same optimizer
OB(again_same, double th, double lr, double mu, double wd, double e0, double g0, double r0, double e1, double g1, double r1) {
  ASSUME(mu > 0); ASSUME(wd > 0); FIN(e0); FIN(e1);
  StartRun(); Call(0, e0, g0, r0); Call(1, e1, g1, r1); Call(2, e0, g0, r0); Call(3, e1, g1, r1);
  Opt o(Sgd(2, lr, mu, true, wd), C_, 0, 1);
  auto a = o.IterativeOptimize(St(th), Full()); auto b = o.IterativeOptimize(St(th), Full());
  REQF(again_same, state, Eq(V(a.optimized_state), V(b.optimized_state)) && Eq(V(a.lowest_state), V(b.lowest_state)));
  REQF(again_same, energy, Same(a.final_energy, b.final_energy) && Same(a.min_energy, b.min_energy) && a.total_iterations == b.total_iterations && a.converged == b.converged);
  REQF(again_same, traj, b.energy_trajectory.size() == 2 && b.gradient_norms.size() == 2);
}
// ---- other ranks
OB(worker_stop, double th, double lr, double e0, double e1, double e2, double g, double r, int f1, int f2, double et, double gt, size_t pp) {
  SPLIT(0, f1 == 1); StartRun(1, 2); FIN(e0); FIN(e1); FIN(e2); Call(0, e0, g, r); Call(1, e1, g, r); Call(2, e2, g, r);
  ASSUME(f1 == 0 || f1 == 1); co.ints[0] = f1; co.ints[1] = f2;
  Opt o(Stop(3, lr, et, gt, pp), C_, 1, 2); auto q = o.IterativeOptimize(St(th), Full());
  REQF(worker_stop, evals, ev.n == (f1 ? 2 : 3) && co.n == (f1 ? 1 : 2));
  REQF(worker_stop, energy, Same(q.final_energy, f1 ? e1 : e2) && q.total_iterations == (f1 ? 2u : 3u));
}
OB(worker_master, double th, double lr, double e0, double g0, double r0, double e1, double g1, double r1, double et, double gt, size_t pp) {   // what the master broadcasts is its own decision
  StartRun(0, 2); FIN(e0); FIN(e1); Call(0, e0, g0, r0); Call(1, e1, g1, r1);
  Opt o(Stop(2, lr, et, gt, pp), C_, 0, 2); auto r = o.IterativeOptimize(St(th), Full());
  const bool s = Nrm(g1) < gt || __builtin_fabs(e1 - e0) < et || (e1 < e0 ? 0u : 1u) >= pp;
  REQF(worker_master, sent, co.n == 1 && co.ints[0] == (s ? 1 : 0) && r.converged == s);
}
