//@@ flat
#include "optimizer_sr.h"
//@ ini_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize (initial step selector) -- candidates eta, 2 eta, ... k eta are measured; the lowest energy wins and stays the base rate
//@ per_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize (periodic step selector) -- eta against eta/2 every n steps; early: lower energy wins, late: only an improvement above one sigma
//@ bad_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize (selector checks) -- unusable configurations and measurements are rejected before any update
//@ mpi_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize (selectors) -- all ranks measure the same candidates and use the master's choice
static inline OptimizerParams Ini(OptimizerParams p, size_t k, bool det = true) { p.base_params.initial_step_selector.enabled = true; p.base_params.initial_step_selector.max_line_search_steps = k; p.base_params.initial_step_selector.enable_in_deterministic = det; return p; }
static inline OptimizerParams Per(OptimizerParams p, size_t n, double ratio, bool det = true) { p.base_params.periodic_step_selector.enabled = true; p.base_params.periodic_step_selector.every_n_steps = n; p.base_params.periodic_step_selector.phase_switch_ratio = ratio; p.base_params.periodic_step_selector.enable_in_deterministic = det; return p; }
static inline void Cand(int k, double e, double err) { ev.eo[k] = e; ev.eoerr[k] = err; }
#define FINI(x) ASSUME(__builtin_isfinite(x))
#define NOCB Opt::OptimizationCallback()
#define ONLY nullptr, nullptr, nullptr, Only()
OB(ini_three, double th, double lr, double e, double g, double err, double c1, double c2, double c3) {
  ASSUME(lr > 0); FINI(c1); FINI(c2); FINI(c3); SPLIT(0, c2 < c1); SPLIT(1, c3 < c1); SPLIT(2, c3 < c2);
  StartRun(); Call(0, e, g, err); Cand(0, c1, 0.5); Cand(1, c2, 0.5); Cand(2, c3, 0.5);
  Opt o(Ini(Sgd(1, lr, 0, false, 0), 3), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY);
  REQF(ini_three, trials, ev.n == 1 && ev.n_eo == 3 && Eq(ev.eoat[0], th - lr * g) && Eq(ev.eoat[1], th - 2 * lr * g) && Eq(ev.eoat[2], th - 3 * lr * g));
  double best = c1, w = 1; if (c2 < best) { best = c2; w = 2; } if (c3 < best) w = 3;
  REQF(ini_three, step, Eq(V(r.optimized_state), th - w * lr * g));
  REQF(ini_three, rate, r.learning_rate_trajectory.size() == 1 && Eq(r.learning_rate_trajectory[0], w * lr));
  REQF(ini_three, energy, Same(r.final_energy, e) && r.energy_trajectory.size() == 1);
}
OB(ini_one, double th, double lr, double e, double g, double err, double c1) {
  ASSUME(lr > 0); FINI(c1); StartRun(); Call(0, e, g, err); Cand(0, c1, 0.5);
  Opt o(Ini(Sgd(1, lr, 0, false, 0), 1), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY);
  REQ(ini_one, ev.n_eo == 1 && Eq(V(r.optimized_state), th - lr * g));
}
OB(ini_full, double th, double lr, double e, double g, double err, double c1, double h1, double c2, double h2) {      // without an energy-only evaluator the full one is used
  ASSUME(lr > 0); FINI(c1); FINI(c2); ASSUME(c2 < c1); StartRun(); Call(0, e, g, err); Call(1, c1, h1, 0.5); Call(2, c2, h2, 0.5);
  Opt o(Ini(Sgd(1, lr, 0, false, 0), 2), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(ini_full, trials, ev.n == 3 && Eq(ev.at[1], th - lr * g) && Eq(ev.at[2], th - 2 * lr * g));
  REQF(ini_full, step, Eq(V(r.optimized_state), th - 2 * lr * g) && r.energy_trajectory.size() == 1 && Same(r.energy_trajectory[0], e));
}
OB(ini_keep, double th, double lr, double e0, double g0, double e1, double g1, double c1, double c2) {     // the choice holds for the later steps; one selection only
  ASSUME(lr > 0); FINI(c1); FINI(c2); ASSUME(c2 < c1); StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1); Cand(0, c1, 0.5); Cand(1, c2, 0.5);
  Opt o(Ini(Sgd(2, lr, 0, false, 0), 2), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY);
  REQ(ini_keep, ev.n == 2 && ev.n_eo == 2 && Eq(V(r.optimized_state), th - 2 * lr * g0 - 2 * lr * g1) && Eq(r.learning_rate_trajectory[1], 2 * lr));
}
#define PREVIEW(nm, NEST, want) \
  OB(nm, double th, double lr, double mu, double wd, double e, double g, double c1, double c2) {     /* a trial is the step that would be made; trials leave no trace in the velocity */ \
    ASSUME(lr > 0); ASSUME(mu > 0); ASSUME(wd > 0); FINI(c1); FINI(c2); ASSUME(c2 < c1); StartRun(); Call(0, e, g, 1); Cand(0, c1, 0.5); Cand(1, c2, 0.5); \
    Opt o(Ini(Sgd(1, lr, mu, NEST, wd), 2), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY); \
    const double d1 = 1 - lr * wd, d2 = 1 - 2 * lr * wd, u = (want); \
    REQF(nm, trials, Eq(ev.eoat[0], th * d1 - lr * u) && Eq(ev.eoat[1], th * d2 - 2 * lr * u)); \
    REQF(nm, step, Eq(V(r.optimized_state), th * d2 - 2 * lr * u)); }
PREVIEW(ini_momentum, false, g)
PREVIEW(ini_nesterov, true, mu * g + g)
OB(ini_clip, double th, double lr, double e, double g, double c1, double cv) {      // candidates use the clipped gradient, as the step does
  ASSUME(lr > 0); ASSUME(cv > 0); FINI(c1); StartRun(); Call(0, e, g, 1); Cand(0, c1, 0.5);
  OptimizerParams p = Ini(Sgd(1, lr, 0, false, 0), 1); p.base_params.clip_value = cv;
  Opt o(p, C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY);
  REQ(ini_clip, Eq(ev.eoat[0], th - lr * qlv_uf_clipv(g, cv)) && Eq(V(r.optimized_state), th - lr * qlv_uf_clipv(g, cv)));
}
OB(ini_sr, double th, double lr, double e, double g, double x, double c1, double c2, bool norm) {     // one solve for all candidates and the step
  ASSUME(lr > 0); FINI(c1); FINI(c2); SPLIT(0, c2 < c1); SPLIT(1, norm); SPLIT(2, Nrm(x) > 0); StartRun(); Call(0, e, g, 1); Cand(0, c1, 0.5); Cand(1, c2, 0.5); Cg(x, 9); const Ws s = Samples(1, 2); const W mean = St(3);
  Opt o(Ini(Sr(1, lr, 0.1, norm), 2), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, &s, &mean, nullptr, Only());
  const double f = norm && Nrm(x) > 0 ? x / Nrm(x) : x, w = c2 < c1 ? 2 : 1;
  REQF(ini_sr, trials, cg.n == 1 && Eq(ev.eoat[0], th - lr * f) && Eq(ev.eoat[1], th - 2 * lr * f));
  REQF(ini_sr, step, Eq(V(r.optimized_state), th - w * lr * f));
}
// ---- periodic
#define PERA double th, double lr, double e0, double g0, double e1, double g1, double c1, double c2, double r1, double r2
#define PERB(nm, it, ratio) ASSUME(lr > 0); ASSUME(!(lr * 0.5 <= 0)); FINI(c1); FINI(c2); FINI(r1); FINI(r2); StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1); Cand(0, c1, r1); Cand(1, c2, r2); \
  Opt o(Per(Sgd(2, lr, 0, false, 0), 1, ratio), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY); \
  const double t1 = th - lr * g0; \
  REQF(nm, trials, ev.n == 2 && ev.n_eo == 2 && Eq(ev.at[1], t1) && Eq(ev.eoat[0], t1 - lr * g1) && Eq(ev.eoat[1], t1 - 0.5 * lr * g1))
OB(per_early, PERA) { SPLIT(0, c2 < c1); PERB(per_early, 2, 1.0); const double w = c2 < c1 ? 0.5 : 1; REQF(per_early, step, Eq(V(r.optimized_state), t1 - w * lr * g1) && Eq(r.learning_rate_trajectory[1], w * lr)); }
OB(per_late, PERA) { SPLIT(0, r1 < r2); SPLIT(1, c1 - c2 > (r1 < r2 ? r2 : r1)); PERB(per_late, 2, 0.0); const double w = c1 - c2 > (r1 < r2 ? r2 : r1) ? 0.5 : 1; REQF(per_late, step, Eq(V(r.optimized_state), t1 - w * lr * g1)); }
OB(per_every, double th, double lr, double e0, double g0, double e1, double g1, double e2, double g2, double c1, double c2) {    // every second step: not at 0 and 1, at 2; the halved rate remains
  ASSUME(lr > 0); ASSUME(!(lr * 0.5 <= 0)); FINI(c1); FINI(c2); ASSUME(c2 < c1); StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1); Call(2, e2, g2, 1); Cand(0, c1, 1); Cand(1, c2, 1);
  Opt o(Per(Sgd(3, lr, 0, false, 0), 2, 1.0), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY);
  REQ(per_every, ev.n == 3 && ev.n_eo == 2 && Eq(V(r.optimized_state), th - lr * g0 - lr * g1 - 0.5 * lr * g2));
}
OB(per_boundary, double th, double lr, double e0, double g0, double e1, double g1, double c1, double c2) {      // iteration 1 of 4 with ratio 1/4: already late
  ASSUME(lr > 0); ASSUME(!(lr * 0.5 <= 0)); FINI(c1); FINI(c2); ASSUME(c2 < c1); ASSUME(!(c1 - c2 > 1.0)); StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1); Cand(0, c1, 1); Cand(1, c2, 1);
  Opt o(Per(Sgd(2, lr, 0, false, 0), 1, 0.5), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY);
  REQ(per_boundary, Eq(V(r.optimized_state), th - lr * g0 - lr * g1));
}
OB(per_keep, double th, double lr, double e0, double g0, double e1, double g1, double e2, double g2, double c1, double c2) {
  ASSUME(lr > 0); ASSUME(!(lr * 0.5 <= 0)); ASSUME(!(lr * 0.25 <= 0)); FINI(c1); FINI(c2); ASSUME(c2 < c1); StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1); Call(2, e2, g2, 1); Cand(0, c1, 1); Cand(1, c2, 1); Cand(2, c1, 1); Cand(3, c2, 1);
  Opt o(Per(Sgd(3, lr, 0, false, 0), 1, 1.0), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY);
  REQ(per_keep, ev.n == 3 && ev.n_eo == 4 && Eq(V(r.optimized_state), th - lr * g0 - 0.5 * lr * g1 - 0.25 * lr * g2));
}
#define PERM(nm, NEST, u1, u2) OB(nm, double th, double lr, double mu, double e0, double g0, double e1, double g1, double c1, double c2) {     /* trials and step use the same velocity */ \
    ASSUME(lr > 0); ASSUME(!(lr * 0.5 <= 0)); ASSUME(mu > 0); FINI(c1); FINI(c2); SPLIT(0, c2 < c1); StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1); Cand(0, c1, 1); Cand(1, c2, 1); \
    Opt o(Per(Sgd(2, lr, mu, NEST, 0), 1, 1.0), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY); \
    const double v = mu * g0 + g1, w = c2 < c1 ? 0.5 : 1, t1 = th - lr * (u1), u = (u2); \
    REQF(nm, trials, ev.n_eo == 2 && Eq(ev.at[1], t1) && Eq(ev.eoat[0], t1 - lr * u) && Eq(ev.eoat[1], t1 - 0.5 * lr * u)); \
    REQF(nm, step, Eq(V(r.optimized_state), t1 - w * lr * u)); }
PERM(per_momentum, false, g0, v)
PERM(per_nesterov, true, mu * g0 + g0, mu * v + g1)
// ---- rejected
#define BAD(nm, pars, ...) OBC(nm, double th, double lr, double e, double g, double x __VA_ARGS__) { \
    StartRun(); Call(0, e, g, x); bool threw = false; Cand(0, 1, 1); Cand(1, 1, 1); OptimizerParams p = pars; Opt o(p, C_, 0, 1); \
    try { o.IterativeOptimize(St(th), Full(), NOCB, ONLY); } catch (...) { threw = true; } \
    REQ(nm, threw && ev.n == 0 && ev.n_eo == 0); }
static inline OptimizerParams WithSched(OptimizerParams p) { p.base_params.lr_scheduler.reset(new ProbeLR(1)); return p; }
static inline OptimizerParams Lb(OptimizerParams p) { p.algorithm_params = LBFGSParams(); return p; }
static inline OptimizerParams Am(OptimizerParams p) { p.algorithm_params = AdamParams(); return p; }
BAD(bad_algorithm_adagrad, Ini(Ada(1, 0.1, 0.1, 0.1), 2))
BAD(bad_algorithm_adam, Ini(Am(Sgd(1, 0.1, 0, false, 0)), 2))
BAD(bad_algorithm_lbfgs, Per(Lb(Sgd(1, 0.1, 0, false, 0)), 2, 0.5))
BAD(bad_scheduler, WithSched(Ini(Sgd(1, 0.1, 0, false, 0), 2)))
BAD(bad_scheduler_per, WithSched(Per(Sgd(1, 0.1, 0, false, 0), 2, 0.5)))
BAD(bad_steps, Ini(Sgd(1, 0.1, 0, false, 0), 0))
BAD(bad_every, Per(Sgd(1, 0.1, 0, false, 0), 0, 0.5))
BAD(bad_ratio_low, Per(Sgd(1, 0.1, 0, false, 0), 2, -0.01))
BAD(bad_ratio_high, Per(Sgd(1, 0.1, 0, false, 0), 2, 1.01))
BAD(bad_rate_zero, Ini(Sgd(1, 0.0, 0, false, 0), 2))
BAD(bad_rate_negative, Per(Sgd(1, -0.1, 0, false, 0), 2, 0.5))
OBC(bad_noerror_ini, double th, double lr, double e, double g, double err) {      // an evaluator without error bars is refused unless allowed
  ASSUME(lr > 0); ASSUME(err <= 0); StartRun(); Call(0, e, g, err); Cand(0, 1, 1); bool threw = false; Opt o(Ini(Sgd(1, lr, 0, false, 0), 1, false), C_, 0, 1);
  try { o.IterativeOptimize(St(th), Full(), NOCB, ONLY); } catch (...) { threw = true; }
  REQ(bad_noerror_ini, threw && ev.n_eo == 0);
}
OB(bad_error_ini, double th, double lr, double e, double g, double err) {
  ASSUME(lr > 0); ASSUME(err > 0); StartRun(); Call(0, e, g, err); Cand(0, 1, 1); Opt o(Ini(Sgd(1, lr, 0, false, 0), 1, false), C_, 0, 1);
  o.IterativeOptimize(St(th), Full(), NOCB, ONLY); REQ(bad_error_ini, ev.n_eo == 1);
}
OBC(bad_noerror_per, double th, double lr, double e0, double g0, double e1, double g1, double err) {
  ASSUME(lr > 0); ASSUME(err <= 0); StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, err); Cand(0, 1, 1); Cand(1, 1, 1); bool threw = false; Opt o(Per(Sgd(2, lr, 0, false, 0), 1, 0.5, false), C_, 0, 1);
  try { o.IterativeOptimize(St(th), Full(), NOCB, ONLY); } catch (...) { threw = true; }
  REQ(bad_noerror_per, threw && ev.n_eo == 0 && ev.n == 2);
}
OBC(bad_energy, double th, double lr, double e, double g, double c, double err) {
  ASSUME(lr > 0); ASSUME(!__builtin_isfinite(c)); StartRun(); Call(0, e, g, 1); Cand(0, 1.0, 1); Cand(1, c, err); bool threw = false; Opt o(Ini(Sgd(1, lr, 0, false, 0), 3), C_, 0, 1);
  try { o.IterativeOptimize(St(th), Full(), NOCB, ONLY); } catch (...) { threw = true; }
  REQ(bad_energy, threw && ev.n_eo == 2);
}
OBC(bad_error, double th, double lr, double e, double g, double c, double err) {
  ASSUME(lr > 0); ASSUME(!__builtin_isfinite(err)); StartRun(); Call(0, e, g, 1); Cand(0, c, err); bool threw = false; Opt o(Ini(Sgd(1, lr, 0, false, 0), 2), C_, 0, 1);
  try { o.IterativeOptimize(St(th), Full(), NOCB, ONLY); } catch (...) { threw = true; }
  REQ(bad_error, threw && ev.n_eo == 1);
}
// ---- other ranks
OB(mpi_worker, double th, double lr, double e, double g, double err, double c1, double c2, double eta) {
  ASSUME(lr > 0); FINI(c1); FINI(c2); StartRun(1, 2); Call(0, e, g, err); Cand(0, c1, 0); Cand(1, c2, 0); co.ints[0] = 0; co.dbl[3] = eta;
  Opt o(Ini(Sgd(1, lr, 0, false, 0), 2, false), C_, 1, 2); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY);
  REQF(mpi_worker, same, ev.n_eo == 2 && co.n == 4);
  REQF(mpi_worker, rate, Same(r.learning_rate_trajectory[0], eta) && Same(V(r.optimized_state), th));
}
OB(mpi_master, double th, double lr, double e, double g, double c1, double c2) {
  ASSUME(lr > 0); FINI(c1); FINI(c2); ASSUME(c2 < c1); StartRun(0, 2); Call(0, e, g, 1); Cand(0, c1, 1); Cand(1, c2, 1);
  Opt o(Ini(Sgd(1, lr, 0, false, 0), 2, false), C_, 0, 2); auto r = o.IterativeOptimize(St(th), Full(), NOCB, ONLY);
  REQ(mpi_master, co.n == 4 && co.ints[0] == 0 && Eq(co.dbl[3], 2 * lr) && Eq(V(r.optimized_state), th - 2 * lr * g));
}
OBC(mpi_failure, double th, double lr, double e, double g, double c1) {     // a failure on any rank stops all of them
  ASSUME(lr > 0); FINI(c1); StartRun(0, 2); Call(0, e, g, 1); Cand(0, c1, 1); qlv_other_flags = 1; bool threw = false;
  Opt o(Ini(Sgd(1, lr, 0, false, 0), 2, false), C_, 0, 2);
  try { o.IterativeOptimize(St(th), Full(), NOCB, ONLY); } catch (...) { threw = true; }
  REQ(mpi_failure, threw && ev.n_eo == 1 && co.n == 2);
}
OBC(mpi_missing, double th, double lr, double e, double g, double err) {    // a missing error bar is known on the master only; the others throw with it
  ASSUME(lr > 0); StartRun(1, 2); Call(0, e, g, err); co.ints[0] = 1; bool threw = false; Opt o(Ini(Sgd(1, lr, 0, false, 0), 2, false), C_, 1, 2);
  try { o.IterativeOptimize(St(th), Full(), NOCB, ONLY); } catch (...) { threw = true; }
  REQ(mpi_missing, threw && ev.n_eo == 0 && co.n == 1);
}
