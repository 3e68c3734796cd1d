//@@ flat
#include "optimizer_sr.h"
//@ sr_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::StochasticReconfigurationUpdate -- theta -= eta x with (S + shift) x = g, x normalised on request; unclipped gradient
//@ ng_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::CalculateNaturalGradient -- the linear problem handed to the solver and the treatment of its outcome
//@ s3_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::DetectS3_ -- natural gradient norm above factor_ngrad times its running mean, or suspiciously few CG iterations
OB(sr_step, double th, double lr, double e, double g, double err, double shift, double x, size_t it, double a, double b, double m) {
  StartRun(); Call(0, e, g, err); Cg(x, it); const Ws s = Samples(a, b); const W mean = St(m);
  Opt o(Sr(1, lr, shift, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), Opt::OptimizationCallback(), &s, &mean);
  REQF(sr_step, solver, cg.n == 1 && Same(cg.rhs, g) && Same(cg.shift, shift) && cg.samples == &s && cg.mean == &mean && cg.ranks == 1 && cg.comm == C_);
  REQF(sr_step, guess, cg.guess == 0.0);
  REQF(sr_step, law, Eq(V(r.optimized_state), th - lr * x));
}
OB(sr_normalized, double th, double lr, double e, double g, double err, double x, double a, double b, double m) {
  SPLIT(0, Nrm(x) > 0); StartRun(); Call(0, e, g, err); Cg(x, 9); const Ws s = Samples(a, b); const W mean = St(m);
  Opt o(Sr(1, lr, 0.1, true), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), Opt::OptimizationCallback(), &s, &mean);
  REQ(sr_normalized, Eq(V(r.optimized_state), Nrm(x) > 0 ? th - lr / Nrm(x) * x : th - lr * x));
}
OB(sr_noclip, double th, double lr, double e, double g, double err, double x, double a, double b, double m, double cv, double cn) {
  ASSUME(cv > 0); ASSUME(cn > 0);
  StartRun(); Call(0, e, g, err); Cg(x, 9); const Ws s = Samples(a, b); const W mean = St(m);
  OptimizerParams p = Sr(1, lr, 0.1, false); p.base_params.clip_value = cv; p.base_params.clip_norm = cn;
  Opt o(p, C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), Opt::OptimizationCallback(), &s, &mean);
  REQ(sr_noclip, Same(cg.rhs, g) && Eq(V(r.optimized_state), th - lr * x));
}
OB(sr_two, double th, double lr, double e0, double g0, double e1, double g1, double x0, double x1, double a, double b, double m) {
  StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1); Cg(x0, 9); cg.x2 = x1; const Ws s = Samples(a, b); const W mean = St(m);
  Opt o(Sr(2, lr, 0.1, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), Opt::OptimizationCallback(), &s, &mean);
  REQF(sr_two, solver, cg.n == 2 && Same(cg.rhs, g1) && Same(cg.shift, 0.1));
  REQF(sr_two, law, Eq(ev.at[1], th - lr * x0) && Eq(V(r.optimized_state), th - lr * x0 - lr * x1));
}
OBC(sr_missing, double th, double lr, double e, double g, bool hs) {      // without samples or mean there is no step
  StartRun(); Call(0, e, g, 1); Cg(1, 9); const Ws s = Samples(1, 2); const W mean = St(3);
  bool threw = false; Opt o(Sr(1, lr, 0.1, false), C_, 0, 1);
  try { o.IterativeOptimize(St(th), Full(), Opt::OptimizationCallback(), hs ? &s : nullptr, hs ? nullptr : &mean); } catch (...) { threw = true; }
  REQ(sr_missing, threw && cg.n == 0);
}
OB(sr_direct, double th, double lr, double g, double gs, double x, double rs, size_t it, bool norm, double a, double b, double m) {    // the public update
  SPLIT(0, Nrm(x) > 0); SPLIT(1, norm); StartRun(); Cg(x, it); cg.resid = rs; const Ws s = Samples(a, b); const W mean = St(m);
  Opt o(Sr(1, lr, 0.1, false), C_, 0, 1); auto r = o.StochasticReconfigurationUpdate(St(th), St(g), s, mean, lr, St(gs), norm);
  REQF(sr_direct, solver, cg.n == 1 && Same(cg.rhs, g) && Same(cg.guess, gs));
  REQF(sr_direct, diag, Same(std::get<1>(r), Nrm(x)) && std::get<2>(r) == it && Same(std::get<3>(r), rs));
  REQF(sr_direct, law, Eq(V(std::get<0>(r)), norm && Nrm(x) > 0 ? th - lr / Nrm(x) * x : th - lr * x));
}
OB(sr_worker, double th, double lr, double g, double x, double a, double b, double m) {
  StartRun(1, 3); Cg(x, 9); co.ints[0] = 0; const Ws s = Samples(a, b); const W mean = St(m);
  Opt o(Sr(1, lr, 0.1, false), C_, 1, 3); auto r = o.StochasticReconfigurationUpdate(St(th), St(g), s, mean, lr, St(0), false);
  REQF(sr_worker, solver, cg.n == 1 && cg.mean == nullptr && cg.samples == &s && cg.ranks == 3 && cg.comm == C_);
  REQF(sr_worker, state, Same(V(std::get<0>(r)), th));
}
#define OUTCOME(nm, rk, own, told, ok) \
  OBC(nm, double g, double x, double rs, size_t it, double a, double b, double m) { \
    StartRun(rk, 2); Cg(x, it, CGTerminationReason::own); cg.resid = rs; co.ints[0] = (int)CGTerminationReason::told; const Ws s = Samples(a, b); const W mean = St(m); \
    Opt o(Sr(1, 0.1, 0.1, false), C_, rk, 2); bool threw = false; double got = 0; size_t n = 0; double gr = 0; \
    try { auto r = o.CalculateNaturalGradient(St(g), s, mean, St(0)); got = V(std::get<0>(r)); n = std::get<1>(r); gr = std::get<2>(r); } catch (...) { threw = true; } \
    REQF(nm, outcome, threw == !(ok) && co.n == 1 && co.ints[0] == (int)CGTerminationReason::told); \
    END_##ok(nm) }
#define END_true(nm) REQF(nm, result, Same(got, x) && n == it && Same(gr, rs));
#define END_false(nm)
OUTCOME(ng_converged, 0, kConverged, kConverged, true)
OUTCOME(ng_max, 0, kMaxIterations, kMaxIterations, true)
OUTCOME(ng_stagnated, 0, kStagnated, kStagnated, true)
OUTCOME(ng_indefinite, 0, kIndefiniteMatrix, kIndefiniteMatrix, false)
OUTCOME(ng_breakdown, 0, kNumericalBreakdown, kNumericalBreakdown, false)
OUTCOME(ng_worker_ok, 1, kIndefiniteMatrix, kConverged, true)
OUTCOME(ng_worker_max, 1, kConverged, kMaxIterations, true)
OUTCOME(ng_worker_indefinite, 1, kConverged, kIndefiniteMatrix, false)
OUTCOME(ng_worker_breakdown, 1, kConverged, kNumericalBreakdown, false)
// ---- S3
#define S3A double th, double lr, double g, double e0, double e1, double e2, double x0, double x1, size_t i0, size_t i1, double fn, size_t few
#define S3B(nm, retries) StartRun(); Call(0, e0, g, 1); Call(1, e1, g, 1); Call(2, e2, g, 1); Cg(x0, i0); cg.x2 = x1; cg.iters2 = i1; const Ws s = Samples(1, 2); const W mean = St(3); \
  OptimizerParams p = Sr(2, lr, 0.1, false); auto &sp = p.spike_recovery_params; sp.enable_auto_recover = true; sp.redo_mc_max_retries = retries; sp.factor_err = 1.0; sp.factor_grad = 1.0; sp.factor_ngrad = fn; sp.sr_min_iters_suspicious = few; \
  Opt o(p, C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full(), Opt::OptimizationCallback(), &s, &mean)
OB(s3_none, S3A) {
  SPLIT(0, Nrm(x0) > 0); if (Nrm(x0) > 0) ASSUME(!(Nrm(x1) > fn * Nrm(x0))); ASSUME(i1 > few); S3B(s3_none, 2);
  REQF(s3_none, evals, ev.n == 2 && cg.n == 2 && r.spike_stats.event_log.size() == 0);
  REQF(s3_none, state, Eq(V(r.optimized_state), th - lr * x0 - lr * x1));
}
OB(s3_norm, S3A) {
  ASSUME(Nrm(x0) > 0); ASSUME(Nrm(x1) > fn * Nrm(x0)); ASSUME(i1 > few); S3B(s3_norm, 1);        // the same again: accepted with a warning
  REQF(s3_norm, evals, ev.n == 3 && cg.n == 3 && Same(ev.at[2], ev.at[1]));
  REQF(s3_norm, stats, r.spike_stats.total_resamples == 1 && r.spike_stats.total_forced_accepts == 1 && r.spike_stats.total_rollbacks == 0 && r.spike_stats.event_log.size() == 2);
  REQF(s3_norm, event, r.spike_stats.event_log[0].signal == SpikeSignal::kS3_NaturalGradientAnomaly && r.spike_stats.event_log[0].step == 1 && r.spike_stats.event_log[0].attempt == 0 && Same(r.spike_stats.event_log[0].value, Nrm(x1)) && Same(r.spike_stats.event_log[0].threshold, fn * Nrm(x0)) && r.spike_stats.event_log[1].attempt == 1);
  REQF(s3_norm, state, Eq(V(r.optimized_state), th - lr * x0 - lr * x1) && r.energy_trajectory.size() == 2 && Same(r.final_energy, e2));
}
OB(s3_few, S3A) {
  ASSUME(!(Nrm(x1) > fn * Nrm(x0))); ASSUME(i1 <= few); S3B(s3_few, 0);
  REQF(s3_few, evals, ev.n == 2 && cg.n == 2);
  REQF(s3_few, stats, r.spike_stats.total_resamples == 0 && r.spike_stats.total_forced_accepts == 1 && r.spike_stats.event_log.size() == 1 && r.spike_stats.event_log[0].signal == SpikeSignal::kS3_NaturalGradientAnomaly);
}
