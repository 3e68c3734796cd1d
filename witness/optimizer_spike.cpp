//@@ flat
#include "optimizer_first.h"
//@ s1_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::DetectS1S2_ -- an error bar above factor_err times its running mean is re-measured
//@ s2_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::DetectS1S2_ -- a gradient norm above factor_grad times its running mean is re-measured
//@ s3_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::DetectS3_ -- natural gradient norm above factor_ngrad times its running mean, or suspiciously few CG iterations
//@ s4_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::DetectS4_ -- an energy above mean + sigma_k std rolls back to the previous accepted state
//@ act_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::DecideAction_ -- resample while retries remain, then roll back if enabled and possible, else accept with a warning
//@ ema_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize -- only accepted measurements enter the running means
//@ off_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize -- detection is off when disabled and in the first iteration
//@ mpi_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::BroadcastAction_ -- all ranks take the action of the master
static inline double Nrm(double g) { return __builtin_sqrt(qlv_uf_nsq(g)); }
static inline OptimizerParams Sp(size_t it, double lr, size_t retries, double fe, double fg, bool rollback, bool recover = true) {
  OptimizerParams p = Sgd(it, lr, 0, false, 0); auto &s = p.spike_recovery_params;
  s.enable_auto_recover = recover; s.redo_mc_max_retries = retries; s.factor_err = fe; s.factor_grad = fg; s.enable_rollback = rollback;
  return p;
}
static inline bool Rec(const SpikeEventRecord &e, size_t step, size_t attempt, SpikeSignal s, SpikeAction a) { return e.step == step && e.attempt == attempt && e.signal == s && e.action == a; }
// no gradient spike / no error spike in call k
#define Q2(k) ASSUME(!(Nrm(g##k) > fg * Nrm(g0)))
#define Q1(k) ASSUME(!(r##k > fe * r0))
#define A2 double th, double lr, double e0, double g0, double r0, double e1, double g1, double r1
#define A3 A2, double e2, double g2, double r2
#define A4 A3, double e3, double g3, double r3
#define C2 Call(0, e0, g0, r0); Call(1, e1, g1, r1)
#define C3 C2; Call(2, e2, g2, r2)
#define C4 C3; Call(3, e3, g3, r3)
#define STATS(nm, res, roll, forced) REQF(nm, stats, r.spike_stats.total_resamples == (res) && r.spike_stats.total_rollbacks == (roll) && r.spike_stats.total_forced_accepts == (forced) && r.spike_stats.event_log.size() == (res) + (roll) + (forced)); \
  REQF(nm, kept, o.GetSpikeStats().total_resamples == (res) && o.GetSpikeStats().total_rollbacks == (roll) && o.GetSpikeStats().total_forced_accepts == (forced) && o.GetSpikeStats().event_log.size() == (res) + (roll) + (forced))
OB(s1_none, A2, double fe, double fg) {
  ASSUME(!(r0 > 0 && r1 > fe * r0)); ASSUME(!(Nrm(g0) > 0 && Nrm(g1) > fg * Nrm(g0)));
  StartRun(); C2; Opt o(Sp(2, lr, 2, fe, fg, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(s1_none, evals, ev.n == 2 && r.energy_trajectory.size() == 2); STATS(s1_none, 0u, 0u, 0u);
  REQF(s1_none, state, Eq(V(r.optimized_state), th - lr * g0 - lr * g1));
}
OB(s1_retry, A3, double fe, double fg) {               // one spike, then a quiet measurement of the same state
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(!(r2 > fe * r0));
  Q2(2);
  StartRun(); C3; Opt o(Sp(2, lr, 2, fe, fg, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(s1_retry, evals, ev.n == 3 && Same(ev.at[2], ev.at[1]));
  REQF(s1_retry, traj, r.energy_trajectory.size() == 2 && Same(r.energy_trajectory[1], e2) && r.energy_error_trajectory.size() == 2 && Same(r.energy_error_trajectory[1], r2) && r.gradient_norms.size() == 2 && Same(r.gradient_norms[1], Nrm(g2)) && r.learning_rate_trajectory.size() == 2);
  REQF(s1_retry, state, Eq(V(r.optimized_state), th - lr * g0 - lr * g2) && r.total_iterations == 2 && Same(r.final_energy, e2));
  STATS(s1_retry, 1u, 0u, 0u);
  REQF(s1_retry, event, Rec(r.spike_stats.event_log[0], 1, 0, SpikeSignal::kS1_ErrorbarSpike, SpikeAction::kResample) && Same(r.spike_stats.event_log[0].value, r1) && Same(r.spike_stats.event_log[0].threshold, fe * r0));
}
OB(s1_lowest, A3, double fe, double fg) {              // the energy of a rejected measurement is nowhere in the result
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(!(r2 > fe * r0)); ASSUME(e0 < __DBL_MAX__); ASSUME(!(e2 < e0));
  Q2(2);
  StartRun(); C3; Opt o(Sp(2, lr, 2, fe, fg, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQ(s1_lowest, Same(r.min_energy, e0) && Same(V(r.lowest_state), th));
}
OB(s2_retry, A3, double fg, double fe) {
  ASSUME(Nrm(g0) > 0); ASSUME(Nrm(g1) > fg * Nrm(g0)); ASSUME(!(Nrm(g2) > fg * Nrm(g0)));
  Q1(1); Q1(2);
  StartRun(); C3; Opt o(Sp(2, lr, 2, fe, fg, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(s2_retry, evals, ev.n == 3 && Same(ev.at[2], ev.at[1])); STATS(s2_retry, 1u, 0u, 0u);
  REQF(s2_retry, state, Eq(V(r.optimized_state), th - lr * g0 - lr * g2) && Same(r.final_energy, e2));
  REQF(s2_retry, event, Rec(r.spike_stats.event_log[0], 1, 0, SpikeSignal::kS2_GradientNormSpike, SpikeAction::kResample) && Same(r.spike_stats.event_log[0].value, Nrm(g1)) && Same(r.spike_stats.event_log[0].threshold, fg * Nrm(g0)));
}
OB(s2_after_s1, A3, double fe, double fg) {     // both at once: reported as S1
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(Nrm(g0) > 0); ASSUME(Nrm(g1) > fg * Nrm(g0)); ASSUME(!(r2 > fe * r0)); ASSUME(!(Nrm(g2) > fg * Nrm(g0)));
  StartRun(); C3; Opt o(Sp(2, lr, 1, fe, fg, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  STATS(s2_after_s1, 1u, 0u, 0u);
  REQF(s2_after_s1, event, r.spike_stats.event_log[0].signal == SpikeSignal::kS1_ErrorbarSpike);
}
OB(act_exhaust, A4, double fe, double fg) {             // two retries allowed, three spikes: accepted with a warning
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(r2 > fe * r0); ASSUME(r3 > fe * r0);
  
  StartRun(); C4; Opt o(Sp(2, lr, 2, fe, fg, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(act_exhaust, evals, ev.n == 4 && Same(ev.at[2], ev.at[1]) && Same(ev.at[3], ev.at[1])); STATS(act_exhaust, 2u, 0u, 1u);
  REQF(act_exhaust, events, Rec(r.spike_stats.event_log[1], 1, 1, SpikeSignal::kS1_ErrorbarSpike, SpikeAction::kResample) && Rec(r.spike_stats.event_log[2], 1, 2, SpikeSignal::kS1_ErrorbarSpike, SpikeAction::kAcceptWithWarning));
  REQF(act_exhaust, state, Eq(V(r.optimized_state), th - lr * g0 - lr * g3) && Same(r.final_energy, e3));
}
OB(act_zero, A2, double fe, double fg) {
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0);
  
  StartRun(); C2; Opt o(Sp(2, lr, 0, fe, fg, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(act_zero, evals, ev.n == 2); STATS(act_zero, 0u, 0u, 1u);
  REQF(act_zero, state, Eq(V(r.optimized_state), th - lr * g0 - lr * g1) && Same(r.final_energy, e1));
}
OB(act_rollback, A3, double fe, double fg) {            // retries exhausted, rollback enabled: the previous accepted state is measured again and the run goes on from it
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(!(r2 > fe * r0));
  Q2(2);
  StartRun(); C3; Opt o(Sp(2, lr, 0, fe, fg, true), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(act_rollback, evals, ev.n == 3 && Same(ev.at[2], th)); STATS(act_rollback, 0u, 1u, 0u);
  REQF(act_rollback, event, Rec(r.spike_stats.event_log[0], 1, 0, SpikeSignal::kS1_ErrorbarSpike, SpikeAction::kRollback));
  REQF(act_rollback, state, Eq(V(r.optimized_state), th - lr * g2) && Same(r.final_energy, e2) && r.energy_trajectory.size() == 2);
}
OB(act_rollback_once, A3, double fe, double fg) {       // nothing left to roll back to: accepted with a warning
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(r2 > fe * r0);
  
  StartRun(); C3; Opt o(Sp(2, lr, 0, fe, fg, true), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(act_rollback_once, evals, ev.n == 3 && Same(ev.at[2], th)); STATS(act_rollback_once, 0u, 1u, 1u);
  REQF(act_rollback_once, state, Eq(V(r.optimized_state), th - lr * g2));
}
OB(act_rollback_again, A4, double e4, double g4, double r4, double fe, double fg) {   // the retries are renewed after a rollback
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(r2 > fe * r0); ASSUME(r3 > fe * r0); ASSUME(!(r4 > fe * r0));
  Q2(4);
  StartRun(); C4; Call(4, e4, g4, r4); Opt o(Sp(2, lr, 1, fe, fg, true), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(act_rollback_again, evals, ev.n == 5 && Same(ev.at[2], ev.at[1]) && Same(ev.at[3], th) && Same(ev.at[4], th)); STATS(act_rollback_again, 2u, 1u, 0u);
  REQF(act_rollback_again, event, Rec(r.spike_stats.event_log[0], 1, 0, SpikeSignal::kS1_ErrorbarSpike, SpikeAction::kResample) && Rec(r.spike_stats.event_log[1], 1, 1, SpikeSignal::kS1_ErrorbarSpike, SpikeAction::kRollback) && Rec(r.spike_stats.event_log[2], 1, 0, SpikeSignal::kS1_ErrorbarSpike, SpikeAction::kResample));
  REQF(act_rollback_again, state, Eq(V(r.optimized_state), th - lr * g4) && Same(r.final_energy, e4) && r.energy_trajectory.size() == 2);
}
OB(act_renew, A4, double e4, double g4, double r4, double e5, double g5, double r5, double fe, double fg) {   // and in the next iteration; quiet steps between
  const double a = 2.0 / 51.0, m = r0 + a * (r2 - r0), n = Nrm(g0) + a * (Nrm(g2) - Nrm(g0));
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(!(r2 > fe * r0)); ASSUME(m > 0); ASSUME(r3 > fe * m); ASSUME(!(r4 > fe * m));
  Q2(2); ASSUME(!(Nrm(g4) > fg * n));
  StartRun(); C4; Call(4, e4, g4, r4); Opt o(Sp(3, lr, 1, fe, fg, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(act_renew, evals, ev.n == 5 && Same(ev.at[2], ev.at[1]) && Same(ev.at[4], ev.at[3])); STATS(act_renew, 2u, 0u, 0u);
}
OB(ema_accepted, double th, double lr, double g, double e0, double r0, double e1, double r1, double e2, double r2, double e3, double r3, double fe) {            // means are built from accepted measurements only: the rejected r1 does not enter
  const double a = 2.0 / 51.0, m = r0 + a * (r2 - r0);
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(!(r2 > fe * r0)); ASSUME(!(m > 0 && r3 > fe * m));
  StartRun(); Call(0, e0, g, r0); Call(1, e1, g, r1); Call(2, e2, g, r2); Call(3, e3, g, r3); Opt o(Sp(3, lr, 2, fe, 1.0, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(ema_accepted, evals, ev.n == 4); STATS(ema_accepted, 1u, 0u, 0u);
}
OB(ema_accepted_spike, double th, double lr, double g, double e0, double r0, double e1, double r1, double e2, double r2, double e3, double r3, double e4, double r4, double fe) {
  const double a = 2.0 / 51.0, m = r0 + a * (r2 - r0);
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(!(r2 > fe * r0)); ASSUME(m > 0 && r3 > fe * m); ASSUME(!(r4 > fe * m));
  StartRun(); Call(0, e0, g, r0); Call(1, e1, g, r1); Call(2, e2, g, r2); Call(3, e3, g, r3); Call(4, e4, g, r4); Opt o(Sp(3, lr, 2, fe, 1.0, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(ema_accepted_spike, evals, ev.n == 5 && Same(ev.at[4], ev.at[3])); STATS(ema_accepted_spike, 2u, 0u, 0u);
  REQF(ema_accepted_spike, event, Rec(r.spike_stats.event_log[1], 2, 0, SpikeSignal::kS1_ErrorbarSpike, SpikeAction::kResample) && Eq(r.spike_stats.event_log[1].threshold, fe * m));
}
OB(off_disabled, A2, double fe, double fg) {
  StartRun(); C2; Opt o(Sp(2, lr, 2, fe, fg, false, false), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(off_disabled, evals, ev.n == 2); STATS(off_disabled, 0u, 0u, 0u);
}
OB(off_first, double th, double lr, double e0, double g0, double r0, double fe, double fg, double sk) {
  StartRun(); Call(0, e0, g0, r0); OptimizerParams p = Sp(1, lr, 2, fe, fg, true); p.spike_recovery_params.sigma_k = sk;
  Opt o(p, C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(off_first, evals, ev.n == 1); STATS(off_first, 0u, 0u, 0u);
}
OB(off_again, A2, double fe, double fg) {     // the next run knows nothing of this one
  StartRun(); C2; Opt o(Sp(1, lr, 2, fe, fg, true), C_, 0, 1); o.IterativeOptimize(St(th), Full());
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(off_again, evals, ev.n == 2); STATS(off_again, 0u, 0u, 0u);
}
// ---- S4
static inline OptimizerParams S4(size_t it, double lr, double sk) { OptimizerParams p = Sp(it, lr, 2, 1, 1, true, false); p.spike_recovery_params.sigma_k = sk; return p; }
#define MV const double a = 2.0 / 51.0, d1 = e1 - e0, m = e0 + a * d1, sd = __builtin_sqrt((1 - a) * (0.0 + a * d1 * d1))
OB(s4_two, A2, double sk) {                    // two measurements have no spread yet: never a spike
  StartRun(); C2; Opt o(S4(2, lr, sk), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(s4_two, evals, ev.n == 2); STATS(s4_two, 0u, 0u, 0u);
}
OB(s4_quiet, A3, double sk) {
  MV; ASSUME(!(e2 - m > 0 && sd > 0 && e2 - m > sk * sd));
  StartRun(); C3; Opt o(S4(3, lr, sk), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(s4_quiet, evals, ev.n == 3); STATS(s4_quiet, 0u, 0u, 0u);
}
OB(s4_rollback, A4, double sk) {
  MV; ASSUME(e2 - m > 0); ASSUME(sd > 0); ASSUME(e2 - m > sk * sd); SPLIT(0, e3 - m > 0); if (e3 - m > 0) ASSUME(!(e3 - m > sk * sd));
  StartRun(); C4; Opt o(S4(3, lr, sk), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(s4_rollback, evals, ev.n == 4 && Same(ev.at[3], ev.at[1])); STATS(s4_rollback, 0u, 1u, 0u);
  REQF(s4_rollback, traj, r.energy_trajectory.size() == 3 && Same(r.energy_trajectory[2], e3) && Same(r.final_energy, e3));
  REQF(s4_rollback, event, Rec(r.spike_stats.event_log[0], 2, 0, SpikeSignal::kS4_EMAEnergySpikeUpward, SpikeAction::kRollback) && Same(r.spike_stats.event_log[0].value, e2) && Eq(r.spike_stats.event_log[0].threshold, m + sk * sd));
  REQF(s4_rollback, state, Eq(V(r.optimized_state), ev.at[1] - lr * g3));
}
OB(s4_once, A4, double sk) {                   // the state rolled back to is accepted whatever its energy: the run makes progress
  MV; ASSUME(e2 - m > 0); ASSUME(sd > 0); ASSUME(e2 - m > sk * sd); ASSUME(e3 - m > 0); ASSUME(e3 - m > sk * sd);
  StartRun(); C4; Opt o(S4(3, lr, sk), C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  REQF(s4_once, evals, ev.n == 4 && Same(ev.at[3], ev.at[1])); STATS(s4_once, 0u, 1u, 1u);
  REQF(s4_once, state, Eq(V(r.optimized_state), ev.at[1] - lr * g3));
}
OB(s4_off, A3) {
  StartRun(); C3; OptimizerParams p = S4(3, lr, 0.0); p.spike_recovery_params.enable_rollback = false;
  Opt o(p, C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full()); REQF(s4_off, evals, ev.n == 3); STATS(s4_off, 0u, 0u, 0u);
}
// ---- other ranks
OB(mpi_follow, A4, int act, double fe, double fg) {   // a rank that is not the master does what it is told and measures when the master measures
  SPLIT(0, act == (int)SpikeAction::kResample); SPLIT(1, act == (int)SpikeAction::kRollback); ASSUME(act >= 0 && act <= 3);
  StartRun(1, 2); C4; co.ints[0] = act; co.ints[1] = 0; co.ints[2] = 0;
  Opt o(Sp(2, lr, 2, fe, fg, false), C_, 1, 2); auto r = o.IterativeOptimize(St(th), Full());
  const bool redo = act == (int)SpikeAction::kResample || act == (int)SpikeAction::kRollback;
  REQF(mpi_follow, evals, ev.n == (redo ? 3 : 2)); REQF(mpi_follow, collectives, co.n == (redo ? 3 : 2));
  REQF(mpi_follow, energy, Same(r.final_energy, redo ? e2 : e1) && r.spike_stats.event_log.size() == 0);
}
OB(mpi_master, A3, double fe, double fg) {
  ASSUME(r0 > 0); ASSUME(r1 > fe * r0); ASSUME(!(r2 > fe * r0));
  Q2(2);
  StartRun(0, 2); C3; Opt o(Sp(2, lr, 2, fe, fg, false), C_, 0, 2); auto r = o.IterativeOptimize(St(th), Full());
  REQF(mpi_master, sent, co.n == 3 && co.ints[0] == (int)SpikeAction::kResample && co.ints[1] == (int)SpikeAction::kAccept && co.ints[2] == 0);
  REQF(mpi_master, evals, ev.n == 3);
}
