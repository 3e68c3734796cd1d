//@@ flat
#include "optimizer_first.h"
//@ sgd_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::SGDUpdate -- v = mu v + g; theta = (1 - eta lambda) theta - eta (v, or mu v + g with Nesterov)
//@ ada_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::AdaGradUpdate -- G += |g|^2; theta -= eta g / (sqrt G regularised)
//@ adam_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::AdamUpdate -- bias-corrected moments with decoupled weight decay
//@ clip_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::IterativeOptimize -- gradient clipping: element-wise, then global norm, first-order methods only
//@ lr_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer::GetCurrentLearningRate -- scheduler value if there is one, base rate otherwise
//@ worker_*: include/qlpeps/optimizer/optimizer_impl.h :: Optimizer updates -- ranks other than the master change nothing
OB(sgd_plain, double th, double lr, double e, double g, double err) {
  StartRun(); Call(0, e, g, err);
  Opt o(Sgd(1, lr, 0, false, 0), C_, 0, 1);
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(sgd_plain, evals, ev.n == 1 && Same(ev.at[0], th));
  REQF(sgd_plain, law, Eq(V(r.optimized_state), th - lr * g));
}
OB(sgd_plain_nesterov, double th, double lr, double e, double g, double err) {   // without momentum Nesterov changes nothing
  StartRun(); Call(0, e, g, err);
  Opt o(Sgd(1, lr, 0, true, 0), C_, 0, 1);
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(sgd_plain_nesterov, law, Eq(V(r.optimized_state), th - lr * g));
}
OB(sgd_decay, double th, double lr, double wd, double e, double g, double err) {
  ASSUME(wd > 0);
  StartRun(); Call(0, e, g, err);
  Opt o(Sgd(1, lr, 0, false, wd), C_, 0, 1);
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(sgd_decay, law, Eq(V(r.optimized_state), th * (1 - lr * wd) - lr * g));
}
#define G2 double th, double lr, double mu, double wd, double e0, double g0, double r0, double e1, double g1, double r1
#define RUN2(nm, NEST) \
  ASSUME(mu > 0); ASSUME(wd > 0); \
  StartRun(); Call(0, e0, g0, r0); Call(1, e1, g1, r1); \
  Opt o(Sgd(2, lr, mu, NEST, wd), C_, 0, 1); \
  auto r = o.IterativeOptimize(St(th), Full()); \
  const double d = 1 - lr * wd; \
  REQF(nm, evals, ev.n == 2 && Same(ev.at[0], th))
OB(sgd_momentum, G2) {
  RUN2(sgd_momentum, false);
  REQF(sgd_momentum, first, Eq(ev.at[1], th * d - lr * g0));
  REQF(sgd_momentum, second, Eq(V(r.optimized_state), (th * d - lr * g0) * d - lr * (mu * g0 + g1)));
}
OB(sgd_nesterov, G2) {
  RUN2(sgd_nesterov, true);
  REQF(sgd_nesterov, first, Eq(ev.at[1], th * d - lr * (mu * g0 + g0)));
  REQF(sgd_nesterov, second, Eq(V(r.optimized_state), (th * d - lr * (mu * g0 + g0)) * d - lr * (mu * (mu * g0 + g1) + g1)));
}
OB(sgd_momentum3, double th, double lr, double mu, double e0, double g0, double e1, double g1, double e2, double g2) {
  ASSUME(mu > 0);
  StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1); Call(2, e2, g2, 1);
  Opt o(Sgd(3, lr, mu, false, 0), C_, 0, 1);
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(sgd_momentum3, law, Eq(V(r.optimized_state), th - lr * g0 - lr * (mu * g0 + g1) - lr * (mu * (mu * g0 + g1) + g2)));
}
OB(sgd_fresh, double th, double lr, double mu, double e0, double g0, double e1, double g1) {   // the next run starts without velocity
  ASSUME(mu > 0);
  StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1);
  Opt o(Sgd(1, lr, mu, false, 0), C_, 0, 1);
  o.IterativeOptimize(St(th), Full());
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(sgd_fresh, law, Eq(V(r.optimized_state), th - lr * g1));
}
// ---- AdaGrad: two components, two steps
OB(ada_run, double th, double lr, double eps, double init, double e0, double g0, double e1, double g1) {
  StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1);
  Opt o(Ada(2, lr, eps, init), C_, 0, 1);
  auto r = o.IterativeOptimize(St(th), Full());
  const double G = init + qlv_uf_abs2(g0), t1 = th - AdaStep(G, g0, lr, eps);
  REQF(ada_run, first, Eq(ev.at[1], t1));
  REQF(ada_run, second, Eq(V(r.optimized_state), t1 - AdaStep(G + qlv_uf_abs2(g1), g1, lr, eps)));
}
OB(ada_fresh, double th, double lr, double eps, double init, double e0, double g0, double e1, double g1) {
  StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1);
  Opt o(Ada(1, lr, eps, init), C_, 0, 1);
  o.IterativeOptimize(St(th), Full());
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(ada_fresh, law, Eq(V(r.optimized_state), th - AdaStep(init + qlv_uf_abs2(g1), g1, lr, eps)));
}
// ---- Adam
OB(adam_nodecay, double a, double lr, double b1, double b2, double eps, double g0) {
  StartRun();
  const AdamParams p(b1, b2, eps, 0.0);
  OptimizerParams op = Pars(1, lr); op.algorithm_params = p;
  Opt o(op, C_, 0, 1); AdamOracle x;
  W w = o.AdamUpdate(St(a), St(g0), lr, p);
  REQF(adam_nodecay, law, Eq(V(w), x.Step(a, g0, lr, p)));
}
OB(adam_run, double th, double lr, ADP, double e0, double g0, double e1, double g1) {
  ASSUME(wd > 0);
  StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1);
  const AdamParams p(b1, b2, eps, wd);
  OptimizerParams op = Pars(2, lr); op.algorithm_params = p;
  Opt o(op, C_, 0, 1); AdamOracle x;
  auto r = o.IterativeOptimize(St(th), Full());
  const double t1 = x.Step(th, g0, lr, p);
  REQF(adam_run, first, Eq(ev.at[1], t1));
  REQF(adam_run, second, Eq(V(r.optimized_state), x.Step(t1, g1, lr, p)));
}
OB(adam_fresh, double th, double lr, ADP, double e0, double g0, double e1, double g1) {
  ASSUME(wd > 0);
  StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1);
  const AdamParams p(b1, b2, eps, wd);
  OptimizerParams op = Pars(1, lr); op.algorithm_params = p;
  Opt o(op, C_, 0, 1); AdamOracle x;
  o.IterativeOptimize(St(th), Full());
  auto r = o.IterativeOptimize(St(th), Full());
  REQF(adam_fresh, law, Eq(V(r.optimized_state), x.Step(th, g1, lr, p)));
}
// ---- clipping
#define CL(nm, cv, cn, set, want) \
  OB(nm, double th, double lr, double e, double g, double err, double cv, double cn) { \
    ASSUME(cv > 0); ASSUME(cn > 0); \
    StartRun(); Call(0, e, g, err); \
    OptimizerParams p = Sgd(1, lr, 0, false, 0); set; \
    Opt o(p, C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full()); \
    REQF(nm, law, Eq(V(r.optimized_state), th - lr * (want))); }
CL(clip_none, cv, cn, (void)0, g)
CL(clip_val, cv, cn, p.base_params.clip_value = cv, qlv_uf_clipv(g, cv))
CL(clip_nrm, cv, cn, p.base_params.clip_norm = cn, qlv_uf_clipn(g, cn))
CL(clip_both, cv, cn, (p.base_params.clip_value = cv, p.base_params.clip_norm = cn), qlv_uf_clipn(qlv_uf_clipv(g, cv), cn))
CL(clip_zero, cv, cn, (p.base_params.clip_value = 0.0, p.base_params.clip_norm = 0.0), g)
OB(clip_adagrad, double th, double lr, double eps, double init, double e, double g, double cv) {
  ASSUME(cv > 0);
  StartRun(); Call(0, e, g, 1);
  OptimizerParams p = Ada(1, lr, eps, init); p.base_params.clip_value = cv;
  Opt o(p, C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  const double c = qlv_uf_clipv(g, cv);
  REQF(clip_adagrad, law, Eq(V(r.optimized_state), th - AdaStep(init + qlv_uf_abs2(c), c, lr, eps)));
}
OB(clip_adam, double th, double lr, double e, double g, double cn) {
  ASSUME(cn > 0);
  StartRun(); Call(0, e, g, 1);
  const AdamParams pa; OptimizerParams p = Pars(1, lr); p.algorithm_params = pa; p.base_params.clip_norm = cn;
  Opt o(p, C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full()); AdamOracle x;
  REQF(clip_adam, law, Eq(V(r.optimized_state), x.Step(th, qlv_uf_clipn(g, cn), lr, pa)));
}
// ---- learning rate
OB(lr_base, double lr, size_t it, double e) { StartRun(); Opt o(Sgd(1, lr, 0, false, 0), C_, 0, 1); REQ(lr_base, Same(o.GetCurrentLearningRate(it, e), lr)); }
OB(lr_sched, double lr, long k, size_t it, double e) {
  StartRun(); OptimizerParams p = Sgd(1, lr, 0, false, 0); p.base_params.lr_scheduler.reset(new ProbeLR(k));
  Opt o(p, C_, 0, 1); REQ(lr_sched, Same(o.GetCurrentLearningRate(it, e), qlv_uf_lr(k, it, e)));
}
OB(lr_run, double th, double lr, long k, double e0, double g0, double e1, double g1, double e2, double g2) {   // the first step uses the first energy, later ones the previous energy
  StartRun(); Call(0, e0, g0, 1); Call(1, e1, g1, 1); Call(2, e2, g2, 1);
  OptimizerParams p = Sgd(3, lr, 0, false, 0); p.base_params.lr_scheduler.reset(new ProbeLR(k));
  Opt o(p, C_, 0, 1); auto r = o.IterativeOptimize(St(th), Full());
  const double l0 = qlv_uf_lr(k, 0, e0), l1 = qlv_uf_lr(k, 1, e0), l2 = qlv_uf_lr(k, 2, e1);
  REQF(lr_run, traj, r.learning_rate_trajectory.size() == 3 && Same(r.learning_rate_trajectory[0], l0) && Same(r.learning_rate_trajectory[1], l1) && Same(r.learning_rate_trajectory[2], l2));
  REQF(lr_run, law, Eq(V(r.optimized_state), th - l0 * g0 - l1 * g1 - l2 * g2));
}
// ---- other ranks
OB(worker_adagrad, double a, double g, double lr) { StartRun(1, 2); Opt o(Ada(1, lr, 0.1, 0.2), C_, 1, 2); REQ(worker_adagrad, Same(V(o.AdaGradUpdate(St(a), St(g), lr)), a) && co.n == 0); }
OB(worker_adam, double a, double g, double lr) { StartRun(1, 2); const AdamParams p; OptimizerParams op = Pars(1, lr); op.algorithm_params = p; Opt o(op, C_, 1, 2); REQ(worker_adam, Same(V(o.AdamUpdate(St(a), St(g), lr, p)), a) && co.n == 0); }
OB(worker_sgd, double a, double e, double g, double lr, double mu) {
  ASSUME(mu > 0); StartRun(1, 2); Call(0, e, g, 1);
  Opt o(Sgd(1, lr, mu, true, 0), C_, 1, 2); auto r = o.IterativeOptimize(St(a), Full());
  REQ(worker_sgd, Same(V(r.optimized_state), a) && Same(ev.at[0], a));
}
