#include "optparams_common.h"
typedef OptimizerFactory OF;
//@ f_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerFactory -- every argument reaches its parameter; simple factories disable the advanced stopping; everything else keeps its documented default
OB(f_sr, size_t it, double lr) { auto q = AnySR(); auto p = OF::CreateStochasticReconfiguration(it, q, lr); Snap s = DefSnap(it, 0, 0, it, lr); REQ_BASE(f_sr, p.base_params, s); REQ_SR(f_sr, p, q); REQ_REST(f_sr, p); }
OB(f_sr_def, size_t it) { auto q = AnySR(); auto p = OF::CreateStochasticReconfiguration(it, q); Snap s = DefSnap(it, 0, 0, it, 0.1); REQ_BASE(f_sr_def, p.base_params, s); }
OB(f_sra, size_t it, double e, double g, size_t pt, double lr) {
  auto q = AnySR(); Snap s = DefSnap(it, e, g, pt, lr); auto p = OF::CreateStochasticReconfigurationAdvanced(it, e, g, pt, q, lr, AnySched(s));
  REQ_BASE(f_sra, p.base_params, s); REQ_SR(f_sra, p, q); REQ_REST(f_sra, p);
}
OB(f_sra_def, size_t it, double e, double g, size_t pt) { auto q = AnySR(); auto p = OF::CreateStochasticReconfigurationAdvanced(it, e, g, pt, q); Snap s = DefSnap(it, e, g, pt, 0.1); REQ_BASE(f_sra_def, p.base_params, s); REQ_SR(f_sra_def, p, q); }
OB(f_sgd, size_t it, double lr, double r, size_t n) {
  auto p = OF::CreateSGDWithDecay(it, lr, r, n); Snap s = DefSnap(it, 0, 0, it, lr); Sched(s, 2, lr, r, 0, n);
  REQ_BASE(f_sgd, p.base_params, s); REQ_SGD(f_sgd, p, 0.0, false, 0.0); REQ_REST(f_sgd, p);
}
OB(f_sgd_def, size_t it) { auto p = OF::CreateSGDWithDecay(it); Snap s = DefSnap(it, 0, 0, it, 0.01); Sched(s, 2, 0.01, 0.95, 0, 100); REQ_BASE(f_sgd_def, p.base_params, s); }
OB(f_sgda, size_t it, double e, double g, size_t pt, double lr, double r, size_t n) {
  auto p = OF::CreateSGDWithDecayAdvanced(it, e, g, pt, lr, r, n); Snap s = DefSnap(it, e, g, pt, lr); Sched(s, 2, lr, r, 0, n);
  REQ_BASE(f_sgda, p.base_params, s); REQ_SGD(f_sgda, p, 0.0, false, 0.0); REQ_REST(f_sgda, p);
}
OB(f_sgda_def, size_t it, double e, double g, size_t pt) { auto p = OF::CreateSGDWithDecayAdvanced(it, e, g, pt); Snap s = DefSnap(it, e, g, pt, 0.01); Sched(s, 2, 0.01, 0.95, 0, 100); REQ_BASE(f_sgda_def, p.base_params, s); }
OB(f_adam, size_t it, double lr, double b1, double b2) { auto p = OF::CreateAdam(it, lr, b1, b2); Snap s = DefSnap(it, 0, 0, it, lr); REQ_BASE(f_adam, p.base_params, s); REQ_ADAM(f_adam, p, b1, b2, 1e-8, 0.0); REQ_REST(f_adam, p); }
OB(f_adam_def, size_t it) { auto p = OF::CreateAdam(it); Snap s = DefSnap(it, 0, 0, it, 1e-3); REQ_BASE(f_adam_def, p.base_params, s); REQ_ADAM(f_adam_def, p, 0.9, 0.999, 1e-8, 0.0); }
OB(f_adama, size_t it, double e, double g, size_t pt, double lr, double b1, double b2) {
  Snap s = DefSnap(it, e, g, pt, lr); auto p = OF::CreateAdamAdvanced(it, e, g, pt, lr, b1, b2, AnySched(s));
  REQ_BASE(f_adama, p.base_params, s); REQ_ADAM(f_adama, p, b1, b2, 1e-8, 0.0); REQ_REST(f_adama, p);
}
OB(f_adama_def, size_t it, double e, double g, size_t pt) { auto p = OF::CreateAdamAdvanced(it, e, g, pt); Snap s = DefSnap(it, e, g, pt, 1e-3); REQ_BASE(f_adama_def, p.base_params, s); REQ_ADAM(f_adama_def, p, 0.9, 0.999, 1e-8, 0.0); }
OB(f_ada, size_t it, double lr, double ep, double ac) { auto p = OF::CreateAdaGrad(it, lr, ep, ac); Snap s = DefSnap(it, 0, 0, it, lr); REQ_BASE(f_ada, p.base_params, s); REQ_ADAGRAD(f_ada, p, ep, ac); REQ_REST(f_ada, p); }
OB(f_ada_def, size_t it) { auto p = OF::CreateAdaGrad(it); Snap s = DefSnap(it, 0, 0, it, 0.01); REQ_BASE(f_ada_def, p.base_params, s); REQ_ADAGRAD(f_ada_def, p, 1e-8, 0.0); }
OB(f_adaa, size_t it, double e, double g, size_t pt, double lr, double ep, double ac) { auto p = OF::CreateAdaGradAdvanced(it, e, g, pt, lr, ep, ac); Snap s = DefSnap(it, e, g, pt, lr); REQ_BASE(f_adaa, p.base_params, s); REQ_ADAGRAD(f_adaa, p, ep, ac); REQ_REST(f_adaa, p); }
OB(f_adaa_def, size_t it, double e, double g, size_t pt) { auto p = OF::CreateAdaGradAdvanced(it, e, g, pt); Snap s = DefSnap(it, e, g, pt, 0.01); REQ_BASE(f_adaa_def, p.base_params, s); REQ_ADAGRAD(f_adaa_def, p, 1e-8, 0.0); }
OB(f_lb, size_t it, double lr, size_t h) { auto p = OF::CreateLBFGS(it, lr, h); Snap s = DefSnap(it, 0, 0, it, lr); REQ_BASE(f_lb, p.base_params, s); REQ(f_lb, p.IsAlgorithm<LBFGSParams>()); LB q = DefLB(h); REQ_LB(f_lb, p.GetAlgorithmParams<LBFGSParams>(), q); REQ_REST(f_lb, p); }
OB(f_lb_def, size_t it) { auto p = OF::CreateLBFGS(it); Snap s = DefSnap(it, 0, 0, it, 1.0); REQ_BASE(f_lb_def, p.base_params, s); REQ(f_lb_def, p.IsAlgorithm<LBFGSParams>()); LB q = DefLB(10); REQ_LB(f_lb_def, p.GetAlgorithmParams<LBFGSParams>(), q); }
OB(f_lba, size_t it, double e, double g, size_t pt, double lr, size_t h) {
  Snap s = DefSnap(it, e, g, pt, lr); auto p = OF::CreateLBFGSAdvanced(it, e, g, pt, lr, h, AnySched(s));
  REQ_BASE(f_lba, p.base_params, s); REQ(f_lba, p.IsAlgorithm<LBFGSParams>()); LB q = DefLB(h); REQ_LB(f_lba, p.GetAlgorithmParams<LBFGSParams>(), q); REQ_REST(f_lba, p);
}
OB(f_lba_def, size_t it, double e, double g, size_t pt) { auto p = OF::CreateLBFGSAdvanced(it, e, g, pt); Snap s = DefSnap(it, e, g, pt, 1.0); REQ_BASE(f_lba_def, p.base_params, s); REQ(f_lba_def, p.IsAlgorithm<LBFGSParams>()); LB q = DefLB(10); REQ_LB(f_lba_def, p.GetAlgorithmParams<LBFGSParams>(), q); }
OB(f_lbx, size_t it, double e, double g, size_t pt, double lr) {
  LB q = AnyLB(); LBFGSParams l = Mk(q); Snap s = DefSnap(it, e, g, pt, lr); auto p = OF::CreateLBFGSAdvanced(it, e, g, pt, lr, l, AnySched(s));
  REQ_BASE(f_lbx, p.base_params, s); REQ(f_lbx, p.IsAlgorithm<LBFGSParams>()); REQ_LB(f_lbx, p.GetAlgorithmParams<LBFGSParams>(), q); REQ_REST(f_lbx, p);
}
//@ v_*: include/qlpeps/optimizer/optimizer_params.h :: algorithm parameter structs -- constructor arguments reach their fields; documented defaults
OB(v_lb) { LB q = AnyLB(); LBFGSParams l = Mk(q); REQ_LB(v_lb, l, q); }
OB(v_lb_def) { LBFGSParams l; LB q = DefLB(10); REQ_LB(v_lb_def, l, q); }
OB(v_sgd, double m, bool n, double w) { SGDParams p(m, n, w); REQ(v_sgd, Same(p.momentum, m) && p.nesterov == n && Same(p.weight_decay, w)); SGDParams d; REQ(v_sgd, Same(d.momentum, 0.0) && !d.nesterov && Same(d.weight_decay, 0.0)); }
OB(v_adam, double a, double b, double c, double d) {
  AdamParams p(a, b, c, d); REQ(v_adam, Same(p.beta1, a) && Same(p.beta2, b)); REQ(v_adam, Same(p.epsilon, c) && Same(p.weight_decay, d));
  AdamParams q; REQ(v_adam, Same(q.beta1, 0.9) && Same(q.beta2, 0.999)); REQ(v_adam, Same(q.epsilon, 1e-8) && Same(q.weight_decay, 0.0));
}
OB(v_ada, double a, double b) { AdaGradParams p(a, b); REQ(v_ada, Same(p.epsilon, a) && Same(p.initial_accumulator_value, b)); }
OB(v_minsr, double a, double b, bool c) {
  MinSRParams p(a, b, c, MinSRSolverMode::kDistributed); REQ(v_minsr, Same(p.r_pinv, a) && Same(p.a_pinv, b)); REQ(v_minsr, p.soft_cutoff == c && p.solver_mode == MinSRSolverMode::kDistributed);
  MinSRParams q; REQ(v_minsr, Same(q.r_pinv, 1e-12) && Same(q.a_pinv, 0.0)); REQ(v_minsr, q.soft_cutoff && q.solver_mode == MinSRSolverMode::kAuto);
  MinSRParams r(a); REQ(v_minsr, Same(r.r_pinv, a) && Same(r.a_pinv, 0.0)); REQ(v_minsr, r.soft_cutoff && r.solver_mode == MinSRSolverMode::kAuto);
}
OB(v_sr_def) {
  StochasticReconfigurationParams q;
  REQ(v_sr_def, q.cg_params.max_iter == 100 && Same(q.cg_params.relative_tolerance, 1e-4) && Same(q.cg_params.absolute_tolerance, 0.0));
  REQ(v_sr_def, q.cg_params.residual_recompute_interval == 20 && Same(q.cg_params.orthogonality_threshold, 0.5));
  REQ(v_sr_def, Same(q.diag_shift, 0.001) && !q.normalize_update && Same(q.adaptive_diagonal_shift, 0.0));
}
OB(v_spike_def) { SpikeRecoveryParams a; const SpikeRecoveryParams b = DefSpike(); REQ_SPIKE(v_spike_def, a, b); }
//@ ckpt_enabled: include/qlpeps/optimizer/optimizer_params.h :: CheckpointParams::IsEnabled -- enabled exactly with a positive period and a path
OB(ckpt_enabled, size_t n, long path) { CheckpointParams c; REQ(ckpt_enabled, !c.IsEnabled()); c.every_n_steps = n; c.base_path.id = path; REQ(ckpt_enabled, c.IsEnabled() == (n != 0 && path != 0)); }
//@ first_order: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::IsFirstOrder -- exactly SGD, AdaGrad and Adam (the scope of gradient clipping)
OB(first_order) {
  OptimizerParams p;
  REQ(first_order, p.IsFirstOrder() && p.IsAlgorithm<SGDParams>());
  p.algorithm_params = AdamParams(); REQ(first_order, p.IsFirstOrder() && p.IsAlgorithm<AdamParams>() && !p.IsAlgorithm<SGDParams>());
  p.algorithm_params = AdaGradParams(1, 2); REQ(first_order, p.IsFirstOrder() && p.IsAlgorithm<AdaGradParams>());
  p.algorithm_params = LBFGSParams(); REQ(first_order, !p.IsFirstOrder() && p.IsAlgorithm<LBFGSParams>());
  p.algorithm_params = MinSRParams(); REQ(first_order, !p.IsFirstOrder() && p.IsAlgorithm<MinSRParams>());
  p.algorithm_params = StochasticReconfigurationParams(); REQ(first_order, !p.IsFirstOrder() && p.IsAlgorithm<StochasticReconfigurationParams>());
}
//@ wrong_alg: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::GetAlgorithmParams -- asking for another algorithm's parameters never returns
OBX(wrong_alg) { OptimizerParams p; p.algorithm_params = AdamParams(); const void *q = &p.GetAlgorithmParams<SGDParams>(); REQN(wrong_alg, q != q); }
