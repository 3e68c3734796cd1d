#include "optparams_common.h"
typedef OptimizerParamsBuilder B;
// documented defaults of the base parameters the builder creates
static inline Snap D() { return DefSnap(1000, 1e-10, 1e-30, 20, 0.01); }
//@ b_first_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParamsBuilder -- whichever base setter comes first, the other base parameters get the same defaults
OB(b_first_it, size_t v) { B b; b.SetMaxIterations(v).WithSGD(); auto p = b.Build(); Snap s = D(); s.max_iterations = v; REQ_BASE(b_first_it, p.base_params, s); REQ_REST(b_first_it, p); }
OB(b_first_e, double v) { B b; b.SetEnergyTolerance(v).WithSGD(); auto p = b.Build(); Snap s = D(); s.energy_tolerance = v; REQ_BASE(b_first_e, p.base_params, s); REQ_REST(b_first_e, p); }
OB(b_first_lr, double v) { B b; b.SetLearningRate(v).WithSGD(); auto p = b.Build(); Snap s = D(); s.learning_rate = v; REQ_BASE(b_first_lr, p.base_params, s); REQ_REST(b_first_lr, p); }
OB(b_first_lrs, double v) { B b; Snap s = D(); s.learning_rate = v; b.SetLearningRate(v, AnySched(s)).WithSGD(); auto p = b.Build(); REQ_BASE(b_first_lrs, p.base_params, s); REQ_REST(b_first_lrs, p); }
OB(b_first_pt, size_t v) { B b; b.SetPlateauPatience(v).WithSGD(); auto p = b.Build(); Snap s = D(); s.plateau_patience = v; REQ_BASE(b_first_pt, p.base_params, s); REQ_REST(b_first_pt, p); }
// a builder in a state where every field has been set to an arbitrary value
static inline Snap Full(B &b, SpikeRecoveryParams &sp, size_t &every, long &path) {
  Snap s = D();
  s.max_iterations = qlv_any_long(); s.energy_tolerance = qlv_any_double(); s.learning_rate = qlv_any_double(); s.plateau_patience = qlv_any_long();
  b.SetMaxIterations(s.max_iterations);
  b.SetEnergyTolerance(s.energy_tolerance);
  b.SetLearningRate(s.learning_rate, AnySched(s));
  b.SetPlateauPatience(s.plateau_patience);
  s.has_cv = true; s.cv = qlv_any_double(); b.SetClipValue(s.cv);
  s.has_cn = true; s.cn = qlv_any_double(); b.SetClipNorm(s.cn);
  s.p_en = qlv_any_bool(); s.p_every = qlv_any_long(); s.p_ratio = qlv_any_double(); s.p_det = qlv_any_bool();
  b.SetPeriodicStepSelector(s.p_en, s.p_every, s.p_ratio, s.p_det);
  s.i_en = qlv_any_bool(); s.i_steps = qlv_any_long(); s.i_det = qlv_any_bool();
  b.SetInitialStepSelector(s.i_en, s.i_steps, s.i_det);
  every = qlv_any_long(); path = qlv_any_long();
  std::qlv_string str(path);
  b.SetCheckpoint(every, str);
  sp = AnySpike();
  b.SetSpikeRecovery(sp);
  b.WithSGD(0.25, true);
  return s;
}
#define REQ_ALL(nm) { auto p = b.Build(); REQ_BASE(nm, p.base_params, s); REQ_SPIKE(nm, p.spike_recovery_params, sp); \
  REQF(nm, checkpoint, p.checkpoint_params.every_n_steps == every && p.checkpoint_params.base_path.id == path); }
#define FULL B b; SpikeRecoveryParams sp; size_t every; long path; Snap s = Full(b, sp, every, path)
//@ b_set_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParamsBuilder -- from any fully configured state, a setter changes its own parameter and nothing else
OB(b_set_none) { FULL; REQ_ALL(b_set_none); { auto p = b.Build(); REQ_SGD(b_set_none, p, 0.25, true, 0.0); } }
OB(b_set_it, size_t v) { FULL; b.SetMaxIterations(v); s.max_iterations = v; REQ_ALL(b_set_it); }
OB(b_set_e, double v) { FULL; b.SetEnergyTolerance(v); s.energy_tolerance = v; REQ_ALL(b_set_e); }
OB(b_set_lr, double v) { FULL; b.SetLearningRate(v); s.learning_rate = v; REQ_ALL(b_set_lr); }
OB(b_set_lrs, double v) { FULL; s.learning_rate = v; b.SetLearningRate(v, AnySched(s)); REQ_ALL(b_set_lrs); }
OB(b_set_pt, size_t v) { FULL; b.SetPlateauPatience(v); s.plateau_patience = v; REQ_ALL(b_set_pt); }
OB(b_set_cv, double v) { FULL; b.SetClipValue(v); s.cv = v; REQ_ALL(b_set_cv); }
OB(b_set_cn, double v) { FULL; b.SetClipNorm(v); s.cn = v; REQ_ALL(b_set_cn); }
OB(b_set_per, bool en, size_t n, double r, bool d) { FULL; b.SetPeriodicStepSelector(en, n, r, d); s.p_en = en; s.p_every = n; s.p_ratio = r; s.p_det = d; REQ_ALL(b_set_per); }
OB(b_set_per_def, bool en) { FULL; b.SetPeriodicStepSelector(en); s.p_en = en; s.p_every = 10; s.p_ratio = 0.3; s.p_det = false; REQ_ALL(b_set_per_def); }
OB(b_set_ini, bool en, size_t n, bool d) { FULL; b.SetInitialStepSelector(en, n, d); s.i_en = en; s.i_steps = n; s.i_det = d; REQ_ALL(b_set_ini); }
OB(b_set_ini_def, bool en) { FULL; b.SetInitialStepSelector(en); s.i_en = en; s.i_steps = 3; s.i_det = false; REQ_ALL(b_set_ini_def); }
OB(b_set_ckpt, size_t n, long q) { FULL; std::qlv_string str(q); b.SetCheckpoint(n, str); every = n; path = q; REQ_ALL(b_set_ckpt); }
OB(b_set_spike) { FULL; sp = AnySpike(); b.SetSpikeRecovery(sp); REQ_ALL(b_set_spike); }
OB(b_set_nospike) { FULL; b.DisableSpikeRecovery(); sp = DefSpike(); sp.enable_auto_recover = false; sp.enable_rollback = false; REQ_ALL(b_set_nospike); }
//@ b_alg_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParamsBuilder -- the last algorithm chosen wins, with the arguments given
OB(b_alg_sgd, double m, bool n) { FULL; b.WithSGD(m, n); REQ_ALL(b_alg_sgd); auto p = b.Build(); REQ_SGD(b_alg_sgd, p, m, n, 0.0); }
OB(b_alg_sgd_def) { FULL; b.WithSGD(); auto p = b.Build(); REQ_SGD(b_alg_sgd_def, p, 0.0, false, 0.0); }
OB(b_alg_adam, double a, double c, double d, double e) { FULL; b.WithAdam(a, c, d, e); REQ_ALL(b_alg_adam); auto p = b.Build(); REQ_ADAM(b_alg_adam, p, a, c, d, e); }
OB(b_alg_adam_def) { FULL; b.WithAdam(); auto p = b.Build(); REQ_ADAM(b_alg_adam_def, p, 0.9, 0.999, 1e-8, 0.0); }
OB(b_alg_ada, double a, double c) { FULL; b.WithAdaGrad(a, c); REQ_ALL(b_alg_ada); auto p = b.Build(); REQ_ADAGRAD(b_alg_ada, p, a, c); }
OB(b_alg_ada_def) { FULL; b.WithAdaGrad(); auto p = b.Build(); REQ_ADAGRAD(b_alg_ada_def, p, 1e-8, 0.0); }
OB(b_alg_sr) { FULL; auto q = AnySR(); b.WithStochasticReconfiguration(q); REQ_ALL(b_alg_sr); auto p = b.Build(); REQ_SR(b_alg_sr, p, q); }
OB(b_alg_lb) { FULL; LB q = AnyLB(); LBFGSParams l = Mk(q); b.WithLBFGS(l); REQ_ALL(b_alg_lb); auto p = b.Build(); REQ(b_alg_lb, p.IsAlgorithm<LBFGSParams>()); REQ_LB(b_alg_lb, p.GetAlgorithmParams<LBFGSParams>(), q); }
OB(b_alg_minsr, double r, double a, bool sft) { FULL; MinSRParams q(r, a, sft, MinSRSolverMode::kReplicated); b.WithMinSR(q); REQ_ALL(b_alg_minsr); auto p = b.Build(); REQ_MINSR(b_alg_minsr, p, q); }
//@ b_need_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParamsBuilder -- incomplete configurations are rejected, never silently defaulted
OBX(b_need_base) { B b; b.WithSGD(); const OptimizerParams p = b.Build(); const void *q = &p; REQN(b_need_base, q != q); }
OBX(b_need_alg) { B b; b.SetMaxIterations(3); const OptimizerParams p = b.Build(); const void *q = &p; REQN(b_need_alg, q != q); }
OBX(b_need_any) { B b; const OptimizerParams p = b.Build(); const void *q = &p; REQN(b_need_any, q != q); }
OBX(b_need_cv, double v) { B b; const void *q = &b.SetClipValue(v); REQN(b_need_cv, q != q); }
OBX(b_need_cn, double v) { B b; const void *q = &b.SetClipNorm(v); REQN(b_need_cn, q != q); }
OBX(b_need_per, bool en, size_t n, double r, bool d) { B b; const void *q = &b.SetPeriodicStepSelector(en, n, r, d); REQN(b_need_per, q != q); }
OBX(b_need_ini, bool en, size_t n, bool d) { B b; const void *q = &b.SetInitialStepSelector(en, n, d); REQN(b_need_ini, q != q); }
//@ b_chain_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParamsBuilder -- every setter returns the same builder; building does not change it
OB(b_chain_self, size_t n, double x) {
  B b;
  REQ(b_chain_self, &b.SetMaxIterations(n) == &b); REQ(b_chain_self, &b.SetEnergyTolerance(x) == &b); REQ(b_chain_self, &b.SetLearningRate(x) == &b); REQ(b_chain_self, &b.SetPlateauPatience(n) == &b);
  REQ(b_chain_self, &b.WithSGD() == &b); REQ(b_chain_self, &b.WithAdam() == &b); REQ(b_chain_self, &b.WithAdaGrad() == &b); REQ(b_chain_self, &b.WithMinSR() == &b);
  REQ(b_chain_self, &b.DisableSpikeRecovery() == &b); REQ(b_chain_self, &b.SetClipValue(x) == &b); REQ(b_chain_self, &b.SetClipNorm(x) == &b);
}
OB(b_chain_twice) { FULL; { auto p0 = b.Build(); } REQ_ALL(b_chain_twice); }
