#include "qlv.h"
#include "qlv_lrmodel.h"
#include "qlpeps/optimizer/optimizer_params.h"
#undef string
using namespace qlpeps;
using namespace qlv;
typedef OptimizerParams::BaseParams BP;
typedef LearningRateScheduler LRS;
struct Snap {  // plain values of every BaseParams field
  size_t max_iterations; double energy_tolerance, gradient_tolerance; size_t plateau_patience; double learning_rate;
  bool has_sched; long kind; double p0, p1, p2; size_t n0;
  bool has_cv; double cv; bool has_cn; double cn;
  bool i_en; size_t i_steps; bool i_det;
  bool p_en; size_t p_every; double p_ratio; bool p_det;
  long path;
};
static inline Snap AnySnap(bool sched, bool cv, bool cn) {
  Snap s{};
  s.max_iterations = qlv_any_long(); s.energy_tolerance = qlv_any_double(); s.gradient_tolerance = qlv_any_double();
  s.plateau_patience = qlv_any_long(); s.learning_rate = qlv_any_double();
  s.has_sched = sched; s.kind = qlv_any_long(); s.p0 = qlv_any_double(); s.p1 = qlv_any_double(); s.p2 = qlv_any_double(); s.n0 = qlv_any_long();
  s.has_cv = cv; s.cv = qlv_any_double(); s.has_cn = cn; s.cn = qlv_any_double();
  s.i_en = qlv_any_bool(); s.i_steps = qlv_any_long(); s.i_det = qlv_any_bool();
  s.p_en = qlv_any_bool(); s.p_every = qlv_any_long(); s.p_ratio = qlv_any_double(); s.p_det = qlv_any_bool();
  s.path = qlv_any_long();
  return s;
}
static inline void Put(BP &o, const Snap &s) {
  o.max_iterations = s.max_iterations; o.energy_tolerance = s.energy_tolerance; o.gradient_tolerance = s.gradient_tolerance;
  o.plateau_patience = s.plateau_patience; o.learning_rate = s.learning_rate;
  if (s.has_sched) o.lr_scheduler = std::make_unique<LRS>(s.kind, s.p0, s.p1, s.p2, s.n0);
  if (s.has_cv) o.clip_value = s.cv;
  if (s.has_cn) o.clip_norm = s.cn;
  o.initial_step_selector.enabled = s.i_en; o.initial_step_selector.max_line_search_steps = s.i_steps; o.initial_step_selector.enable_in_deterministic = s.i_det;
  o.periodic_step_selector.enabled = s.p_en; o.periodic_step_selector.every_n_steps = s.p_every;
  o.periodic_step_selector.phase_switch_ratio = s.p_ratio; o.periodic_step_selector.enable_in_deterministic = s.p_det;
  o.jsonl_log_path.id = s.path;
}
// every field of BaseParams `b` equals the snapshot `s`
#define REQ_BASE(nm, b, s)                                                                              \
  REQF(nm, max_iterations, (b).max_iterations == (s).max_iterations);                                   \
  REQF(nm, energy_tolerance, Same((b).energy_tolerance, (s).energy_tolerance));                          \
  REQF(nm, gradient_tolerance, Same((b).gradient_tolerance, (s).gradient_tolerance));                    \
  REQF(nm, plateau_patience, (b).plateau_patience == (s).plateau_patience);                              \
  REQF(nm, learning_rate, Same((b).learning_rate, (s).learning_rate));                                   \
  REQF(nm, lr_scheduler, ((b).lr_scheduler != nullptr) == (s).has_sched);                                \
  REQF(nm, lr_scheduler_kind, !(s).has_sched || (b).lr_scheduler->kind == (s).kind); \
  REQF(nm, lr_scheduler_p0, !(s).has_sched || Same((b).lr_scheduler->p0, (s).p0)); \
  REQF(nm, lr_scheduler_p1, !(s).has_sched || Same((b).lr_scheduler->p1, (s).p1)); \
  REQF(nm, lr_scheduler_p2, !(s).has_sched || Same((b).lr_scheduler->p2, (s).p2)); \
  REQF(nm, lr_scheduler_n0, !(s).has_sched || (b).lr_scheduler->n0 == (s).n0); \
  REQF(nm, clip_value, (b).clip_value.has_value() == (s).has_cv && (!(s).has_cv || Same(*(b).clip_value, (s).cv))); \
  REQF(nm, clip_norm, (b).clip_norm.has_value() == (s).has_cn && (!(s).has_cn || Same(*(b).clip_norm, (s).cn)));    \
  REQF(nm, initial_enabled, (b).initial_step_selector.enabled == (s).i_en);                              \
  REQF(nm, initial_steps, (b).initial_step_selector.max_line_search_steps == (s).i_steps);               \
  REQF(nm, initial_det, (b).initial_step_selector.enable_in_deterministic == (s).i_det);                 \
  REQF(nm, periodic_enabled, (b).periodic_step_selector.enabled == (s).p_en);                            \
  REQF(nm, periodic_every, (b).periodic_step_selector.every_n_steps == (s).p_every);                     \
  REQF(nm, periodic_ratio, Same((b).periodic_step_selector.phase_switch_ratio, (s).p_ratio));            \
  REQF(nm, periodic_det, (b).periodic_step_selector.enable_in_deterministic == (s).p_det);               \
  REQF(nm, jsonl_log_path, (b).jsonl_log_path.id == (s).path)
static inline Snap DefSnap(size_t it, double e, double g, size_t p, double lr) {
  Snap s{};
  s.max_iterations = it; s.energy_tolerance = e; s.gradient_tolerance = g; s.plateau_patience = p; s.learning_rate = lr;
  s.i_steps = 3; s.p_every = 10; s.p_ratio = 0.3;
  return s;
}
static inline void Sched(Snap &s, long kind, double a, double b, double c, size_t n) { s.has_sched = true; s.kind = kind; s.p0 = a; s.p1 = b; s.p2 = c; s.n0 = n; }
static inline std::unique_ptr<LRS> AnySched(Snap &s) {
  s.has_sched = true; s.kind = qlv_any_long(); s.p0 = qlv_any_double(); s.p1 = qlv_any_double(); s.p2 = qlv_any_double(); s.n0 = qlv_any_long();
  return std::make_unique<LRS>(s.kind, s.p0, s.p1, s.p2, s.n0);
}
static inline SpikeRecoveryParams AnySpike() {
  SpikeRecoveryParams r;
  r.enable_auto_recover = qlv_any_bool(); r.redo_mc_max_retries = qlv_any_long(); r.factor_err = qlv_any_double(); r.factor_grad = qlv_any_double();
  r.factor_ngrad = qlv_any_double(); r.sr_min_iters_suspicious = qlv_any_long(); r.enable_rollback = qlv_any_bool(); r.ema_window = qlv_any_long();
  r.sigma_k = qlv_any_double(); r.log_trigger_csv_path.id = qlv_any_long();
  return r;
}
#define REQ_SPIKE(nm, a, b)                                                                                      \
  REQF(nm, enable_auto_recover, (a).enable_auto_recover == (b).enable_auto_recover);                             \
  REQF(nm, redo_mc_max_retries, (a).redo_mc_max_retries == (b).redo_mc_max_retries);                             \
  REQF(nm, factor_err, Same((a).factor_err, (b).factor_err));                                                    \
  REQF(nm, factor_grad, Same((a).factor_grad, (b).factor_grad));                                                 \
  REQF(nm, factor_ngrad, Same((a).factor_ngrad, (b).factor_ngrad));                                              \
  REQF(nm, sr_min_iters_suspicious, (a).sr_min_iters_suspicious == (b).sr_min_iters_suspicious);                 \
  REQF(nm, enable_rollback, (a).enable_rollback == (b).enable_rollback);                                         \
  REQF(nm, ema_window, (a).ema_window == (b).ema_window);                                                        \
  REQF(nm, sigma_k, Same((a).sigma_k, (b).sigma_k));                                                             \
  REQF(nm, log_trigger_csv_path, (a).log_trigger_csv_path == (b).log_trigger_csv_path)
static inline SpikeRecoveryParams DefSpike() {  // documented defaults
  SpikeRecoveryParams r;
  r.enable_auto_recover = true; r.redo_mc_max_retries = 2; r.factor_err = 100.0; r.factor_grad = 1e10; r.factor_ngrad = 10.0;
  r.sr_min_iters_suspicious = 1; r.enable_rollback = false; r.ema_window = 50; r.sigma_k = 10.0; r.log_trigger_csv_path.id = 0;
  return r;
}
#define REQ_SGD(nm, p, m, n, w)                                                          \
  REQF(nm, is_sgd, (p).IsAlgorithm<SGDParams>());                                        \
  REQF(nm, sgd_momentum, Same((p).GetAlgorithmParams<SGDParams>().momentum, m));         \
  REQF(nm, sgd_nesterov, (p).GetAlgorithmParams<SGDParams>().nesterov == (n));           \
  REQF(nm, sgd_weight_decay, Same((p).GetAlgorithmParams<SGDParams>().weight_decay, w))
#define REQ_ADAM(nm, p, b1, b2, ep, wd)                                                  \
  REQF(nm, is_adam, (p).IsAlgorithm<AdamParams>());                                      \
  REQF(nm, adam_beta1, Same((p).GetAlgorithmParams<AdamParams>().beta1, b1));            \
  REQF(nm, adam_beta2, Same((p).GetAlgorithmParams<AdamParams>().beta2, b2));            \
  REQF(nm, adam_epsilon, Same((p).GetAlgorithmParams<AdamParams>().epsilon, ep));        \
  REQF(nm, adam_weight_decay, Same((p).GetAlgorithmParams<AdamParams>().weight_decay, wd))
#define REQ_ADAGRAD(nm, p, ep, acc)                                                      \
  REQF(nm, is_adagrad, (p).IsAlgorithm<AdaGradParams>());                                \
  REQF(nm, adagrad_epsilon, Same((p).GetAlgorithmParams<AdaGradParams>().epsilon, ep));  \
  REQF(nm, adagrad_accumulator, Same((p).GetAlgorithmParams<AdaGradParams>().initial_accumulator_value, acc))
#define REQ_SR(nm, p, q)                                                                                               \
  REQF(nm, is_sr, (p).IsAlgorithm<StochasticReconfigurationParams>());                                                 \
  REQF(nm, cg_max_iter, (p).GetAlgorithmParams<StochasticReconfigurationParams>().cg_params.max_iter == (q).cg_params.max_iter);          \
  REQF(nm, cg_rtol, Same((p).GetAlgorithmParams<StochasticReconfigurationParams>().cg_params.relative_tolerance, (q).cg_params.relative_tolerance)); \
  REQF(nm, cg_atol, Same((p).GetAlgorithmParams<StochasticReconfigurationParams>().cg_params.absolute_tolerance, (q).cg_params.absolute_tolerance)); \
  REQF(nm, cg_interval, (p).GetAlgorithmParams<StochasticReconfigurationParams>().cg_params.residual_recompute_interval == (q).cg_params.residual_recompute_interval); \
  REQF(nm, cg_orth, Same((p).GetAlgorithmParams<StochasticReconfigurationParams>().cg_params.orthogonality_threshold, (q).cg_params.orthogonality_threshold)); \
  REQF(nm, sr_diag, Same((p).GetAlgorithmParams<StochasticReconfigurationParams>().diag_shift, (q).diag_shift));         \
  REQF(nm, sr_norm, (p).GetAlgorithmParams<StochasticReconfigurationParams>().normalize_update == (q).normalize_update); \
  REQF(nm, sr_adapt, Same((p).GetAlgorithmParams<StochasticReconfigurationParams>().adaptive_diagonal_shift, (q).adaptive_diagonal_shift))
static inline StochasticReconfigurationParams AnySR() {
  StochasticReconfigurationParams q;
  q.cg_params.max_iter = qlv_any_long(); q.cg_params.relative_tolerance = qlv_any_double(); q.cg_params.absolute_tolerance = qlv_any_double();
  q.cg_params.residual_recompute_interval = (int)qlv_any_long(); q.cg_params.orthogonality_threshold = qlv_any_double();
  q.diag_shift = qlv_any_double(); q.normalize_update = qlv_any_bool(); q.adaptive_diagonal_shift = qlv_any_double();
  return q;
}
#define REQ_MINSR(nm, p, q)                                                              \
  REQF(nm, is_minsr, (p).IsAlgorithm<MinSRParams>());                                    \
  REQF(nm, minsr_r, Same((p).GetAlgorithmParams<MinSRParams>().r_pinv, (q).r_pinv));     \
  REQF(nm, minsr_a, Same((p).GetAlgorithmParams<MinSRParams>().a_pinv, (q).a_pinv));     \
  REQF(nm, minsr_soft, (p).GetAlgorithmParams<MinSRParams>().soft_cutoff == (q).soft_cutoff); \
  REQF(nm, minsr_mode, (p).GetAlgorithmParams<MinSRParams>().solver_mode == (q).solver_mode)
#define REQ_LB(nm, l, q)                                                                 \
  REQF(nm, lb_hist, (l).history_size == (q).history_size);                               \
  REQF(nm, lb_tg, Same((l).tolerance_grad, (q).tolerance_grad));                         \
  REQF(nm, lb_tc, Same((l).tolerance_change, (q).tolerance_change));                     \
  REQF(nm, lb_eval, (l).max_eval == (q).max_eval);                                       \
  REQF(nm, lb_mode, (l).step_mode == (q).step_mode);                                     \
  REQF(nm, lb_c1, Same((l).wolfe_c1, (q).wolfe_c1));                                     \
  REQF(nm, lb_c2, Same((l).wolfe_c2, (q).wolfe_c2));                                     \
  REQF(nm, lb_min, Same((l).min_step, (q).min_step));                                    \
  REQF(nm, lb_max, Same((l).max_step, (q).max_step));                                    \
  REQF(nm, lb_curv, Same((l).min_curvature, (q).min_curvature));                         \
  REQF(nm, lb_damp, (l).use_damping == (q).use_damping);                                 \
  REQF(nm, lb_norm, Same((l).max_direction_norm, (q).max_direction_norm));               \
  REQF(nm, lb_fb, (l).allow_fallback_to_fixed_step == (q).allow_fallback_to_fixed_step); \
  REQF(nm, lb_scale, Same((l).fallback_fixed_step_scale, (q).fallback_fixed_step_scale))
struct LB { size_t history_size; double tolerance_grad, tolerance_change; size_t max_eval; LBFGSStepMode step_mode; double wolfe_c1, wolfe_c2, min_step, max_step, min_curvature; bool use_damping; double max_direction_norm; bool allow_fallback_to_fixed_step; double fallback_fixed_step_scale; };
static inline LB DefLB(size_t h) { return LB{h, 1e-5, 1e-9, 20, LBFGSStepMode::kFixed, 1e-4, 0.9, 1e-8, 1.0, 1e-12, true, 1e3, false, 0.2}; }
static inline LB AnyLB() {
  LB l{};
  l.history_size = qlv_any_long(); l.tolerance_grad = qlv_any_double(); l.tolerance_change = qlv_any_double(); l.max_eval = qlv_any_long();
  l.step_mode = qlv_any_bool() ? LBFGSStepMode::kFixed : LBFGSStepMode::kStrongWolfe;
  l.wolfe_c1 = qlv_any_double(); l.wolfe_c2 = qlv_any_double(); l.min_step = qlv_any_double(); l.max_step = qlv_any_double(); l.min_curvature = qlv_any_double();
  l.use_damping = qlv_any_bool(); l.max_direction_norm = qlv_any_double(); l.allow_fallback_to_fixed_step = qlv_any_bool(); l.fallback_fixed_step_scale = qlv_any_double();
  return l;
}
static inline LBFGSParams Mk(const LB &l) {
  return LBFGSParams(l.history_size, l.tolerance_grad, l.tolerance_change, l.max_eval, l.step_mode, l.wolfe_c1, l.wolfe_c2, l.min_step, l.max_step,
                     l.min_curvature, l.use_damping, l.max_direction_norm, l.allow_fallback_to_fixed_step, l.fallback_fixed_step_scale);
}
#define REQ_REST(nm, p)                                                                  \
  REQF(nm, checkpoint_off, !(p).checkpoint_params.IsEnabled() && (p).checkpoint_params.every_n_steps == 0); \
  { const SpikeRecoveryParams qlv_ds = DefSpike(); REQ_SPIKE(nm, (p).spike_recovery_params, qlv_ds); }
