#include "qlv.h"
#include <limits>
#include <memory>
#include <sstream>
#include <iomanip>
#include <string>
#include <cmath>
#include <numbers>
#include "qlv_algo.h"
#include "qlpeps/optimizer/lr_schedulers.h"
using namespace qlpeps;
using namespace qlv;
static inline double Max() { return std::numeric_limits<double>::max(); }

//@ const_law: include/qlpeps/optimizer/lr_schedulers.h :: ConstantLR::GetLearningRate -- returns the configured rate at every iteration and energy
OB(const_law, double lr, size_t it, double e) {
  auto *s = At<ConstantLR>(qlv_opaque_a, lr);
  REQ(const_law, Same(s->GetLearningRate(it, e), lr));
  REQ(const_law, Same(s->GetLearningRate(it, e), lr));
}
//@ exp_law: include/qlpeps/optimizer/lr_schedulers.h :: ExponentialDecayLR::GetLearningRate -- lr0 * decay_rate^(iteration/decay_steps)
OB(exp_law, double lr, double r, size_t n, size_t it, double e) {
  ASSUME(n != 0);
  auto *s = At<ExponentialDecayLR>(qlv_opaque_a, lr, r, n);
  double ref = lr * std::pow(r, static_cast<double>(it) / static_cast<double>(n));
  REQ(exp_law, Same(s->GetLearningRate(it, e), ref));
}
//@ exp_zero: include/qlpeps/optimizer/lr_schedulers.h :: ExponentialDecayLR::GetLearningRate -- decay_steps == 0 means no decay (no division by zero)
OB(exp_zero, double lr, double r, size_t it, double e) {
  auto *s = At<ExponentialDecayLR>(qlv_opaque_a, lr, r, size_t(0));
  REQ(exp_zero, Same(s->GetLearningRate(it, e), lr));
}
//@ step_law: include/qlpeps/optimizer/lr_schedulers.h :: StepLR::GetLearningRate -- lr0 * gamma^floor(iteration/step_size)
OB(step_law, double lr, double g, size_t n, size_t it, double e) {
  ASSUME(n != 0);
  auto *s = At<StepLR>(qlv_opaque_a, lr, n, g);
  double ref = lr * std::pow(g, static_cast<double>(it / n));
  REQ(step_law, Same(s->GetLearningRate(it, e), ref));
}
//@ step_zero: include/qlpeps/optimizer/lr_schedulers.h :: StepLR::GetLearningRate -- step_size == 0 means no decay (no integer division by zero)
OB(step_zero, double lr, double g, size_t it, double e) {
  auto *s = At<StepLR>(qlv_opaque_a, lr, size_t(0), g);
  REQ(step_zero, Same(s->GetLearningRate(it, e), lr));
}
//@ cos_law: include/qlpeps/optimizer/lr_schedulers.h :: CosineAnnealingLR::GetLearningRate -- eta_min + (eta_max-eta_min)(1+cos(pi t/T))/2 for t <= T
OB(cos_law, double a, double b, size_t n, size_t it, double e) {
  ASSUME(n != 0);
  ASSUME(it < n);
  auto *s = At<CosineAnnealingLR>(qlv_opaque_a, a, n, b);
  double ref = b + 0.5 * (a - b) * (1.0 + std::cos(std::numbers::pi * static_cast<double>(it) / static_cast<double>(n)));
  REQ(cos_law, Same(s->GetLearningRate(it, e), ref));
}
//@ cos_end: include/qlpeps/optimizer/lr_schedulers.h :: CosineAnnealingLR::GetLearningRate -- value at the last iteration t = T
OB(cos_end, double a, double b, size_t n, double e) {
  ASSUME(n != 0);
  auto *s = At<CosineAnnealingLR>(qlv_opaque_a, a, n, b);
  double ref = b + 0.5 * (a - b) * (1.0 + std::cos(std::numbers::pi * static_cast<double>(n) / static_cast<double>(n)));
  REQ(cos_end, Same(s->GetLearningRate(n, e), ref));
}
//@ cos_clamp: include/qlpeps/optimizer/lr_schedulers.h :: CosineAnnealingLR::GetLearningRate -- the schedule stays at its t = T value after T iterations
OB(cos_clamp, double a, double b, size_t it, double e) {
  ASSUME(it > 7);
  auto *s = At<CosineAnnealingLR>(qlv_opaque_a, a, size_t(7), b);
  double ref = b + 0.5 * (a - b) * (1.0 + std::cos(std::numbers::pi * 7.0 / 7.0));
  REQ(cos_clamp, Same(s->GetLearningRate(it, e), ref));
}
//@ cos_zero: include/qlpeps/optimizer/lr_schedulers.h :: CosineAnnealingLR::GetLearningRate -- T_max == 0 yields eta_min
OB(cos_zero, double a, double b, size_t it, double e) {
  auto *s = At<CosineAnnealingLR>(qlv_opaque_a, a, size_t(0), b);
  REQ(cos_zero, Same(s->GetLearningRate(it, e), b));
}
//@ warm_ramp: include/qlpeps/optimizer/lr_schedulers.h :: WarmupLR::GetLearningRate -- linear ramp start + (base-start)(iteration+1)/warmup_steps
OB(warm_ramp, double a, double b, size_t n, size_t it, double e) {
  ASSUME(it < n);
  auto *s = At<WarmupLR>(qlv_opaque_a, a, n, b);
  double ref = b + (a - b) * (static_cast<double>(it + 1) / static_cast<double>(n));
  REQ(warm_ramp, Same(s->GetLearningRate(it, e), ref));
}
//@ warm_flat: include/qlpeps/optimizer/lr_schedulers.h :: WarmupLR::GetLearningRate -- exactly base_lr once warmup_steps iterations have passed (warmup_steps == 0 included)
OB(warm_flat, double a, double b, size_t n, size_t it, double e) {
  ASSUME(it >= n);
  auto *s = At<WarmupLR>(qlv_opaque_a, a, n, b);
  REQ(warm_flat, Same(s->GetLearningRate(it, e), a));
}

// ---- MultiStepLR: the milestones are only compared, so every order type of (a, b, iteration) is a separate case
static inline double MS(double lr, double g, size_t a, size_t b, size_t it) {
  MultiStepLR s(lr, std::vector<size_t>{a, b}, g);
  return s.GetLearningRate(it, 0.0);
}
//@ ms_lt: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::GetLearningRate -- no milestone reached: lr0 * gamma^0
OB(ms_lt, double lr, double g, size_t a, size_t b, size_t it) { ASSUME(a < b); ASSUME(it < a); ASSUME(it < b); REQ(ms_lt, Same(MS(lr, g, a, b, it), lr * std::pow(g, 0.0))); }
//@ ms_mid: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::GetLearningRate -- one milestone reached (a <= iteration < b): lr0 * gamma
OB(ms_mid, double lr, double g, size_t a, size_t b, size_t it) { ASSUME(a < b); ASSUME(a <= it); ASSUME(it < b); REQ(ms_mid, Same(MS(lr, g, a, b, it), lr * std::pow(g, 1.0))); }
//@ ms_ge: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::GetLearningRate -- both milestones reached: lr0 * gamma^2
OB(ms_ge, double lr, double g, size_t a, size_t b, size_t it) { ASSUME(a < b); ASSUME(b <= it); ASSUME(a <= it); REQ(ms_ge, Same(MS(lr, g, a, b, it), lr * std::pow(g, 2.0))); }
//@ ms_rlt: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::MultiStepLR -- unsorted milestones, none reached
OB(ms_rlt, double lr, double g, size_t a, size_t b, size_t it) { ASSUME(b < a); ASSUME(it < b); ASSUME(it < a); REQ(ms_rlt, Same(MS(lr, g, a, b, it), lr * std::pow(g, 0.0))); }
//@ ms_rmid: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::MultiStepLR -- unsorted milestones, one reached
OB(ms_rmid, double lr, double g, size_t a, size_t b, size_t it) { ASSUME(b < a); ASSUME(b <= it); ASSUME(it < a); REQ(ms_rmid, Same(MS(lr, g, a, b, it), lr * std::pow(g, 1.0))); }
//@ ms_rge: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::MultiStepLR -- unsorted milestones, both reached
OB(ms_rge, double lr, double g, size_t a, size_t b, size_t it) { ASSUME(b < a); ASSUME(a <= it); ASSUME(b <= it); REQ(ms_rge, Same(MS(lr, g, a, b, it), lr * std::pow(g, 2.0))); }
//@ ms_dup: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::GetLearningRate -- a repeated milestone counts twice
OB(ms_dup, double lr, double g, size_t a, size_t it) { ASSUME(a <= it); REQ(ms_dup, Same(MS(lr, g, a, a, it), lr * std::pow(g, 2.0))); }
//@ ms_one_lt: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::GetLearningRate -- one milestone, not reached
OB(ms_one_lt, double lr, double g, size_t a, size_t it) { ASSUME(it < a); MultiStepLR s(lr, std::vector<size_t>{a}, g); REQ(ms_one_lt, Same(s.GetLearningRate(it, 0.0), lr * std::pow(g, 0.0))); }
//@ ms_one_ge: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::GetLearningRate -- one milestone, reached
OB(ms_one_ge, double lr, double g, size_t a, size_t it) { ASSUME(it >= a); MultiStepLR s(lr, std::vector<size_t>{a}, g); REQ(ms_one_ge, Same(s.GetLearningRate(it, 0.0), lr * std::pow(g, 1.0))); }
//@ ms_none: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::GetLearningRate -- no milestones: never decays
OB(ms_none, double lr, double g, size_t it) { MultiStepLR s(lr, std::vector<size_t>{}, g); REQ(ms_none, Same(s.GetLearningRate(it, 0.0), lr * std::pow(g, 0.0))); }

// ---- PlateauLR automaton: all outcomes of up to three observations
//@ pl_improve1: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::GetLearningRate -- a first energy that improves leaves the rate alone
OB(pl_improve1, double lr, double f, size_t p, double th, double e) {
  ASSUME(e < Max() - th);
  PlateauLR s(lr, f, p, th);
  REQ(pl_improve1, Same(s.GetLearningRate(0, e), lr));
}
//@ pl_improve2: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::GetLearningRate -- an energy below best - threshold leaves the rate alone
OB(pl_improve2, double lr, double f, size_t p, double th, double e1, double e2) {
  ASSUME(e1 < Max() - th);
  ASSUME(e2 < e1 - th);
  PlateauLR s(lr, f, p, th);
  s.GetLearningRate(0, e1);
  REQ(pl_improve2, Same(s.GetLearningRate(0, e2), lr));
}
//@ pl_patient: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::GetLearningRate -- fewer than `patience` stagnant energies leave the rate alone
OB(pl_patient, double lr, double f, size_t p, double th, double e1, double e2) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  ASSUME(p > 1);
  PlateauLR s(lr, f, p, th);
  s.GetLearningRate(0, e1);
  REQ(pl_patient, Same(s.GetLearningRate(0, e2), lr));
}
//@ pl_decay1: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::GetLearningRate -- patience 1: the first stagnant energy multiplies the rate by factor
OB(pl_decay1, double lr, double f, double th, double e1, double e2) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  PlateauLR s(lr, f, 1, th);
  s.GetLearningRate(0, e1);
  REQ(pl_decay1, Same(s.GetLearningRate(0, e2), lr * f));
}
//@ pl_decay2: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::GetLearningRate -- patience 2: the second consecutive stagnant energy (against the unchanged best) decays
OB(pl_decay2, double lr, double f, double th, double e1, double e2, double e3) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  ASSUME(!(e3 < e1 - th));
  PlateauLR s(lr, f, 2, th);
  s.GetLearningRate(0, e1);
  s.GetLearningRate(0, e2);
  REQ(pl_decay2, Same(s.GetLearningRate(0, e3), lr * f));
}
//@ pl_best_kept: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::GetLearningRate -- a stagnant energy below patience does not move the best energy
OB(pl_best_kept, double lr, double f, double th, double e1, double e2, double e3, double e4) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  ASSUME(e3 < e1 - th);
  ASSUME(!(e4 < e3 - th));
  PlateauLR s(lr, f, 2, th);
  s.GetLearningRate(0, e1);
  s.GetLearningRate(0, e2);
  s.GetLearningRate(0, e3);
  REQ(pl_best_kept, Same(s.GetLearningRate(0, e4), lr));
}
//@ pl_reset: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::GetLearningRate -- after a decay the counter restarts: the next stagnant energy does not decay again
OB(pl_reset, double lr, double f, double th, double e1, double e2, double e3, double e4) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  ASSUME(!(e3 < e1 - th));
  ASSUME(!(e4 < e3 - th));
  PlateauLR s(lr, f, 2, th);
  s.GetLearningRate(0, e1);
  s.GetLearningRate(0, e2);
  s.GetLearningRate(0, e3);
  REQ(pl_reset, Same(s.GetLearningRate(0, e4), lr * f));
}
//@ pl_rebase: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::GetLearningRate -- after a decay the reference energy is the energy that triggered it
OB(pl_rebase, double lr, double f, double th, double e1, double e2, double e3) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  ASSUME(e3 < e2 - th);
  PlateauLR s(lr, f, 1, th);
  s.GetLearningRate(0, e1);
  s.GetLearningRate(0, e2);
  REQ(pl_rebase, Same(s.GetLearningRate(0, e3), lr * f));
}

// ---- Clone continues exactly where the original stands
template <class S> static inline double CloneRate(S &s, size_t it, double e) {
  auto c = s.Clone();
  return static_cast<S *>(c.get())->S::GetLearningRate(it, e);
}
//@ cl_const: include/qlpeps/optimizer/lr_schedulers.h :: ConstantLR::Clone
OB(cl_const, double lr, size_t it, double e) { ConstantLR s(lr); double x = CloneRate(s, it, e); REQ(cl_const, Same(x, s.GetLearningRate(it, e))); }
//@ cl_exp: include/qlpeps/optimizer/lr_schedulers.h :: ExponentialDecayLR::Clone
OB(cl_exp, double lr, double r, size_t n, size_t it, double e) { ASSUME(n != 0); ExponentialDecayLR s(lr, r, n); double x = CloneRate(s, it, e); REQ(cl_exp, Same(x, s.GetLearningRate(it, e))); }
//@ cl_step: include/qlpeps/optimizer/lr_schedulers.h :: StepLR::Clone
OB(cl_step, double lr, double g, size_t n, size_t it, double e) { ASSUME(n != 0); StepLR s(lr, n, g); double x = CloneRate(s, it, e); REQ(cl_step, Same(x, s.GetLearningRate(it, e))); }
//@ cl_cos: include/qlpeps/optimizer/lr_schedulers.h :: CosineAnnealingLR::Clone
OB(cl_cos, double a, double b, size_t n, size_t it, double e) { ASSUME(n != 0); CosineAnnealingLR s(a, n, b); double x = CloneRate(s, it, e); REQ(cl_cos, Same(x, s.GetLearningRate(it, e))); }
//@ cl_warm: include/qlpeps/optimizer/lr_schedulers.h :: WarmupLR::Clone
OB(cl_warm, double a, double b, size_t n, size_t it, double e) { WarmupLR s(a, n, b); double x = CloneRate(s, it, e); REQ(cl_warm, Same(x, s.GetLearningRate(it, e))); }
//@ cl_ms: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::Clone
OB(cl_ms, double lr, double g, size_t a, size_t it) { ASSUME(it >= a); MultiStepLR s(lr, std::vector<size_t>{a}, g); double x = CloneRate(s, it, 0.0); REQ(cl_ms, Same(x, s.GetLearningRate(it, 0.0))); }
//@ cl_ms2: include/qlpeps/optimizer/lr_schedulers.h :: MultiStepLR::Clone
OB(cl_ms2, double lr, double g, size_t a, size_t it) { ASSUME(it < a); MultiStepLR s(lr, std::vector<size_t>{a}, g); double x = CloneRate(s, it, 0.0); REQ(cl_ms2, Same(x, s.GetLearningRate(it, 0.0))); }
// PlateauLR: mid-run clone, the four joint outcomes of the next observation
//@ cl_pl_improved: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::Clone -- clone taken after an improvement: an energy stagnant for the original is stagnant for the clone
OB(cl_pl_improved, double lr, double f, double th, double e1, double e2) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  PlateauLR s(lr, f, 1, th);
  s.GetLearningRate(0, e1);
  REQ(cl_pl_improved, Same(CloneRate(s, 0, e2), lr * f));
}
//@ cl_pl_improved2: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::Clone -- clone taken after an improvement: a further improvement keeps the rate
OB(cl_pl_improved2, double lr, double f, double th, double e1, double e2) {
  ASSUME(e1 < Max() - th);
  ASSUME(e2 < e1 - th);
  PlateauLR s(lr, f, 1, th);
  s.GetLearningRate(0, e1);
  REQ(cl_pl_improved2, Same(CloneRate(s, 0, e2), lr));
}
//@ cl_pl_counter: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::Clone -- clone taken with a non-zero patience counter: it decays at the same observation as the original
OB(cl_pl_counter, double lr, double f, double th, double e1, double e2, double e3) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  ASSUME(!(e3 < e1 - th));
  PlateauLR s(lr, f, 2, th);
  s.GetLearningRate(0, e1);
  s.GetLearningRate(0, e2);
  REQ(cl_pl_counter, Same(CloneRate(s, 0, e3), lr * f));
}
//@ cl_pl_decayed: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::Clone -- clone taken after a decay keeps the decayed rate and the new reference energy
OB(cl_pl_decayed, double lr, double f, double th, double e1, double e2, double e3) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  ASSUME(e3 < e2 - th);
  PlateauLR s(lr, f, 1, th);
  s.GetLearningRate(0, e1);
  s.GetLearningRate(0, e2);
  REQ(cl_pl_decayed, Same(CloneRate(s, 0, e3), lr * f));
}
//@ cl_pl_indep: include/qlpeps/optimizer/lr_schedulers.h :: PlateauLR::Clone -- stepping the clone does not move the original
OB(cl_pl_indep, double lr, double f, double th, double e1, double e2, double e3) {
  ASSUME(e1 < Max() - th);
  ASSUME(!(e2 < e1 - th));
  ASSUME(e3 < e1 - th);
  PlateauLR s(lr, f, 1, th);
  s.GetLearningRate(0, e1);
  double x = CloneRate(s, 0, e2);
  REQ(cl_pl_indep, Same(x, lr * f));
  REQ(cl_pl_indep, Same(s.GetLearningRate(0, e3), lr));
}
