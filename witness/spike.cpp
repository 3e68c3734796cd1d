#include "qlv.h"
#include <cmath>
#include "qlpeps/optimizer/spike_detection.h"
using namespace qlpeps;
using namespace qlv;

//@ ema_fresh: include/qlpeps/optimizer/spike_detection.h :: EMATracker::EMATracker -- a new tracker is uninitialised with zero mean and variance
OB(ema_fresh, size_t w) {
  auto *t = At<EMATracker>(qlv_opaque_a, w);
  REQ(ema_fresh, !t->IsInitialized());
  REQ(ema_fresh, Same(t->Mean(), 0.0));
  REQ(ema_fresh, Same(t->Var(), 0.0));
}
//@ ema_first: include/qlpeps/optimizer/spike_detection.h :: EMATracker::Update -- the first observation becomes the mean, with zero variance
OB(ema_first, size_t w, double x) {
  auto *t = At<EMATracker>(qlv_opaque_a, w);
  t->Update(x);
  REQ(ema_first, t->IsInitialized());
  REQ(ema_first, Same(t->Mean(), x));
  REQ(ema_first, Same(t->Var(), 0.0));
  REQ(ema_first, Same(t->Std(), std::sqrt(0.0)));
}
// Inductive step over every initialised state: the state reached by two arbitrary updates, then one more.
//@ ema_step_mean: include/qlpeps/optimizer/spike_detection.h :: EMATracker::Update -- ema += alpha * (x - ema), alpha = 2/(window+1)
OB(ema_step_mean, size_t w, double x0, double x1, double y) {
  EMATracker t(w);
  const double al = 2.0 / (static_cast<double>(w) + 1.0);
  t.Update(x0);
  t.Update(x1);
  const double m = t.Mean();
  t.Update(y);
  REQ(ema_step_mean, Same(t.Mean(), m + al * (y - m)));
  REQ(ema_step_mean, t.IsInitialized());
}
//@ ema_step_var: include/qlpeps/optimizer/spike_detection.h :: EMATracker::Update -- var = (1-alpha)(var + alpha*delta^2) with delta taken against the old mean
OB(ema_step_var, size_t w, double x0, double x1, double y) {
  EMATracker t(w);
  const double al = 2.0 / (static_cast<double>(w) + 1.0);
  t.Update(x0);
  t.Update(x1);
  const double m = t.Mean(), v = t.Var(), d = y - m;
  t.Update(y);
  REQ(ema_step_var, Same(t.Var(), (1.0 - al) * (v + al * d * d)));
}
//@ ema_std: include/qlpeps/optimizer/spike_detection.h :: EMATracker::Std -- Std() is the square root of Var() in every state
OB(ema_std, const EMATracker &t) { REQ(ema_std, Same(t.Std(), std::sqrt(t.Var()))); }
//@ ema_reset: include/qlpeps/optimizer/spike_detection.h :: EMATracker::Reset -- forgets every observation, from any state
OB(ema_reset, EMATracker &t, double y) {
  t.Reset();
  REQ(ema_reset, !t.IsInitialized());
  REQ(ema_reset, Same(t.Mean(), 0.0));
  REQ(ema_reset, Same(t.Var(), 0.0));
  t.Update(y);
  REQ(ema_reset, Same(t.Mean(), y));
  REQ(ema_reset, Same(t.Var(), 0.0));
  REQ(ema_reset, t.IsInitialized());
}
//@ ema_reset_alpha: include/qlpeps/optimizer/spike_detection.h :: EMATracker::Reset -- keeps the smoothing window
OB(ema_reset_alpha, size_t w, double x, double y, double z) {
  EMATracker t(w);
  const double al = 2.0 / (static_cast<double>(w) + 1.0);
  t.Update(x);
  t.Reset();
  t.Update(y);
  t.Update(z);
  REQ(ema_reset_alpha, Same(t.Mean(), y + al * (z - y)));
}
//@ ema_copy: include/qlpeps/optimizer/spike_detection.h :: EMATracker -- copies continue identically and independently
OB(ema_copy, size_t w, double x, double y) {
  EMATracker t(w);
  t.Update(x);
  EMATracker c(t);
  t.Update(y);
  REQ(ema_copy, Same(c.Mean(), x));
  c.Update(y);
  REQ(ema_copy, Same(c.Mean(), t.Mean()));
  REQ(ema_copy, Same(c.Var(), t.Var()));
}
