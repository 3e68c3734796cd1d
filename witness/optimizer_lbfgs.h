#include "optimizer_first.h"
static inline OptimizerParams Lb(size_t it, double lr, const LBFGSParams &l) { OptimizerParams p = Pars(it, lr); p.algorithm_params = l; return p; }
static inline LBFGSParams Fixed(size_t hist, double mc, bool damp, double cap = 0.0) { LBFGSParams l; l.history_size = hist; l.min_curvature = mc; l.use_damping = damp; l.max_direction_norm = cap; l.step_mode = LBFGSStepMode::kFixed; return l; }
#if QLV_D == 2
static double ev_h[QLV_EVALS], ev_at2[QLV_EVALS];
struct Full2 { Ev operator()(const W &w) const { const int k = ev.n++; if (k >= QLV_EVALS) qlv_model_overflow(); ev.at[k] = V(w); ev_at2[k] = V2(w); return Ev(ev.e[k], St(ev.g[k], ev_h[k]), ev.err[k]); } };
static inline void Call2(int k, double e, double g, double h, double err) { Call(k, e, g, err); ev_h[k] = h; }
// ---- the inverse-Hessian matrices in product form (the code runs the two-loop recursion)
struct V_ { double a, b; };
static inline double Dot(V_ x, V_ y) { return x.a * y.a + x.b * y.b; }
static inline V_ Axpy(double t, V_ x, V_ y) { return {t * x.a + y.a, t * x.b + y.b}; }
static inline V_ Sub(V_ x, V_ y) { return {x.a - y.a, x.b - y.b}; }
static inline V_ Scl(double t, V_ x) { return {t * x.a, t * x.b}; }
struct M_ { double p, q, r, s; };
static inline V_ Mul(M_ m, V_ x) { return {m.p * x.a + m.q * x.b, m.r * x.a + m.s * x.b}; }
static inline M_ Mul(M_ m, M_ n) { return {m.p * n.p + m.q * n.r, m.p * n.q + m.q * n.s, m.r * n.p + m.s * n.r, m.r * n.q + m.s * n.s}; }
static inline M_ Out(V_ s, V_ y, double rho) { return {1 - rho * s.a * y.a, -rho * s.a * y.b, -rho * s.b * y.a, 1 - rho * s.b * y.b}; }    // 1 - rho s y^T
static inline M_ Bfgs(M_ H, V_ s, V_ y) {
  const double rho = 1.0 / Dot(s, y); const M_ L = Out(s, y, rho), R = Out(y, s, rho); M_ K = Mul(Mul(L, H), R);
  K.p += rho * s.a * s.a; K.q += rho * s.a * s.b; K.r += rho * s.b * s.a; K.s += rho * s.b * s.b; return K;
}
static inline M_ Id(double c) { return {c, 0, 0, c}; }
static inline double Gam(V_ s, V_ y) { return Dot(s, y) / Dot(y, y); }
#define EPS_ __DBL_EPSILON__
#endif
