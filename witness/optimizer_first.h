#include "optimizer_common.h"
static inline OptimizerParams Pars(size_t it, double lr) {
  OptimizerParams p; p.base_params.max_iterations = it; p.base_params.learning_rate = lr; p.base_params.energy_tolerance = 0; p.base_params.gradient_tolerance = 0; p.base_params.plateau_patience = 100; p.spike_recovery_params.enable_auto_recover = false;
  return p;
}
static inline OptimizerParams Sgd(size_t it, double lr, double mu, bool nest, double wd) { OptimizerParams p = Pars(it, lr); p.algorithm_params = SGDParams(mu, nest, wd); return p; }
#define C_ (MPI_Comm)1
static inline OptimizerParams Ada(size_t it, double lr, double eps, double init) { OptimizerParams p = Pars(it, lr); p.algorithm_params = AdaGradParams(eps, init); return p; }
static inline double AdaStep(double G, double g, double lr, double eps) { return qlv_uf_inv(qlv_uf_root(G), eps) * g * lr; }
struct AdamOracle {
  double m = 0, v = 0; size_t t = 0;
  double Step(double th, double g, double lr, const AdamParams &p) {
    ++t; m = p.beta1 * m + (1 - p.beta1) * g; v = p.beta2 * v + (1 - p.beta2) * qlv_uf_abs2(g);
    const double mh = m / (1 - qlv_uf_pow(p.beta1, (double)t)), vh = v / (1 - qlv_uf_pow(p.beta2, (double)t));
    const double d = p.weight_decay > 0 ? 1 - lr * p.weight_decay : 1.0;
    return th * d - lr * mh * qlv_uf_inv(qlv_uf_root(vh), p.epsilon);
  }
};
#define ADP double b1, double b2, double eps, double wd
