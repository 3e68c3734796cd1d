#include "optimizer_first.h"
static inline double Nrm(double g) { return __builtin_sqrt(qlv_uf_nsq(g)); }
static inline OptimizerParams Sr(size_t it, double lr, double shift, bool norm) {
  OptimizerParams p = Pars(it, lr); StochasticReconfigurationParams s; s.diag_shift = shift; s.normalize_update = norm; p.algorithm_params = s; return p;
}
static inline void Cg(double x, size_t it, CGTerminationReason r = CGTerminationReason::kConverged) { cg.x = x; cg.x2 = x; cg.iters = it; cg.iters2 = it; cg.reason = (int)r; }
typedef std::qlv_vector<W> Ws;
static inline Ws Samples(double a, double b) { Ws s; s.push_back(St(a)); s.push_back(St(b)); return s; }
