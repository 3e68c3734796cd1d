#include "optparams_common.h"
#define F "include/qlpeps/optimizer/optimizer_params.h"
// the layout the witness enumerates is the layout of the current tree: a field added later must be added here
//@ bp_ctor: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::BaseParams::BaseParams -- constructor arguments reach their fields; optional features start disabled
OB(bp_ctor, size_t it, double e, double g, size_t p, double lr) {
  auto *b = At<BP>(qlv_opaque_a, it, e, g, p, lr);
  Snap s{};
  s.max_iterations = it; s.energy_tolerance = e; s.gradient_tolerance = g; s.plateau_patience = p; s.learning_rate = lr;
  s.i_steps = 3; s.p_every = 10; s.p_ratio = 0.3;
  REQ_BASE(bp_ctor, *b, s);
}
//@ bp_ctor_sched: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::BaseParams::BaseParams -- a scheduler argument is stored
OB(bp_ctor_sched, size_t it, double e, double g, size_t p, double lr, double x, double y, size_t n) {
  BP b(it, e, g, p, lr, std::make_unique<ExponentialDecayLR>(x, y, n));
  REQ(bp_ctor_sched, b.lr_scheduler != nullptr);
  REQ(bp_ctor_sched, b.lr_scheduler->kind == 2 && Same(b.lr_scheduler->p0, x) && Same(b.lr_scheduler->p1, y) && b.lr_scheduler->n0 == n);
}
//@ bp_copy_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::BaseParams copy constructor -- the copy carries every field, the scheduler cloned
//@ bp_copysrc_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::BaseParams copy constructor -- the source keeps every field and its own scheduler object
//@ bp_asg_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::BaseParams copy assignment -- every field of the target is replaced
//@ bp_asgsrc_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::BaseParams copy assignment -- the source keeps every field and its own scheduler object
//@ bp_self_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::BaseParams copy assignment -- self-assignment changes nothing
//@ bp_move_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::BaseParams move constructor -- the new object carries every field
//@ bp_moveasg_*: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams::BaseParams move assignment -- every field of the target is replaced
#define COPY_OBS(tag, SCHED, CV, CN)                                                     \
  OB(bp_copy_##tag) {                                                                    \
    Snap s = AnySnap(SCHED, CV, CN); BP o(0, 0, 0, 0, 0); Put(o, s);                     \
    BP b(o);                                                                             \
    REQ_BASE(bp_copy_##tag, b, s);                                                       \
  }                                                                                      \
  OB(bp_copysrc_##tag) {                                                                 \
    Snap s = AnySnap(SCHED, CV, CN); BP o(0, 0, 0, 0, 0); Put(o, s);                     \
    BP b(o);                                                                             \
    REQ_BASE(bp_copysrc_##tag, o, s);                                                    \
    REQ(bp_copysrc_##tag, !SCHED || b.lr_scheduler.get() != o.lr_scheduler.get());       \
  }                                                                                      \
  OB(bp_asg_##tag) {                                                                     \
    Snap s = AnySnap(SCHED, CV, CN); BP o(0, 0, 0, 0, 0); Put(o, s);                     \
    Snap t = AnySnap(true, true, true); BP b(0, 0, 0, 0, 0); Put(b, t);                  \
    b = o;                                                                               \
    REQ_BASE(bp_asg_##tag, b, s);                                                        \
  }                                                                                      \
  OB(bp_asgsrc_##tag) {                                                                  \
    Snap s = AnySnap(SCHED, CV, CN); BP o(0, 0, 0, 0, 0); Put(o, s);                     \
    Snap t = AnySnap(false, false, false); BP b(0, 0, 0, 0, 0); Put(b, t);               \
    b = o;                                                                               \
    REQ_BASE(bp_asgsrc_##tag, o, s);                                                     \
    REQ(bp_asgsrc_##tag, !SCHED || b.lr_scheduler.get() != o.lr_scheduler.get());        \
  }                                                                                      \
  OB(bp_self_##tag) {                                                                    \
    Snap s = AnySnap(SCHED, CV, CN); BP o(0, 0, 0, 0, 0); Put(o, s);                     \
    BP &r = o; o = r;                                                                    \
    REQ_BASE(bp_self_##tag, o, s);                                                       \
  }                                                                                      \
  OB(bp_move_##tag) {                                                                    \
    Snap s = AnySnap(SCHED, CV, CN); BP o(0, 0, 0, 0, 0); Put(o, s);                     \
    BP b(std::move(o));                                                                  \
    REQ_BASE(bp_move_##tag, b, s);                                                       \
  }                                                                                      \
  OB(bp_moveasg_##tag) {                                                                 \
    Snap s = AnySnap(SCHED, CV, CN); BP o(0, 0, 0, 0, 0); Put(o, s);                     \
    Snap t = AnySnap(true, true, true); BP b(0, 0, 0, 0, 0); Put(b, t);                  \
    b = std::move(o);                                                                    \
    REQ_BASE(bp_moveasg_##tag, b, s);                                                    \
  }
COPY_OBS(full, true, true, true)
COPY_OBS(bare, false, false, false)
COPY_OBS(value, false, true, false)
COPY_OBS(norm, true, false, true)

// OptimizerParams as a whole
//@ op_ctor2: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams(base, algo) -- keeps both, defaults for checkpoint / spike recovery
OB(op_ctor2, double m, bool n, double w) {
  Snap s = AnySnap(true, true, true); BP o(0, 0, 0, 0, 0); Put(o, s);
  OptimizerParams p(o, SGDParams(m, n, w));
  REQ_BASE(op_ctor2, p.base_params, s);
  REQ(op_ctor2, p.IsAlgorithm<SGDParams>());
  REQ(op_ctor2, Same(p.GetAlgorithmParams<SGDParams>().momentum, m) && p.GetAlgorithmParams<SGDParams>().nesterov == n && Same(p.GetAlgorithmParams<SGDParams>().weight_decay, w));
  REQ(op_ctor2, !p.checkpoint_params.IsEnabled());
  REQ(op_ctor2, p.spike_recovery_params.enable_auto_recover && !p.spike_recovery_params.enable_rollback);
}
//@ op_ctor4: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams(base, algo, checkpoint, spike) -- keeps all four
OB(op_ctor4, size_t every, long path) {
  Snap s = AnySnap(true, false, true); BP o(0, 0, 0, 0, 0); Put(o, s);
  CheckpointParams c; c.every_n_steps = every; c.base_path.id = path;
  SpikeRecoveryParams sp = AnySpike();
  OptimizerParams p(o, MinSRParams(), c, sp);
  REQ_BASE(op_ctor4, p.base_params, s);
  REQ(op_ctor4, p.IsAlgorithm<MinSRParams>());
  REQ(op_ctor4, p.checkpoint_params.every_n_steps == every && p.checkpoint_params.base_path.id == path);
  REQ_SPIKE(op_ctor4, p.spike_recovery_params, sp);
}
//@ op_copy: include/qlpeps/optimizer/optimizer_params.h :: OptimizerParams -- copying keeps base, algorithm, checkpoint and spike parameters
OB(op_copy, size_t every, long path, double b1, double b2, double ep, double wd) {
  Snap s = AnySnap(true, true, false); BP o(0, 0, 0, 0, 0); Put(o, s);
  CheckpointParams c; c.every_n_steps = every; c.base_path.id = path;
  SpikeRecoveryParams sp = AnySpike();
  OptimizerParams p(o, AdamParams(b1, b2, ep, wd), c, sp);
  OptimizerParams q(p);
  REQ_BASE(op_copy, q.base_params, s);
  REQ(op_copy, q.IsAlgorithm<AdamParams>());
  REQ(op_copy, Same(q.GetAlgorithmParams<AdamParams>().beta1, b1) && Same(q.GetAlgorithmParams<AdamParams>().beta2, b2));
  REQ(op_copy, Same(q.GetAlgorithmParams<AdamParams>().epsilon, ep) && Same(q.GetAlgorithmParams<AdamParams>().weight_decay, wd));
  REQ(op_copy, q.checkpoint_params.every_n_steps == every && q.checkpoint_params.base_path.id == path);
  REQ_SPIKE(op_copy, q.spike_recovery_params, sp);
}
