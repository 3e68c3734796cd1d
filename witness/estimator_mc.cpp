//@@ flat
#include "estimator_common.h"
#include "qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h"
#undef vector
//@ mc_*: include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h :: MCEnergyGradEvaluator::Evaluate -- energy, gradient, SR buffers and rates are the stated averages of the samples of this rank, reduced over ranks
//@ eo_*: include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h :: MCEnergyGradEvaluator::EvaluateEnergyOnly -- the energy-only evaluation draws and averages the same energies
using namespace qlpeps; using qlv::Same;
static inline bool Eq(double got, double want) { return got == want || want != want; }
static inline bool EqZ(Z got, Z want) { return Eq(got.real(), want.real()) && Eq(got.imag(), want.imag()); }
#define SPAR double e0, double e0i, double e1, double e1i, double a0, double a0i, double a1, double a1i, double h0, double h0i, double h1, double h1i, double h2, double h2i, double h3, double h3i, double r0, double r1, double r2, double r3, double m, double mi, double er, double g0, double g1, int c0, int c1, int c2, int c3
#define SETUP(Q, RANK, N) \
  run = Run(); run.rank = RANK; run.size = 2; run.spr = N; run.mean = Z(m, mi); run.err = er; run.legal = 1; run.want_assign = 1; run.gmax[0] = g0; run.gmax[1] = g1; c0 &= 1; c1 &= 1; c2 &= 1; c3 &= 1; \
  run.s[0].e = Z(e0, e0i); run.s[1].e = Z(e1, e1i); run.s[0].a = Z(a0, a0i); run.s[1].a = Z(a1, a1i); \
  run.s[0].h[0] = Z(h0, h0i); run.s[0].h[1] = Z(h1, h1i); run.s[1].h[0] = Z(h2, h2i); run.s[1].h[1] = Z(h3, h3i); \
  run.s[0].r[0] = r0; run.s[0].r[1] = r1; run.s[1].r[0] = r2; run.s[1].r[1] = r3; \
  run.s[0].c[0] = c0; run.s[0].c[1] = c1; run.s[1].c[0] = c2; run.s[1].c[1] = c3; \
  typedef SplitIndexTPS<Z, Q> ST; typedef QLTensor<Z, Q> T; MonteCarloEngine<Z, Q, Upd, BMPSContractor> en; Solver<Z, Q> so; so.own = &en.st; \
  ST psi(QLV_R, QLV_C, 2); psi.s[0][0] = T(Z(.5, .25)); psi.s[0][1] = T(Z(.5, .5)); psi.s[1][0] = T(Z(2, 1)); psi.s[1][1] = T(Z(3, 1)); if (RANK) en.st = psi; \
  MPI_Comm comm = (MPI_Comm)1; MCEnergyGradEvaluator<Z, Q, Upd, Solver<Z, Q>> ev(en, so, comm, SR); comm = (MPI_Comm)2
#define ENV(nm, N) REQF(nm, collectives, run.n_bcast == 1 && run.n_refresh == 1 && run.n == N && run.n_energy == N && run.n_bin == 1 && run.n_eb == 1 && run.n_max == 1); \
  REQF(nm, energy, EqZ(res.energy, Z(m, mi))); REQF(nm, binned, run.bin_n == N && EqZ(run.bin[0], Z(e0, e0i)) && (N < 2 || EqZ(run.bin[1], Z(e1, e1i))));
#define SAMPLES(nm, N) REQF(nm, samples, res.energy_samples.size() == N && EqZ(res.energy_samples[0], Z(e0, e0i)) && (N < 2 || EqZ(res.energy_samples[N - 1], Z(e1, e1i))))
#define MEANOF(z) Z(qlv_uf_mean_re((z).real(), (z).imag()), qlv_uf_mean_im((z).real(), (z).imag()))

#define SP4 SPLIT(0, (c0 & 1) == 0); SPLIT(1, (c1 & 1) == 0); SPLIT(2, (c2 & 1) == 0); SPLIT(3, (c3 & 1) == 0)
#define SP2 SPLIT(0, (c0 & 1) == 0); SPLIT(1, (c1 & 1) == 0)
// O*_k at site x (bosons): conj(1/psi) * hole
#define OB0(x) (std::conj(1.0 / Z(a0, a0i)) * ((x) ? Z(h1, h1i) : Z(h0, h0i)))
#define OB1(x) (std::conj(1.0 / Z(a1, a1i)) * ((x) ? Z(h3, h3i) : Z(h2, h2i)))
#define IF(c, z) ((c) ? (z) : Z(0, 0))
#define CFG(k, x) run.s[k].c[x]
#define GRAD1(nm, x, i) { const Z o = IF(CFG(0, x) == i, OB0(x)), g = std::conj(Z(e0, e0i)) * o - std::conj(Z(m, mi)) * o; REQF(nm, gradient, !res.gradient.s[x][i].d && EqZ(res.gradient.s[x][i].v, MEANOF(g))); }
#define GRAD2(nm, x, i) { const Z o0 = IF(CFG(0, x) == i, OB0(x)), o1 = IF(CFG(1, x) == i, OB1(x)), g = (std::conj(Z(e0, e0i)) * o0 + std::conj(Z(e1, e1i)) * o1) * 0.5 - std::conj(Z(m, mi)) * ((o0 + o1) * 0.5); REQF(nm, gradient, !res.gradient.s[x][i].d && EqZ(res.gradient.s[x][i].v, MEANOF(g))); }
#define ALL(G, nm) G(nm, 0, 0) G(nm, 0, 1) G(nm, 1, 0) G(nm, 1, 1)

#define SRS1(nm, x, i) REQF(nm, sample, i == CFG(0, x) ? !res.Ostar_samples[0].s[x][i].d && EqZ(res.Ostar_samples[0].s[x][i].v, OB0(x)) : (res.Ostar_samples[0].s[x][i].d || EqZ(res.Ostar_samples[0].s[x][i].v, Z(0, 0))));
#define SRS2(nm, x, i) SRS1(nm, x, i) REQF(nm, sample, i == CFG(1, x) ? !res.Ostar_samples[1].s[x][i].d && EqZ(res.Ostar_samples[1].s[x][i].v, OB1(x)) : (res.Ostar_samples[1].s[x][i].d || EqZ(res.Ostar_samples[1].s[x][i].v, Z(0, 0))));
#define SRM2(nm, x, i) { const Z o = (IF(CFG(0, x) == i, OB0(x)) + IF(CFG(1, x) == i, OB1(x))) * 0.5; REQF(nm, mean, !res.Ostar_mean->s[x][i].d && EqZ(res.Ostar_mean->s[x][i].v, MEANOF(o))); }
#define NOSR(nm) REQF(nm, buffers, !res.Ostar_mean.has_value() && res.Ostar_samples.size() == 0)
#define RATES1(nm) REQF(nm, rates, res.accept_rates_avg.size() == 2 && Eq(res.accept_rates_avg[0], r0) && Eq(res.accept_rates_avg[1], r1))
#define RATES2(nm) REQF(nm, rates, res.accept_rates_avg.size() == 2 && Eq(res.accept_rates_avg[0], (r0 + r2) / 2) && Eq(res.accept_rates_avg[1], (r1 + r3) / 2))
#define SHAPE(nm) REQF(nm, shape, res.gradient.rows() == QLV_R && res.gradient.cols() == QLV_C && res.gradient.s[0].size() == 2 && res.gradient.s[1].size() == 2)
#define STATE(nm) REQF(nm, state, EqZ(en.st.s[0][0].v, Z(.5, .25)) && EqZ(en.st.s[0][1].v, Z(.5, .5)) && EqZ(en.st.s[1][0].v, Z(2, 1)) && EqZ(en.st.s[1][1].v, Z(3, 1)))
#define NQ(x, i) qlv_uf_nsq(res.gradient.s[x][i].v.real(), res.gradient.s[x][i].v.imag())
#define NORM(nm) REQF(nm, norm, Eq(res.gradient_norm, NQ(0, 0) + NQ(0, 1) + NQ(1, 0) + NQ(1, 1)))
#define MASTER(nm) REQF(nm, error, Same(res.energy_error, er)); NORM(nm); SHAPE(nm); STATE(nm)
#define OTHER(nm) REQF(nm, error, Same(res.energy_error, 0.0))
#define EVAL const auto res = ev.Evaluate(psi)
#define SR false
OB(mc_one, SPAR) { SP2; SETUP(QB, 0, 1); EVAL; ENV(mc_one, 1); SAMPLES(mc_one, 1); ALL(GRAD1, mc_one) NOSR(mc_one); RATES1(mc_one); MASTER(mc_one); }
OB(mc_two, SPAR) { SP4; SETUP(QB, 0, 2); EVAL; ENV(mc_two, 2); SAMPLES(mc_two, 2); ALL(GRAD2, mc_two) NOSR(mc_two); RATES2(mc_two); MASTER(mc_two); }
OB(mc_own, SPAR) { SP2; SETUP(QB, 0, 1); en.st = psi; run.want_assign = 0; const auto res = ev.Evaluate(en.State()); ENV(mc_own, 1); ALL(GRAD1, mc_own) MASTER(mc_own); }
OB(mc_other, SPAR) { SP2; c2 = 1 - (c0 & 1); c3 = 1; SETUP(QB, 1, 2); EVAL; ENV(mc_other, 2); SAMPLES(mc_other, 2); NOSR(mc_other); RATES2(mc_other); OTHER(mc_other); STATE(mc_other); REQF(mc_other, assigned, run.n_assign == 0); REQF(mc_other, reductions, run.n_sub == 4); }
OB(eo_master, SPAR) { SP2; SETUP(QB, 0, 2); const auto res = ev.EvaluateEnergyOnly(psi); ENV(eo_master, 2); RATES2(eo_master); REQF(eo_master, error, Same(res.energy_error, er)); STATE(eo_master); }
OB(eo_other, SPAR) { SP2; SETUP(QB, 1, 2); const auto res = ev.EvaluateEnergyOnly(psi); ENV(eo_other, 2); RATES2(eo_other); REQF(eo_other, error, Same(res.energy_error, 0.0)); REQF(eo_other, assigned, run.n_assign == 0); }
#undef SR
#define SR true
OB(mc_sr, SPAR) { SP2; c2 = 0; c3 = c1; SETUP(QB, 0, 2); EVAL; ENV(mc_sr, 2); SAMPLES(mc_sr, 2); ALL(GRAD2, mc_sr) RATES2(mc_sr); MASTER(mc_sr); }
OB(mc_srb, SPAR) { SP4; SETUP(QB, 0, 2); EVAL; REQF(mc_srb, buffers, res.Ostar_mean.has_value() && res.Ostar_samples.size() == 2); ALL(SRS2, mc_srb) ALL(SRM2, mc_srb) }
OB(mc_sro, SPAR) { SP2; c2 = 1; c3 = 1 - (c1 & 1); SETUP(QB, 1, 2); EVAL; ENV(mc_sro, 2); SAMPLES(mc_sro, 2); REQF(mc_sro, buffers, res.Ostar_mean.has_value() && res.Ostar_samples.size() == 2); ALL(SRS2, mc_sro) OTHER(mc_sro); REQF(mc_sro, reductions, run.n_sub == 8); }
// fermions: O* = parity of conj(hole) contracted back, R* = hole (hole^dag . T) / |hole^dag . T|^2
#undef OB0
#undef OB1
#define TEN(x, i) ((x) ? ((i) ? Z(3, 1) : Z(2, 1)) : ((i) ? Z(.5, .5) : Z(.5, .25)))
static inline Z Par(Z z) { return Z(qlv_uf_par_re(z.real(), z.imag()), qlv_uf_par_im(z.real(), z.imag())); }
static inline Z Fer(Z h, Z t) { const Z p = std::conj(h) * t; return Par(h * p * (1.0 / std::norm(p))); }
#define OB0(x) Fer((x) ? Z(h1, h1i) : Z(h0, h0i), TEN(x, CFG(0, x)))
#define OB1(x) Fer((x) ? Z(h3, h3i) : Z(h2, h2i), TEN(x, CFG(1, x)))
OB(mc_fermi, SPAR) { SP2; c2 = 1; c3 = 1 - (c1 & 1); SETUP(QF, 0, 2); EVAL; ENV(mc_fermi, 2); SAMPLES(mc_fermi, 2); ALL(GRAD2, mc_fermi) RATES2(mc_fermi); MASTER(mc_fermi); }
OB(mc_fsr, SPAR) { SP2; c2 = 1 - (c0 & 1); c3 = 0; SETUP(QF, 0, 2); EVAL; REQF(mc_fsr, buffers, res.Ostar_mean.has_value() && res.Ostar_samples.size() == 2); ALL(SRS2, mc_fsr) ALL(SRM2, mc_fsr) }
