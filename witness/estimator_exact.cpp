//@@ flat
#define QLV_VCAP 6
#define QLV_EXACT
#include "estimator_common.h"
#include "qlv_algo.h"
//@ ex_*: include/qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h :: ExactSumEnergyEvaluatorMPI -- energy and gradient are the |psi|^2-weighted sums over all configurations, whatever the number of ranks
//@ en_*: include/qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h :: GenerateAllPermutationConfigs / Vec2Config -- every distinct arrangement exactly once, row by row
struct Wire { long n_send, n_recv, n_red, n_bcast; Z got[2][2][2]; Z sent[2][2][2]; bool sd[2][2][2]; long tag[4], peer[4]; double w, sent_w; Z e, sent_e; };
static Wire wi;
namespace qlpeps {
template <class E, class Q> inline void qlv_dummy(E) {}
template <class E, class Q> inline MPI_Status MPI_Recv(SplitIndexTPS<E, Q> &t, int from, const MPI_Comm &c, int tag) {
  QlvComm(c); if (wi.n_recv >= 2 || run.rank != 0) qlv_bad_mpi_call(); const long k = wi.n_recv++; wi.peer[k] = from; wi.tag[k] = tag; t = SplitIndexTPS<E, Q>(QLV_R, QLV_C, 2);
  for (int x = 0; x < 2; ++x) for (int i = 0; i < 2; ++i) t.s[x][i] = QLTensor<E, Q>(k == 0 ? wi.got[0][x][i] : wi.got[1][x][i]);
  return MPI_Status{from, tag, 0};
}
template <class E, class Q> inline void MPI_Send(const SplitIndexTPS<E, Q> &t, int to, const MPI_Comm &c, int tag) {
  QlvComm(c); if (wi.n_send >= 2 || run.rank == 0) qlv_bad_mpi_call(); const long k = wi.n_send++; wi.peer[k] = to; wi.tag[k] = tag;
  for (int x = 0; x < 2; ++x) for (int i = 0; i < 2; ++i) { if (k == 0) { wi.sent[0][x][i] = t.s[x][i].v; wi.sd[0][x][i] = t.s[x][i].d; } else { wi.sent[1][x][i] = t.s[x][i].v; wi.sd[1][x][i] = t.s[x][i].d; } }
}
}  // namespace qlpeps
inline int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  qlpeps::QlvComm(c); if (n != 1 || op != MPI_SUM || root != 0) qlv_bad_mpi_call(); ++wi.n_red;
  if (t == MPI_DOUBLE) { wi.sent_w = *(const double *)a; if (qlpeps::run.rank == 0) *(double *)b = *(const double *)a + wi.w; }
  else if (t == MPI_CXX_DOUBLE_COMPLEX) { wi.sent_e = *(const Z *)a; if (qlpeps::run.rank == 0) *(Z *)b = *(const Z *)a + wi.e; }
  else qlv_bad_mpi_call();
  return MPI_SUCCESS;
}
namespace qlpeps { namespace hp_numeric = qlten::hp_numeric; }
#include "qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h"
#undef vector
using namespace qlpeps; using qlv::Same;
static inline bool Eq(double got, double want) { return got == want || want != want; }
static inline bool EqZ(Z got, Z want) { return Eq(got.real(), want.real()) && Eq(got.imag(), want.imag()); }
// configuration number k = 0..2 (its first site is k >> 1, its second k & 1) has amplitude a[k], energy e[k], holes h[k]
struct Cf { Z a, e, h[2]; };
static Cf cf[3]; static long n_seen[3], n_built; static const void *bst;
template <class E, class Q, class D, template <class, class> class C> inline void qlpeps::TPSWaveFunctionComponent<E, Q, D, C>::init(const SplitIndexTPS<E, Q> &st, const Configuration &f) {
  const size_t k = f({0, 0}) * 2 + f({0, 1}); if (k > 2) qlv_bad_order(); bst = &st; ++n_built;
  amplitude = k == 0 ? cf[0].a : k == 1 ? cf[1].a : cf[2].a; tn({0, 0}) = st.s[0][f({0, 0})]; tn({0, 1}) = st.s[1][f({0, 1})];
  if (st.s[0][0].d || st.s[1][1].d) qlv_bad_order();
}
struct Mod {
  template <class E, class Q, bool H> Z CalEnergyAndHoles(const SplitIndexTPS<E, Q> *st, TPSWaveFunctionComponent<E, Q> *w, TensorNetwork2D<E, Q> &h) {
    if (!H || (const void *)st != bst) qlv_bad_order(); const size_t k = w->config({0, 0}) * 2 + w->config({0, 1}); if (k > 2) qlv_bad_order();
    const Cf &c = k == 0 ? cf[0] : k == 1 ? cf[1] : cf[2]; if (k == 0) ++n_seen[0]; else if (k == 1) ++n_seen[1]; else ++n_seen[2];
    h({0, 0}) = QLTensor<E, Q>(c.h[0]); h({0, 1}) = QLTensor<E, Q>(c.h[1]); return c.e;
  }
};
#define CPAR(k) double a##k, double a##k##i, double e##k, double e##k##i, double h##k, double h##k##i, double g##k, double g##k##i
#define SPAR CPAR(0), CPAR(1), CPAR(2)
#define SETC(k) cf[k].a = Z(a##k, a##k##i); cf[k].e = Z(e##k, e##k##i); cf[k].h[0] = Z(h##k, h##k##i); cf[k].h[1] = Z(g##k, g##k##i)
#define SETUP(Q, RANK, SIZE, N) \
  run = Run(); run.rank = RANK; run.size = SIZE; wi = Wire(); n_built = 0; n_seen[0] = n_seen[1] = n_seen[2] = 0; SETC(0); SETC(1); SETC(2); \
  typedef SplitIndexTPS<Z, Q> ST; typedef QLTensor<Z, Q> T; run.fill = RANK; ST psi; if (RANK == 0) { psi = ST(QLV_R, QLV_C, 2); psi.s[0][0] = T(Z(.5, .25)); psi.s[0][1] = T(Z(.5, .5)); psi.s[1][0] = T(Z(2, 1)); psi.s[1][1] = T(Z(3, 1)); } \
  std::qlv_vector<Configuration> all; { Configuration f(1, 2); all.push_back(f); if (N > 1) { f({0, 1}) = 1; all.push_back(f); } if (N > 2) { f({0, 0}) = 1; f({0, 1}) = 0; all.push_back(f); } } \
  const MPI_Comm comm = (MPI_Comm)1; Mod mod; BMPSTruncateParamsModel tp
#define CALL(Q) const auto res = ExactSumEnergyEvaluatorMPI<Mod, Z, Q>(psi, all, tp, mod, QLV_R, QLV_C, comm, (int)run.rank, (int)run.size)
#define CALL2(Q) const auto res2 = ExactSumEnergyEvaluatorMPI<Mod, Z, Q>(psi, all, tp, mod, QLV_R, QLV_C, comm, (int)run.rank, (int)run.size)
#define NRM(k) (a##k * a##k + a##k##i * a##k##i)
#define A(k) Z(a##k, a##k##i)
#define EE(k) Z(e##k, e##k##i)
#define HH(k, x) ((x) ? Z(g##k, g##k##i) : Z(h##k, h##k##i))
#define IF(c, z) ((c) ? (z) : Z(0, 0))
// state of site x in configuration k
#define CF(k, x) ((x) ? ((k) & 1) : ((k) >> 1))
#define WO(k, x) (A(k) * HH(k, x))
#define SO(k, x, i) IF(CF(k, x) == i, WO(k, x))
#define SEO(k, x, i) IF(CF(k, x) == i, std::conj(EE(k)) * WO(k, x))
#define GR(nm, x, i, o, eo, w) { const Z en = std::get<0>(res), g = ((eo) - std::conj(en) * (o)) * (1.0 / (w)); REQF(nm, gradient, EqZ(std::get<1>(res).s[x][i].v, g)); }
#define ALLG(G, nm) G(nm, 0, 0) G(nm, 0, 1) G(nm, 1, 0) G(nm, 1, 1)
OB(ex_one, SPAR) { SETUP(QB, 0, 1, 1); CALL(QB); REQF(ex_one, energy, EqZ(std::get<0>(res), EE(0) * NRM(0) / NRM(0))); REQF(ex_one, error, Same(std::get<2>(res), 0.0)); REQF(ex_one, once, n_seen[0] == 1 && n_built == 1);
#define G1(nm, x, i) GR(nm, x, i, SO(0, x, i), SEO(0, x, i), NRM(0))
  ALLG(G1, ex_one) }
OB(ex_three, SPAR) { SETUP(QB, 0, 1, 3); CALL(QB); REQF(ex_three, energy, EqZ(std::get<0>(res), (EE(0) * NRM(0) + EE(1) * NRM(1) + EE(2) * NRM(2)) / (NRM(0) + NRM(1) + NRM(2)))); REQF(ex_three, error, Same(std::get<2>(res), 0.0)); REQF(ex_three, once, n_seen[0] == 1 && n_seen[1] == 1 && n_seen[2] == 1 && n_built == 3); REQF(ex_three, alone, wi.n_send + wi.n_recv + wi.n_red == 0);
#define G3(nm, x, i) GR(nm, x, i, SO(0, x, i) + SO(1, x, i) + SO(2, x, i), SEO(0, x, i) + SEO(1, x, i) + SEO(2, x, i), NRM(0) + NRM(1) + NRM(2))
  ALLG(G3, ex_three) }
#define RPAR double w, double ei, double ej, double p0, double p0i, double p1, double p1i, double p2, double p2i, double p3, double p3i, double q0, double q0i, double q1, double q1i, double q2, double q2i, double q3, double q3i
#define REMOTE wi.w = w; wi.e = Z(ei, ej); wi.got[0][0][0] = Z(p0, p0i); wi.got[0][0][1] = Z(p1, p1i); wi.got[0][1][0] = Z(p2, p2i); wi.got[0][1][1] = Z(p3, p3i); wi.got[1][0][0] = Z(q0, q0i); wi.got[1][0][1] = Z(q1, q1i); wi.got[1][1][0] = Z(q2, q2i); wi.got[1][1][1] = Z(q3, q3i)
OB(ex_master, SPAR, RPAR) { SETUP(QB, 0, 2, 3); REMOTE; CALL(QB); const double W = NRM(0) + NRM(2) + w; REQF(ex_master, energy, EqZ(std::get<0>(res), (EE(0) * NRM(0) + EE(2) * NRM(2) + Z(ei, ej)) / W)); REQF(ex_master, error, Same(std::get<2>(res), 0.0)); REQF(ex_master, share, n_seen[0] == 1 && n_seen[1] == 0 && n_seen[2] == 1 && n_built == 2); REQF(ex_master, collectives, run.n_bcast == 1 && wi.n_send == 0 && wi.n_recv == 2 && wi.n_red == 2 && wi.peer[0] == 1 && wi.peer[1] == 1);
#define GM(nm, x, i) GR(nm, x, i, SO(0, x, i) + SO(2, x, i) + wi.got[0][x][i], SEO(0, x, i) + SEO(2, x, i) + wi.got[1][x][i], W)
  ALLG(GM, ex_master) }
#define SENT(nm, x, i, o, eo) REQF(nm, sent, EqZ(wi.sent[0][x][i], o) && EqZ(wi.sent[1][x][i], eo));
#define ZERO(nm, x, i) REQF(nm, placeholder, std::get<1>(res).s[x][i].d || EqZ(std::get<1>(res).s[x][i].v, Z(0, 0)));
OB(ex_worker, SPAR) { SETUP(QB, 1, 2, 3); CALL(QB); REQF(ex_worker, share, n_seen[0] == 0 && n_seen[1] == 1 && n_seen[2] == 0 && n_built == 1); REQF(ex_worker, collectives, run.n_bcast == 1 && wi.n_send == 2 && wi.n_recv == 0 && wi.n_red == 2 && wi.peer[0] == 0 && wi.peer[1] == 0);
  REQF(ex_worker, scalars, Eq(wi.sent_w, NRM(1)) && EqZ(wi.sent_e, EE(1) * NRM(1))); REQF(ex_worker, result, EqZ(std::get<0>(res), Z(0, 0)) && Same(std::get<2>(res), 0.0) && std::get<1>(res).rows() == QLV_R && std::get<1>(res).cols() == QLV_C);
#define GW(nm, x, i) SENT(nm, x, i, SO(1, x, i), SEO(1, x, i)) ZERO(nm, x, i)
  ALLG(GW, ex_worker) }
OB(ex_idle, SPAR) { SETUP(QB, 1, 2, 1); CALL(QB); REQF(ex_idle, share, n_built == 0); REQF(ex_idle, collectives, run.n_bcast == 1 && wi.n_send == 2 && wi.n_recv == 0 && wi.n_red == 2); REQF(ex_idle, scalars, Eq(wi.sent_w, 0) && EqZ(wi.sent_e, Z(0, 0)));
#define GI(nm, x, i) SENT(nm, x, i, Z(0, 0), Z(0, 0)) ZERO(nm, x, i)
  ALLG(GI, ex_idle) }
// the master receives each message under the tag the worker sends it with, the O* sum before the E O* sum or told apart by the tag
OB(ex_tags, SPAR) { SETUP(QB, 0, 2, 1); CALL(QB); const long m0 = wi.tag[0], m1 = wi.tag[1]; (void)res; run.rank = 1; run.fill = 1; run.n_bcast = 0; wi.n_recv = 0; wi.n_send = 0; wi.n_red = 0; CALL2(QB); (void)res2; REQF(ex_tags, matched, wi.tag[0] == m0 && wi.tag[1] == m1 && m0 != m1); }
#undef WO
static inline Z Par(Z z) { return Z(qlv_uf_par_re(z.real(), z.imag()), qlv_uf_par_im(z.real(), z.imag())); }
#define TEN(x, i) ((x) ? ((i) ? Z(3, 1) : Z(2, 1)) : ((i) ? Z(.5, .5) : Z(.5, .25)))
#define WO(k, x) Par(HH(k, x) * (std::conj(HH(k, x)) * TEN(x, CF(k, x))))
OB(ex_fermi, SPAR) { SETUP(QF, 0, 1, 3); CALL(QF); REQF(ex_fermi, energy, EqZ(std::get<0>(res), (EE(0) * NRM(0) + EE(1) * NRM(1) + EE(2) * NRM(2)) / (NRM(0) + NRM(1) + NRM(2))));
  ALLG(G3, ex_fermi) }
#define CODE(f) ((f).e_[0] + 3 * (f).e_[1] + 9 * (f).e_[2] + 27 * (f).e_[3])
#define HAS(c) ((n > 0 && CODE(r[0]) == c) + (n > 1 && CODE(r[1]) == c) + (n > 2 && CODE(r[2]) == c) + (n > 3 && CODE(r[3]) == c) + (n > 4 && CODE(r[4]) == c) + (n > 5 && CODE(r[5]) == c) == 1)
#define ENUM(nm, ly, lx) const size_t n = r.size(); REQF(nm, shape, r[0].rows() == ly && r[0].cols() == lx)
OB(en_row, ) { const auto r = GenerateAllPermutationConfigs({2, 1}, 3, 1); ENUM(en_row, 1, 3); REQF(en_row, all, n == 3 && HAS(1) && HAS(3) && HAS(9)); }
OB(en_col, ) { const auto r = GenerateAllPermutationConfigs({1, 2}, 1, 3); ENUM(en_col, 3, 1); REQF(en_col, all, n == 3 && HAS(4) && HAS(10) && HAS(12)); }
OB(en_three, ) { const auto r = GenerateAllPermutationConfigs({1, 1, 1}, 3, 1); ENUM(en_three, 1, 3); REQF(en_three, all, n == 6 && HAS(21) && HAS(15) && HAS(19) && HAS(7) && HAS(11) && HAS(5)); }
OB(en_gap, ) { const auto r = GenerateAllPermutationConfigs({1, 0, 2}, 3, 1); ENUM(en_gap, 1, 3); REQF(en_gap, all, n == 3 && HAS(8) && HAS(20) && HAS(24)); }
OB(en_square, ) { const auto r = GenerateAllPermutationConfigs({2, 2}, 2, 2); ENUM(en_square, 2, 2); REQF(en_square, all, n == 6 && HAS(4) && HAS(10) && HAS(28) && HAS(12) && HAS(30) && HAS(36)); }
OB(en_vec, size_t a, size_t b, size_t c) { const Configuration f = Vec2Config({a, b, c}, 3, 1), g = Vec2Config({a, b, c}, 1, 3); REQF(en_vec, row, f.rows() == 1 && f.cols() == 3 && f({0, 0}) == a && f({0, 1}) == b && f({0, 2}) == c); REQF(en_vec, col, g.rows() == 3 && g.cols() == 1 && g({0, 0}) == a && g({1, 0}) == b && g({2, 0}) == c); }
OB(en_vec4, size_t a, size_t b, size_t c, size_t d) { const Configuration f = Vec2Config({a, b, c, d}, 2, 2); REQF(en_vec4, rowmajor, f({0, 0}) == a && f({0, 1}) == b && f({1, 0}) == c && f({1, 1}) == d); }
