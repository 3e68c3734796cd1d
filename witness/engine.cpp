//@@ flat
// The Monte-Carlo engine with a model state (one number), a model component (amplitude an uninterpreted function of state and
// configuration; construction may throw) and a model of the collectives for one rank.
#define QLV_VCAP 4
#define QLV_STR_HASH
#include "qlv.h"
#include "qlv_vector.h"
#include "qlv_string.h"
#include "qlv_null.h"
#include "qlten/qlten.h"
#include "qlten/utility/timer.h"
#include <cmath>
#include <filesystem>
#include <limits>
#include <memory>
#include <random>
#include <variant>
#define QLV_ALGO_FIND
#include "qlv_algo.h"
//@ mc_*: include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h :: MonteCarloEngine -- construction, sampling, refresh, warm-up and directory creation do what they say, on every rank
//@ nm_*: include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h :: MonteCarloEngine::NormalizeStateOrder1 -- all ranks scale the state by the same factor, one over the largest amplitude
//@ rs_*: include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h :: MonteCarloEngine::EnsureConfigurationValidity -- a rank with an unusable configuration adopts the one of the first usable rank, or the run ends
//@ bc_*: include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h :: SelectTruncateParams_ / ValidateBoundaryCondition_ -- boundary condition, contractor, truncation parameters and size are compatible or the engine refuses
extern "C" {
void qlv_bad_mpi_call() noexcept __attribute__((noreturn));
double qlv_uf_amp(double, long) noexcept __attribute__((const));
double qlv_uf_pow(double, double) noexcept __attribute__((const));
bool qlv_uf_legal(double, double, double) noexcept __attribute__((const));
}
struct Abort {};
struct En {
  long rank, size, n_coll, sig, n_built, built_id, built_tp, fail_id, fail_n, n_abort, n_up, n_cfg, cfg_root, cfg_got, cfg_sent, rate_n, no_dir, has_dir, dir_throws, n_mk; double built_v; double remote[2]; long remote_valid[3]; double sent_amp, scale; double rates[8]; long remote_warm[2];
};
static En en;
static inline void Coll(long c, MPI_Comm m) { if (m != (MPI_Comm)1) qlv_bad_mpi_call(); ++en.n_coll; en.sig = en.sig * 31 + c; }
inline int MPI_Comm_rank(MPI_Comm c, int *r) { if (c != (MPI_Comm)1) qlv_bad_mpi_call(); *r = (int)en.rank; return 0; }
inline int MPI_Comm_size(MPI_Comm c, int *r) { if (c != (MPI_Comm)1) qlv_bad_mpi_call(); *r = (int)en.size; return 0; }
inline int MPI_Abort(MPI_Comm, int) { ++en.n_abort; throw Abort(); }
inline int MPI_Barrier(MPI_Comm c) { Coll(9, c); return 0; }
inline int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, int root, MPI_Comm c) {
  if (n != 1 || m != 1 || t != u || root != 0) qlv_bad_mpi_call(); Coll(1, c);
  if (t == MPI_DOUBLE) { en.sent_amp = *(const double *)s; if (en.rank == 0) { ((double *)r)[0] = *(const double *)s; if (en.size > 1) ((double *)r)[1] = en.remote[0]; if (en.size > 2) ((double *)r)[2] = en.remote[1]; } }
  else if (t == MPI_INT) { if (en.rank == 0) { ((int *)r)[0] = *(const int *)s; if (en.size > 1) ((int *)r)[1] = (int)en.remote_warm[0]; if (en.size > 2) ((int *)r)[2] = (int)en.remote_warm[1]; } }
  else qlv_bad_mpi_call();
  return 0;
}
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm c) {
  if (n != 1 || t != MPI_DOUBLE || root != 0) qlv_bad_mpi_call(); Coll(2, c); if (en.rank == 0) en.scale = *(double *)p; else *(double *)p = en.scale; return 0;
}
inline int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int m, MPI_Datatype u, MPI_Comm c) {
  if (n != 1 || m != 1 || t != MPI_INT || u != MPI_INT) qlv_bad_mpi_call(); Coll(3, c);
  for (int k = 0; k < 3; ++k) if (k < en.size) ((int *)r)[k] = k == en.rank ? *(const int *)s : (int)en.remote_valid[k];
  return 0;
}
namespace std {
struct qlv_caught_base { const char *what() const noexcept { return ""; } };
namespace qlv_filesystem {
struct path { path() {} template <class S> path(const S &) {} path parent_path() const { return *this; } bool empty() const { return en.no_dir; } std::qlv_string qlv_string() const { return std::qlv_string(); } };
inline bool exists(const path &) { return en.has_dir; } inline bool create_directories(const path &) { ++en.n_mk; if (en.dir_throws) throw qlv_caught_base(); return true; }
}
struct qlv_oss { template <class T> qlv_oss &operator<<(const T &) { return *this; } qlv_oss &operator<<(ostream &(*)(ostream &)) { return *this; } std::qlv_string str() const { return std::qlv_string(); } };
struct qlv_caught_runtime_error : qlv_caught_base { qlv_caught_runtime_error(const char *) {} template <class S> qlv_caught_runtime_error(const S &) {} };
inline double qlv_pow(double x, double y) { return qlv_uf_pow(x, y); }
}
#define vector qlv_vector
#define string qlv_string
#define to_string qlv_to_string
#define filesystem qlv_filesystem
#define ostringstream qlv_oss
#define pow qlv_pow
#define runtime_error qlv_caught_runtime_error
#define exception qlv_caught_base
#define QLPEPS_VMC_BASIC_CONFIGURATION_H
#define QLPEPS_OND_DIM_TN_BOUNDARY_MPS_BMPS_H
#define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_H
#define QLPEPS_VMC_PEPS_TWO_DIM_TN_TPS_TPS_H
#define QLPEPS_TWO_DIM_TN_TENSOR_NETWORK_2D_TRG_CONTRACTOR_H
#define QLPEPS_VMC_PEPS_ALGORITHM_VMC_UPDATE_WAVE_FUNCTION_COMPONENT_H
#include "qlpeps/two_dim_tn/common/boundary_condition.h"
namespace qlten {
template <class E, class Q> struct QLTensor { static constexpr bool IsFermionic() { return Q::f; } };
template <class Q> struct Index {};
template <class T> T Dag(const T &);
template <class T> void Contract(const T *, std::initializer_list<size_t>, const T *, std::initializer_list<size_t>, T *);
namespace hp_numeric { inline void GatherAndPrintErrorMessages(const std::qlv_string &, MPI_Comm c) { Coll(7, c); } inline int GetTensorManipulationThreads() { return 1; } }
}
struct QB { static constexpr bool f = false; };
struct QF { static constexpr bool f = true; };
namespace qlpeps {
using namespace qlten; using std::size_t;
enum class CompressMPSScheme { SVD_COMPRESS };
template <class E> struct BMPSTruncateParams { long id = 0; size_t D_min = 1, D_max = 1; CompressMPSScheme compress_scheme{}; };
template <class E> struct TRGTruncateParams { long id = 0; size_t D_min = 1, D_max = 1; double trunc_err = 0, inv_relative_eps = 0; };
struct Configuration {
  long id = 0; size_t R_ = 0, C_ = 0;
  Configuration() {} Configuration(size_t r, size_t c) : id(-1), R_(r), C_(c) {}
  bool Load(const std::string &, size_t) { return true; }
};
inline void MPI_BCast(Configuration &f, size_t root, const MPI_Comm &c) { Coll(4, c); ++en.n_cfg; en.cfg_root = (long)root; if (f.R_ != 2 || f.C_ != 1) qlv_bad_mpi_call(); if (en.rank == (long)root) en.cfg_sent = f.id; else f.id = en.cfg_got; }
template <class E, class Q> struct TPS {};
template <class E, class Q> struct SplitIndexTPS {
  double v = 0; size_t R_ = 2, C_ = 1; BoundaryCondition bc = BoundaryCondition::Open;
  size_t rows() const { return R_; } size_t cols() const { return C_; } BoundaryCondition GetBoundaryCondition() const { return bc; } size_t GetMaxBondDimension() const { return 1; }
  SplitIndexTPS &operator*=(double s) { v *= s; return *this; }
};
template <class E, class Q> struct BMPSContractor { typedef BMPSTruncateParams<double> TruncateParams; };
template <class E, class Q> struct TRGContractor { typedef TRGTruncateParams<double> TruncateParams; };
struct NoDress {};
template <class E, class Q, class D = NoDress, template <class, class> class C = BMPSContractor> struct TPSWaveFunctionComponent {
  typedef typename C<E, Q>::TruncateParams TruncateParams;
  Configuration config; E amplitude{}; TruncateParams trun_para;
  TPSWaveFunctionComponent(size_t r, size_t c, const TruncateParams &t) : config(r, c), trun_para(t) {}
  TPSWaveFunctionComponent(const SplitIndexTPS<E, Q> &s, const Configuration &f, const TruncateParams &t) : config(f), amplitude(qlv_uf_amp(s.v, f.id)), trun_para(t) {
    ++en.n_built; en.built_v = s.v; en.built_id = f.id; en.built_tp = t.id; if (f.id == en.fail_id && en.fail_n > 0) { --en.fail_n; throw std::runtime_error("Empty"); }
  }
  E GetAmplitude() const { return amplitude; }
};
template <class W> inline bool CheckWaveFunctionAmplitudeValidity(const W &w, double lo, double hi) { return qlv_uf_legal(w.amplitude, lo, hi); }
}  // namespace qlpeps
#include "qlpeps/algorithm/vmc_update/monte_carlo_engine.h"
#undef vector
#undef string
using namespace qlpeps; using qlv::Same;
static inline bool Eq(double got, double want) { return got == want || want != want; }
// the updater: each call moves the configuration to its successor and reports its rate
struct Up {
  long tag = 0;
  template <class S, class W> void operator()(const S &s, W &w, std::qlv_vector<double> &r) { const long k = en.n_up++; w.config.id += 100; w.amplitude = qlv_uf_amp(s.v, w.config.id); r = std::qlv_vector<double>(); r.push_back(en.rates[k & 7]); if (tag != 5) qlv_bad_mpi_call(); }
};
typedef SplitIndexTPS<double, QB> ST; typedef MonteCarloEngine<double, QB, Up> Eng;
#define PAR double v, double lo, double hi, double b, double sc, bool warm
#define START(RANK, SIZE) en = En(); en.rank = RANK; en.size = SIZE; en.remote[0] = b; en.scale = sc; en.fail_id = -77; en.remote_valid[0] = en.remote_valid[1] = en.remote_valid[2] = 1; en.remote_warm[0] = 1; \
  ST st; st.v = v; Configuration c0(2, 1); c0.id = 3; MonteCarloParams mp(8, 3, 2, c0, warm); BMPSTruncateParams<double> tp; tp.id = 21; PEPSParams pp(tp); ConfigurationRescueParams rp; rp.amplitude_min_threshold = lo; rp.amplitude_max_threshold = hi; Up up; up.tag = 5; MPI_Comm comm = (MPI_Comm)1
#define A0 qlv_uf_amp(v, 3)
#define ENGINE Eng e(st, mp, pp, comm, up, rp); comm = (MPI_Comm)2
#define LEGAL ASSUME(qlv_uf_legal(A0, lo, hi))
#define AB(x) __builtin_fabs(x)
#define BUILT(nm, val, cid) REQF(nm, component, Eq(en.built_v, val) && en.built_id == (cid) && en.built_tp == 21 && Eq(e.WavefuncComp().amplitude, qlv_uf_amp(val, cid)) && e.WavefuncComp().config.id == (cid) && e.WavefuncComp().trun_para.id == 21)
// one rank: the state is scaled by (1/|psi|)^(1/sites)
OB(nm_one, PAR) { START(0, 1); LEGAL; ENGINE; const double s = qlv_uf_pow(1.0 / AB(A0), 0.5); REQF(nm_one, state, Eq(e.State().v, v * s)); BUILT(nm_one, v * s, 3); REQF(nm_one, sent, Eq(en.sent_amp, A0)); REQF(nm_one, comm, e.Comm() == (MPI_Comm)1); }
OB(nm_mine, PAR) { START(0, 2); LEGAL; ASSUME(AB(A0) > AB(b)); ENGINE; const double s = qlv_uf_pow(1.0 / AB(A0), 0.5); REQF(nm_mine, state, Eq(e.State().v, v * s)); BUILT(nm_mine, v * s, 3); REQF(nm_mine, scale, Eq(en.scale, 1.0 / AB(A0))); }
OB(nm_theirs, PAR) { START(0, 2); LEGAL; ASSUME(AB(A0) < AB(b)); ENGINE; const double s = qlv_uf_pow(1.0 / AB(b), 0.5); REQF(nm_theirs, state, Eq(e.State().v, v * s)); BUILT(nm_theirs, v * s, 3); REQF(nm_theirs, scale, Eq(en.scale, 1.0 / AB(b))); }
OB(nm_other, PAR) { START(1, 2); LEGAL; ENGINE; const double s = qlv_uf_pow(sc, 0.5); REQF(nm_other, state, Eq(e.State().v, v * s)); BUILT(nm_other, v * s, 3); REQF(nm_other, sent, Eq(en.sent_amp, A0)); }
// samples per rank: the smallest number with which all ranks together reach the total
template <size_t T, int S> static inline bool Spr(double v, double sc) {
  en = En(); en.rank = 1; en.size = S; en.scale = sc; en.fail_id = -77; en.remote_valid[0] = en.remote_valid[1] = en.remote_valid[2] = 1; if (S == 1) en.rank = 0;
  ST st; st.v = v; Configuration c0(2, 1); c0.id = 3; MonteCarloParams mp(T, 3, 2, c0, true); PEPSParams pp{BMPSTruncateParams<double>()}; ConfigurationRescueParams rp; Up up; up.tag = 5; const MPI_Comm comm = (MPI_Comm)1; rp.amplitude_min_threshold = 0; rp.amplitude_max_threshold = 1;
  Eng e(st, mp, pp, comm, up, rp); const size_t n = e.SamplesPerRank(); return n * S >= T && (n == 0 || (n - 1) * S < T) && e.TotalSamples() == T && e.MpiSize() == S && e.Lx() == 1 && e.Ly() == 2;
}
#define L01 ASSUME(qlv_uf_legal(qlv_uf_amp(v, 3), 0, 1))
OB(mc_split, double v, double sc) { L01; REQF(mc_split, s1, Spr<5, 1>(v, sc)); REQF(mc_split, s2, Spr<6, 2>(v, sc) && Spr<7, 2>(v, sc) && Spr<1, 2>(v, sc)); }
OB(mc_split3, double v, double sc) { L01; REQF(mc_split3, s3, Spr<6, 3>(v, sc) && Spr<7, 3>(v, sc) && Spr<8, 3>(v, sc) && Spr<9, 3>(v, sc)); }
// sweeps between samples, in order, on the engine's own state and component; the last rates are returned
#define ID(e) e.WavefuncComp().config.id
#define SCALED (v * qlv_uf_pow(sc, 0.5))
OB(mc_sweep, PAR, double r0, double r1, double r2) { START(1, 2); LEGAL; ENGINE; en.rates[0] = r0; en.rates[1] = r1; en.rates[2] = r2; const long k = en.n_coll; const auto r = e.StepSweep(); REQF(mc_sweep, count, en.n_up == 2 && ID(e) == 203); REQF(mc_sweep, rates, r.size() == 1 && Same(r[0], r1)); const auto q = e.StepSweep(1); REQF(mc_sweep, given, en.n_up == 3 && ID(e) == 303 && q.size() == 1 && Same(q[0], r2)); REQF(mc_sweep, amplitude, Eq(e.WavefuncComp().amplitude, qlv_uf_amp(SCALED, 303))); REQF(mc_sweep, quiet, en.n_coll == k); REQF(mc_sweep, state, Eq(e.State().v, SCALED)); }
OB(mc_refresh, PAR, double w) { START(1, 2); LEGAL; ENGINE; (void)e.StepSweep(1); ST n; n.v = w; e.AssignState(n); REQF(mc_refresh, assigned, Same(e.State().v, w)); const long k = en.n_coll; e.RefreshWavefunctionComponent(); BUILT(mc_refresh, w, 103); REQF(mc_refresh, quiet, en.n_coll == k && Same(e.State().v, w)); }
// warm-up: the configured sweeps unless warmed up, then the amplitude is judged and the state normalised; only once
#define WAMP(k) qlv_uf_amp(SCALED, 3 + 100 * (k))
OB(mc_warm, PAR, double sc2) { START(1, 2); ASSUME(!warm); LEGAL; ENGINE; ASSUME(qlv_uf_legal(WAMP(3), lo, hi)); en.scale = sc2; const long c0_ = en.n_coll; const int r = e.WarmUp(); REQF(mc_warm, count, r == 0 && en.n_up == 3 && ID(e) == 303); const double s = SCALED * qlv_uf_pow(sc2, 0.5); REQF(mc_warm, state, Eq(e.State().v, s)); BUILT(mc_warm, s, 303); REQF(mc_warm, sent, Eq(en.sent_amp, WAMP(3))); REQF(mc_warm, collectives, en.n_coll - c0_ == 4); }
OB(mc_warmed, PAR, double sc2) { START(1, 2); ASSUME(warm); LEGAL; ENGINE; ASSUME(qlv_uf_legal(WAMP(0), lo, hi)); en.scale = sc2; const long c0_ = en.n_coll; const int r = e.WarmUp(); REQF(mc_warmed, none, r == 0 && en.n_up == 0 && ID(e) == 3); REQF(mc_warmed, state, Eq(e.State().v, SCALED * qlv_uf_pow(sc2, 0.5))); REQF(mc_warmed, collectives, en.n_coll - c0_ == 4); }
OB(mc_again, PAR, double sc2) { START(1, 2); ASSUME(!warm); LEGAL; ENGINE; ASSUME(qlv_uf_legal(WAMP(3), lo, hi)); en.scale = sc2; (void)e.WarmUp(); ASSUME(qlv_uf_legal(qlv_uf_amp(SCALED * qlv_uf_pow(sc2, 0.5), 303), lo, hi)); (void)e.WarmUp(); REQF(mc_again, once, en.n_up == 3); }
OBC(mc_illegal, PAR) { START(1, 2); ASSUME(warm); LEGAL; ENGINE; ASSUME(!qlv_uf_legal(WAMP(0), lo, hi)); bool ab = false; try { (void)e.WarmUp(); } catch (...) { ab = true; } REQF(mc_illegal, aborts, ab && en.n_abort == 1); }
// master and workers take part in the same collectives in the same order
OB(mc_same, PAR, double sc2) { START(0, 2); LEGAL; ASSUME(AB(A0) > AB(b)); ENGINE; const long a = en.sig; en.rank = 1; en.sig = 0; Eng f(st, mp, pp, (MPI_Comm)1, up, rp); REQF(mc_same, init, en.sig == a && a != 0); (void)sc2; }
// rescue
OBC(rs_throw, PAR, long g) { START(1, 2); en.fail_id = 3; en.fail_n = 1; ASSUME(g != 3); ASSUME(qlv_uf_legal(qlv_uf_amp(v, g), lo, hi)); en.cfg_got = g; ENGINE; const double s = SCALED; REQF(rs_throw, from, en.n_cfg == 1 && en.cfg_root == 0); BUILT(rs_throw, s, g); REQF(rs_throw, sent, Eq(en.sent_amp, qlv_uf_amp(v, g))); }
OB(rs_amplitude, PAR, long g) { START(1, 2); ASSUME(!qlv_uf_legal(A0, lo, hi)); en.cfg_got = g; ENGINE; const double s = SCALED; REQF(rs_amplitude, from, en.n_cfg == 1 && en.cfg_root == 0); BUILT(rs_amplitude, s, g); }
OB(rs_warm, PAR, long g) { START(1, 2); ASSUME(!qlv_uf_legal(A0, lo, hi)); en.cfg_got = g; ENGINE; ASSUME(qlv_uf_legal(qlv_uf_amp(SCALED, g + 300), lo, hi)); (void)e.WarmUp(); REQF(rs_warm, again, en.n_up == 3); }
OB(rs_second, PAR, long g) { START(0, 3); ASSUME(!qlv_uf_legal(A0, lo, hi)); en.remote_valid[1] = 0; en.cfg_got = g; en.remote[1] = b; ASSUME(AB(b) > AB(qlv_uf_amp(v, g))); ENGINE; REQF(rs_second, from, en.n_cfg == 1 && en.cfg_root == 2); REQF(rs_second, config, ID(e) == g && Eq(e.State().v, v * qlv_uf_pow(1.0 / AB(b), 0.5))); }
OB(rs_source, PAR, long g) { START(0, 2); LEGAL; en.remote_valid[1] = 0; en.cfg_got = g; ASSUME(AB(A0) > AB(b)); ENGINE; REQF(rs_source, sends, en.n_cfg == 1 && en.cfg_root == 0 && en.cfg_sent == 3); REQF(rs_source, keeps, ID(e) == 3); }
OB(rs_bystander, PAR, long g) { START(2, 3); LEGAL; ASSUME(warm); en.remote_valid[0] = 0; en.cfg_got = g; ENGINE; REQF(rs_bystander, keeps, en.n_cfg == 1 && en.cfg_root == 1 && ID(e) == 3); ASSUME(qlv_uf_legal(WAMP(0), lo, hi)); (void)e.WarmUp(); REQF(rs_bystander, warm, en.n_up == 0); }
OB(rs_none, PAR) { START(0, 2); LEGAL; ASSUME(AB(A0) > AB(b)); ENGINE; REQF(rs_none, nothing, en.n_cfg == 0 && ID(e) == 3); }
// later: the current configuration is judged and sent
OB(rs_later, PAR, long g) { START(1, 3); LEGAL; ENGINE; (void)e.StepSweep(1); ASSUME(qlv_uf_legal(WAMP(1), lo, hi)); en.remote_valid[0] = 0; en.cfg_got = g; e.EnsureConfigurationValidity(); REQF(rs_later, sends, en.n_cfg == 1 && en.cfg_root == 1 && en.cfg_sent == 103 && ID(e) == 103); }
OB(rs_laterbad, PAR, long g) { START(1, 2); LEGAL; ENGINE; (void)e.StepSweep(1); ASSUME(!qlv_uf_legal(WAMP(1), lo, hi)); en.cfg_got = g; e.EnsureConfigurationValidity(); REQF(rs_laterbad, adopts, en.n_cfg == 1 && en.cfg_root == 0); BUILT(rs_laterbad, SCALED, g); }
#define ABORTS(nm) bool ab = false; try { ENGINE; (void)e; } catch (...) { ab = true; } REQF(nm, aborts, ab && en.n_abort == 1)
OBC(rs_all, PAR) { START(1, 2); ASSUME(!qlv_uf_legal(A0, lo, hi)); en.remote_valid[0] = 0; ABORTS(rs_all); }
OBC(rs_all0, PAR) { START(0, 2); ASSUME(!qlv_uf_legal(A0, lo, hi)); en.remote_valid[1] = 0; ABORTS(rs_all0); }
OBC(rs_off, PAR) { START(1, 2); rp.enabled = false; ASSUME(!qlv_uf_legal(A0, lo, hi)); ABORTS(rs_off); }
OBC(rs_off0, PAR) { START(0, 2); rp.enabled = false; LEGAL; en.remote_valid[1] = 0; ABORTS(rs_off0); }
OBC(rs_fails, PAR) { START(1, 2); en.fail_id = 3; en.fail_n = 2; en.cfg_got = 3; ABORTS(rs_fails); }
// boundary conditions: accepted or refused with an exception before anything is sampled
template <class Q, template <class, class> class C> static inline int Bc(bool periodic, bool trg, size_t r, size_t c, double v) {
  en = En(); en.rank = 1; en.size = 2; en.remote_valid[0] = 1; en.fail_id = -77; en.scale = 1;
  SplitIndexTPS<double, Q> st; st.v = v; st.R_ = r; st.C_ = c; st.bc = periodic ? BoundaryCondition::Periodic : BoundaryCondition::Open;
  Configuration c0(2, 1); c0.id = 3; MonteCarloParams mp(8, 3, 2, c0, true); PEPSParams pp{BMPSTruncateParams<double>()}; if (trg) pp.SetTRGParams(TRGTruncateParams<double>()); ConfigurationRescueParams rp; rp.amplitude_min_threshold = 0; rp.amplitude_max_threshold = 1; Up up; up.tag = 5; const MPI_Comm comm = (MPI_Comm)1;
  try { MonteCarloEngine<double, Q, Up, C> e(st, mp, pp, comm, up, rp); } catch (...) { return en.n_coll || en.n_abort ? -1 : 0; }
  return 1;
}
OBC(bc_open, double v) { L01; REQF(bc_open, accepted, (Bc<QB, BMPSContractor>(false, false, 2, 1, v) == 1)); REQF(bc_open, fermions, (Bc<QF, BMPSContractor>(false, false, 2, 1, v) == 1)); REQF(bc_open, periodic, (Bc<QB, BMPSContractor>(true, false, 2, 2, v) == 0)); REQF(bc_open, params, (Bc<QB, BMPSContractor>(false, true, 2, 2, v) == 0)); }
OBC(bc_torus, double v) { L01; REQF(bc_torus, accepted, (Bc<QB, TRGContractor>(true, true, 4, 4, v) == 1)); REQF(bc_torus, open, (Bc<QB, TRGContractor>(false, true, 4, 4, v) == 0)); REQF(bc_torus, params, (Bc<QB, TRGContractor>(true, false, 4, 4, v) == 0)); REQF(bc_torus, oblong, (Bc<QB, TRGContractor>(true, true, 4, 2, v) == 0)); REQF(bc_torus, fermions, (Bc<QF, TRGContractor>(true, true, 4, 4, v) == 0)); }
#define SZ(n) Bc<QB, TRGContractor>(true, true, n, n, v)
OBC(bc_size, double v) { L01; REQF(bc_size, two, SZ(2) == 1 && SZ(8) == 1); REQF(bc_size, three, SZ(3) == 1 && SZ(6) == 1 && SZ(12) == 1); }
OBC(bc_sizex, double v) { L01; REQF(bc_sizex, no, SZ(5) == 0 && SZ(7) == 0 && SZ(9) == 0 && SZ(10) == 0); }
// the directory of a file is made by the master when it is missing, and all ranks wait for it even when that fails
#define DIR(RANK) SPLIT(0, nd); SPLIT(1, hd); SPLIT(2, th); START(RANK, 2); LEGAL; ASSUME(AB(A0) > AB(b)); ENGINE; const long k = en.n_coll; en.no_dir = nd; en.has_dir = hd; en.dir_throws = th; e.EnsureDirectoryExists(std::qlv_string("x/y"))
#define FLAGS bool nd, bool hd, bool th
OBC(mc_dir, PAR, FLAGS) { DIR(0); REQF(mc_dir, made, en.n_mk == (!nd && !hd)); REQF(mc_dir, barrier, en.n_coll - k == !nd); }
OBC(mc_dirw, PAR, FLAGS) { DIR(1); REQF(mc_dirw, made, en.n_mk == 0); REQF(mc_dirw, barrier, en.n_coll - k == !nd); }
