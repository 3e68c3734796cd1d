//@@ flat
#define QLV_VCAP 4
#include "qlv.h"
#include "qlv_vector.h"
#include "qlv_null.h"
#include "qlten/qlten.h"
#include <memory>
#include <complex>
//@ mm_*: include/qlpeps/vmc_basic/statistics_tensor.h :: MPIMeanTensor -- the master's result is the sum of every rank's tensor over the number of ranks; every other rank sends its tensor once
typedef std::complex<double> Z;
extern "C" { void qlv_bad_mpi_call() noexcept __attribute__((noreturn)); void qlv_bad_tensor() noexcept __attribute__((noreturn)); }
struct QB {};
struct Wire { long rank, size, n_send, n_recv, peer[3], tag[3]; Z got[3], sent; };
static Wire wi;
#define vector qlv_vector
namespace qlten {
template <class E, class Q> struct QLTensor {
  E v = E(0); long d = 1;
  QLTensor() {}
  QLTensor(E x) : v(x), d(0) {}
  bool IsDefault() const { return d; }
  QLTensor operator*(E s) const { if (d) qlv_bad_tensor(); return QLTensor(v * s); }
  QLTensor operator+(const QLTensor &o) const { if (d || o.d) qlv_bad_tensor(); return QLTensor(v + o.v); }
  QLTensor &operator+=(const QLTensor &o) { if (d || o.d) qlv_bad_tensor(); v += o.v; return *this; }
  QLTensor &operator*=(E s) { if (d) qlv_bad_tensor(); v *= s; return *this; }
  void MPI_Recv(int from, int tag, const MPI_Comm &c) { if (c != (MPI_Comm)1 || wi.n_recv >= 3 || wi.rank != 0 || from < 1 || from >= wi.size) qlv_bad_mpi_call(); const long k = wi.n_recv++; wi.peer[k] = from; wi.tag[k] = tag; v = from == 1 ? wi.got[0] : from == 2 ? wi.got[1] : wi.got[2]; d = 0; }
  void MPI_Send(int to, int tag, const MPI_Comm &c) const { if (c != (MPI_Comm)1 || wi.n_send >= 1 || wi.rank == 0) qlv_bad_mpi_call(); wi.n_send++; wi.peer[0] = to; wi.tag[0] = tag; wi.sent = v; if (d) qlv_bad_tensor(); }
};
template <class E, class Q> inline QLTensor<E, Q> operator*(E s, const QLTensor<E, Q> &t) { return t * s; }
template <class E, class Q> inline void LinearCombine(const std::vector<E> &c, const std::vector<QLTensor<E, Q> *> &t, E beta, QLTensor<E, Q> *r) {
  if (c.size() != t.size()) qlv_bad_tensor(); E x = r->d ? E(0) : beta * r->v; for (size_t k = 0; k < QLV_VCAP; ++k) if (k < t.size()) { if (t[k]->d) qlv_bad_tensor(); x += c[k] * t[k]->v; } r->v = x; r->d = 0;
}
}
inline int MPI_Comm_rank(MPI_Comm c, int *r) { if (c != (MPI_Comm)1) qlv_bad_mpi_call(); *r = (int)wi.rank; return 0; }
inline int MPI_Comm_size(MPI_Comm c, int *r) { if (c != (MPI_Comm)1) qlv_bad_mpi_call(); *r = (int)wi.size; return 0; }
#include "qlpeps/vmc_basic/statistics_tensor.h"
#undef vector
using namespace qlpeps;
typedef qlten::QLTensor<Z, QB> T;
static inline bool Eq(double got, double want) { return got == want || want != want; }
static inline bool EqZ(Z got, Z want) { return Eq(got.real(), want.real()) && Eq(got.imag(), want.imag()); }
#define START(R, S) wi = Wire(); wi.rank = R; wi.size = S; wi.got[0] = Z(b, bi); wi.got[1] = Z(c, ci); wi.got[2] = Z(d, di); const MPI_Comm cm = (MPI_Comm)1; const T t(Z(a, ai)); const T r = MPIMeanTensor(t, cm)
#define PAR double a, double ai, double b, double bi, double c, double ci, double d, double di
OB(mm_one, PAR) { START(0, 1); REQF(mm_one, mean, !r.d && EqZ(r.v, Z(a, ai))); REQF(mm_one, messages, wi.n_recv == 0 && wi.n_send == 0); }
OB(mm_two, PAR) { START(0, 2); REQF(mm_two, mean, !r.d && EqZ(r.v, (Z(a, ai) + Z(b, bi)) * 0.5)); REQF(mm_two, messages, wi.n_recv == 1 && wi.n_send == 0); }
OB(mm_four, PAR) { START(0, 4); REQF(mm_four, mean, !r.d && EqZ(r.v, (Z(a, ai) + Z(b, bi) + Z(c, ci) + Z(d, di)) * 0.25)); REQF(mm_four, messages, wi.n_recv == 3 && wi.n_send == 0); }
OB(mm_send, PAR, int rk) { wi = Wire(); const long R = 1 + (rk & 1); START(R, 3); REQF(mm_send, sent, wi.n_send == 1 && wi.n_recv == 0 && wi.peer[0] == 0 && EqZ(wi.sent, Z(a, ai))); (void)r; }
OB(mm_tags, PAR, int rk) { SPLIT(0, (rk & 1) == 0); const long R = 1 + (rk & 1); START(0, 3); (void)r; const long p0 = wi.peer[0], t0 = wi.tag[0], t1 = wi.tag[1]; REQF(mm_tags, each, p0 + wi.peer[1] == 3); wi.rank = R; wi.n_recv = 0; const T q = MPIMeanTensor(t, cm); (void)q; REQF(mm_tags, matched, wi.tag[0] == (p0 == R ? t0 : t1)); }
