//@@ peel
#define QLV_VCAP 3
#include "configuration_common.h"
//@ send_*: include/qlpeps/vmc_basic/configuration.h :: MPI_Send(Configuration) -- all sites, row-major, to the given rank and tag
//@ recv_*: include/qlpeps/vmc_basic/configuration.h :: MPI_Recv(Configuration) -- every site takes the received value
//@ sr_*: include/qlpeps/vmc_basic/configuration.h :: MPI_Sendrecv(Configuration) -- both directions
//@ bc_*: include/qlpeps/vmc_basic/configuration.h :: MPI_BCast(Configuration) -- all ranks end with the root's configuration
// Wire model: what this rank sends is recorded; what it receives is the environment's `in` values.
struct Wire { int calls; int n; int peer, tag; size_t out[8]; size_t in[8]; int rpeer, rtag, rn; bool status_ok; MPI_Status *st; int rc; };
static Wire w;
static inline void Take(const void *p, int n, MPI_Datatype t) { if (t != MPI_UNSIGNED_LONG_LONG && t != MPI_UNSIGNED_LONG && t != MPI_UINT64_T) qlv_bad_mpi_call(); w.n = n; for (int k = 0; k < 8; ++k) if (k < n) w.out[k] = static_cast<const size_t *>(p)[k]; }
static inline void Give(void *p, int n, MPI_Datatype t) { if (t != MPI_UNSIGNED_LONG_LONG && t != MPI_UNSIGNED_LONG && t != MPI_UINT64_T) qlv_bad_mpi_call(); w.rn = n; for (int k = 0; k < 8; ++k) if (k < n) static_cast<size_t *>(p)[k] = w.in[k]; }
inline int MPI_Send(const void *p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) { if (c != me.comm) qlv_bad_mpi_call(); ++w.calls; Take(p, n, t); w.peer = dest; w.tag = tag; return MPI_SUCCESS; }
inline int MPI_Recv(void *p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) { if (c != me.comm) qlv_bad_mpi_call(); ++w.calls; Give(p, n, t); w.rpeer = src; w.rtag = tag; w.st = s; return w.rc; }
inline int MPI_Sendrecv(const void *p, int n, MPI_Datatype t, int dest, int tag, void *q, int m, MPI_Datatype u, int src, int rtag, MPI_Comm c, MPI_Status *s) {
  if (c != me.comm) qlv_bad_mpi_call();
  ++w.calls; Take(p, n, t); w.peer = dest; w.tag = tag; Give(q, m, u); w.rpeer = src; w.rtag = rtag; w.st = s; return w.rc;
}
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm c) {
  if (c != me.comm) qlv_bad_mpi_call();
  ++w.calls; w.peer = root; if (me.rank == root) Take(p, n, t); else Give(p, n, t); return MPI_SUCCESS;
}
#define A6 size_t a, size_t b, size_t c, size_t d, size_t e, size_t f
#define A6X const size_t x[] = {a, b, c, d, e, f}
#define B6 size_t g, size_t h, size_t i, size_t j, size_t k, size_t l
#define B6X const size_t y[] = {g, h, i, j, k, l}
template <size_t R, size_t C> static inline bool Is(const Configuration &k, const size_t *x) {
  bool ok = k.rows() == R && k.cols() == C;
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) ok = ok && k({i, j}) == x[i * C + j];
  return ok;
}
template <size_t N> static inline bool Sent(const size_t *x) { bool ok = w.n == (int)N; for (size_t k = 0; k < N; ++k) ok = ok && w.out[k] == x[k]; return ok; }
static inline void Begin(int rank, MPI_Comm c, int rc = 0) { StartMpi(rank, 4, c); w.calls = 0; w.n = w.rn = -1; w.peer = w.rpeer = w.tag = w.rtag = -77; w.st = nullptr; w.rc = rc; }
template <size_t N> static inline void Incoming(const size_t *y) { for (size_t k = 0; k < N; ++k) w.in[k] = y[k]; }
template <size_t R, size_t C> static inline void Send(const size_t *x, MPI_Comm q, int to, int tag) {
  ASSUME(to >= 0); Begin(0, q);
  Configuration c(R, C); Put<R, C>(c, x);
  qlpeps::MPI_Send(c, (size_t)to, tag, q);
  REQF(send, once, w.calls == 1); REQF(send, peer, w.peer == to && w.tag == tag); REQF(send, payload, (Sent<R * C>(x))); REQF(send, kept, (Is<R, C>(c, x)));
}
OB(send_23, A6, MPI_Comm q, int to, int tag) { A6X; Send<2, 3>(x, q, to, tag); }
OB(send_31, A6, MPI_Comm q, int to, int tag) { A6X; Send<3, 1>(x, q, to, tag); }
template <size_t R, size_t C> static inline void Recv(const size_t *y, MPI_Comm q, int from, int tag, MPI_Status *s, int rc) {
  ASSUME(from >= 0); Begin(0, q, rc); Incoming<R * C>(y);
  Configuration c(R, C);
  const int r = qlpeps::MPI_Recv(c, (size_t)from, tag, q, s);
  REQF(recv, once, w.calls == 1 && w.st == s); REQF(recv, peer, w.rpeer == from && w.rtag == tag && w.rn == (int)(R * C)); REQF(recv, result, r == rc);
  REQF(recv, content, (Is<R, C>(c, y)));
}
OB(recv_23, A6, MPI_Comm q, int from, int tag, MPI_Status *s, int rc) { A6X; Recv<2, 3>(x, q, from, tag, s, rc); }
OB(recv_21, A6, MPI_Comm q, int from, int tag, MPI_Status *s, int rc) { A6X; Recv<2, 1>(x, q, from, tag, s, rc); }
OB(sr_23, A6, B6, MPI_Comm q, int to, int tag, int from, int rtag, MPI_Status *s, int rc) {
  A6X; B6X; ASSUME(to >= 0); ASSUME(from >= 0); Begin(0, q, rc); Incoming<6>(y);
  Configuration u(2, 3), v(2, 3); Put<2, 3>(u, x);
  const int r = qlpeps::MPI_Sendrecv(u, (size_t)to, tag, v, (size_t)from, rtag, q, s);
  REQF(sr_23, once, w.calls == 1 && w.st == s); REQF(sr_23, peers, w.peer == to && w.tag == tag && w.rpeer == from && w.rtag == rtag && w.rn == 6); REQF(sr_23, result, r == rc);
  REQF(sr_23, payload, (Sent<6>(x))); REQF(sr_23, kept, (Is<2, 3>(u, x))); REQF(sr_23, content, (Is<2, 3>(v, y)));
}
template <size_t R, size_t C> static inline void Root(const size_t *x, MPI_Comm q, int root) {
  ASSUME(root >= 0); Begin(root, q);
  Configuration c(R, C); Put<R, C>(c, x);
  qlpeps::MPI_BCast(c, (size_t)root, q);
  REQF(bc, once, w.calls == 1 && w.peer == root); REQF(bc, payload, (Sent<R * C>(x))); REQF(bc, root_kept, (Is<R, C>(c, x)));
}
template <size_t R, size_t C> static inline void Leaf(const size_t *x, const size_t *y, MPI_Comm q, int rank, int root) {
  ASSUME(root >= 0); ASSUME(rank >= 0); ASSUME(rank != root); Begin(rank, q); Incoming<R * C>(y);
  Configuration c(R, C); Put<R, C>(c, x);
  qlpeps::MPI_BCast(c, (size_t)root, q);
  REQF(bc, once_leaf, w.calls == 1 && w.peer == root && w.rn == (int)(R * C)); REQF(bc, content, (Is<R, C>(c, y)));
}
OB(bc_root_23, A6, MPI_Comm q, int root) { A6X; Root<2, 3>(x, q, root); }
OB(bc_root_12, A6, MPI_Comm q, int root) { A6X; Root<1, 2>(x, q, root); }
OB(bc_leaf_23, A6, B6, MPI_Comm q, int rank, int root) { A6X; B6X; Leaf<2, 3>(x, y, q, rank, root); }
OB(bc_leaf_31, A6, B6, MPI_Comm q, int rank, int root) { A6X; B6X; Leaf<3, 1>(x, y, q, rank, root); }
OB(bc_leaf_empty, B6, MPI_Comm q, int rank, int root) {   // a rank whose sites hold nothing yet
  B6X; ASSUME(root >= 0); ASSUME(rank >= 0); ASSUME(rank != root); Begin(rank, q); Incoming<4>(y);
  Configuration c(2, 2); qlpeps::MPI_BCast(c, (size_t)root, q);
  REQ(bc_leaf_empty, (Is<2, 2>(c, y)));
}
