// A world of ranks run one after the other in one process: the non-root ranks first (their contributions are kept), the root last.
#pragma once
#include "mpi.h"
#include <cstring>
#include <deque>
#include <map>
#include <vector>
namespace mpirun {
inline int rank = 0, size = 1;
inline std::map<int, std::deque<std::vector<char>>> sent;
inline size_t width(MPI_Datatype t) { switch (t) { case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4; case MPI_CXX_DOUBLE_COMPLEX: case MPI_C_DOUBLE_COMPLEX: return 16; case MPI_BYTE: case MPI_CHAR: case MPI_CXX_BOOL: return 1; default: return 8; } }
template <class F> void world(int n, F f) { size = n; sent.clear(); for (int r = n - 1; r >= 0; --r) { rank = r; f(r); } rank = 0; size = 1; }
}
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = mpirun::rank; return 0; }
inline int MPI_Comm_size(MPI_Comm, int *s) { *s = mpirun::size; return 0; }
inline int MPI_Barrier(MPI_Comm) { return 0; }
inline int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *cn, const int *dp, MPI_Datatype, int root, MPI_Comm) {
  const size_t w = mpirun::width(t);
  if (mpirun::rank != root) { mpirun::sent[mpirun::rank].emplace_back((const char *)s, (const char *)s + w * n); return 0; }
  for (int i = 0; i < mpirun::size; ++i) {
    if (i == root) { if (n) std::memcpy((char *)r + w * dp[i], s, w * n); continue; }
    auto b = mpirun::sent[i].front(); mpirun::sent[i].pop_front();
    if (b.size()) std::memcpy((char *)r + w * dp[i], b.data(), b.size());
  }
  return 0;
}
inline int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int, MPI_Datatype u, int root, MPI_Comm c) {
  std::vector<int> cn(mpirun::size, n), dp(mpirun::size);
  for (int i = 0; i < mpirun::size; ++i) dp[i] = i * n;
  return MPI_Gatherv(s, n, t, r, cn.data(), dp.data(), u, root, c);
}
inline int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm) { return 0; }
inline int MPI_Send(const void *s, int n, MPI_Datatype t, int, int, MPI_Comm) { mpirun::sent[-1].emplace_back((const char *)s, (const char *)s + mpirun::width(t) * n); return 0; }
inline int MPI_Recv(void *r, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *) { auto b = mpirun::sent[-1].front(); mpirun::sent[-1].pop_front(); std::memcpy(r, b.data(), b.size()); return 0; }
inline int MPI_Sendrecv(const void *s, int n, MPI_Datatype t, int, int, void *r, int m, MPI_Datatype u, int, int, MPI_Comm c, MPI_Status *st) { MPI_Send(s, n, t, 0, 0, c); return MPI_Recv(r, m, u, 0, 0, c, st); }
