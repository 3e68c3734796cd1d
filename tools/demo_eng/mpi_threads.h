// MPI for ranks that are threads of one process.
#pragma once
#include "mpi.h"
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <thread>
#include <vector>
struct Aborted {};
namespace mpit {
inline thread_local int rank = 0; inline int size = 1; inline bool aborted = false; inline long gen = 0; inline int waiting = 0, ncoll = 0;
inline std::mutex m; inline std::condition_variable cv; inline std::vector<std::vector<char>> slot; inline std::map<std::pair<int, int>, std::deque<std::vector<char>>> mail;
inline size_t width(MPI_Datatype t) { switch (t) { case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4; case MPI_CXX_DOUBLE_COMPLEX: case MPI_C_DOUBLE_COMPLEX: return 16; case MPI_BYTE: case MPI_CHAR: case MPI_CXX_BOOL: return 1; default: return 8; } }
template <class P> inline void wait(std::unique_lock<std::mutex> &l, P p) { if (!cv.wait_for(l, std::chrono::seconds(5), [&] { return aborted || p(); })) { aborted = true; cv.notify_all(); } if (aborted && !p()) throw Aborted(); }
inline void barrier(const MPI_Comm &c) { if (c != MPI_COMM_WORLD) { { std::lock_guard<std::mutex> l(m); aborted = true; } cv.notify_all(); throw Aborted(); } std::unique_lock<std::mutex> l(m); const long g = gen; if (++waiting == size) { waiting = 0; ++gen; cv.notify_all(); } else wait(l, [&] { return gen != g; }); }
inline std::vector<std::vector<char>> all(const void *p, size_t n, const MPI_Comm &c) { { std::lock_guard<std::mutex> l(m); slot[rank].assign((const char *)p, (const char *)p + n); ++ncoll; } barrier(c); std::vector<std::vector<char>> r; { std::lock_guard<std::mutex> l(m); r = slot; } barrier(c); return r; }
// runs f(rank) on n ranks; false if the run was aborted
inline bool world(int n, const std::function<void(int)> &f) {
  size = n; aborted = false; gen = 0; waiting = 0; ncoll = 0; slot.assign(n, {}); mail.clear(); std::vector<std::thread> t;
  for (int r = 0; r < n; ++r) t.emplace_back([r, &f] { rank = r; try { f(r); } catch (Aborted &) { std::lock_guard<std::mutex> l(m); aborted = true; cv.notify_all(); } });
  for (auto &x : t) x.join(); return !aborted;
}
}
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = mpit::rank; return 0; }
inline int MPI_Comm_size(MPI_Comm, int *s) { *s = mpit::size; return 0; }
inline int MPI_Barrier(MPI_Comm c) { mpit::barrier(c); return 0; }
inline int MPI_Abort(MPI_Comm, int) { { std::lock_guard<std::mutex> l(mpit::m); mpit::aborted = true; } mpit::cv.notify_all(); throw Aborted(); }
inline int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int, MPI_Datatype, int root, MPI_Comm c) { const size_t w = mpit::width(t) * n; auto a = mpit::all(s, w, c); if (mpit::rank == root) for (int i = 0; i < mpit::size; ++i) std::memcpy((char *)r + i * w, a[i].data(), w); return 0; }
inline int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int, MPI_Datatype, MPI_Comm c) { const size_t w = mpit::width(t) * n; auto a = mpit::all(s, w, c); for (int i = 0; i < mpit::size; ++i) std::memcpy((char *)r + i * w, a[i].data(), w); return 0; }
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm c) { const size_t w = mpit::width(t) * n; auto a = mpit::all(p, w, c); std::memcpy(p, a[root].data(), std::min(w, a[root].size())); return 0; }
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype, MPI_Op o, MPI_Comm c) { auto a = mpit::all(s, 8 * n, c); for (int k = 0; k < n; ++k) { double x = ((const double *)a[0].data())[k]; for (int i = 1; i < mpit::size; ++i) { const double y = ((const double *)a[i].data())[k]; x = o == MPI_MAX ? (y > x ? y : x) : x + y; } ((double *)r)[k] = x; } return 0; }
