//@@ flat
#include "qlv.h"
#include "qlv_mpi.h"
#include "qlv_std.h"
#include <csignal>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/types.h>
using namespace qlv;
//@ reg_*: include/qlpeps/base/mpi_signal_guard.h :: MPISignalGuard::Register -- SIGINT and SIGTERM, and no other signal, request a stop on this rank
//@ any_*: include/qlpeps/base/mpi_signal_guard.h :: MPISignalGuard::EmergencyStopRequested -- true on every rank exactly when some rank got the signal, asked with one collective
//@ reset_*: include/qlpeps/base/mpi_signal_guard.h :: MPISignalGuard::Reset -- takes the request of this rank back
//@ safe_*: include/qlpeps/base/mpi_signal_guard.h :: MPISignalGuard::SignalHandler -- does nothing but async-signal-safe work
// The process: its signal table, whether a handler runs, and what the handler called that it must not
struct Proc { void (*table[65])(int); bool in_handler, unsafe; };
static Proc proc;
static inline void Unsafe() { if (proc.in_handler) proc.unsafe = true; }
static inline void Install(int s, void (*h)(int)) { for (int i = 1; i < 65; ++i) if (i == s) proc.table[i] = h; }
static inline void Raise(int s) {   // only ever the two signals
  proc.in_handler = true;
  if (proc.table[s]) proc.table[s](s);
  proc.in_handler = false;
}
struct qlv_sigaction : sigaction {};
static inline int qlv_sigaction(int s, const struct qlv_sigaction *a, struct qlv_sigaction *) { if (a) Install(s, a->sa_handler); return 0; }
static inline int qlv_sigemptyset(sigset_t *) { return 0; }
static inline int qlv_sigaddset(sigset_t *, int) { return 0; }
namespace std {
static inline void (*qlv_signal(int s, void (*h)(int)))(int) { Install(s, h); return nullptr; }
template <class T> struct qlv_atomic {           // a signal interrupts between operations only
  T v; constexpr qlv_atomic(T x = T()) : v(x) {}
  template <class... M> T load(M...) const { return v; }
  template <class... M> void store(T x, M...) { v = x; }
  template <class... M> T exchange(T x, M...) { T o = v; v = x; return o; }
  operator T() const { return v; }
  T operator=(T x) { v = x; return x; }
  bool is_lock_free() const { return true; }
};
struct qlv_atomic_flag {
  bool v; constexpr qlv_atomic_flag(bool x = false) : v(x) {}
  template <class... M> bool test_and_set(M...) { bool o = v; v = true; return o; }
  template <class... M> bool test(M...) const { return v; }
  template <class... M> void clear(M...) { v = false; }
};
struct qlv_console {
  template <class T> const qlv_console &operator<<(const T &) const { Unsafe(); return *this; }
  const qlv_console &operator<<(ostream &(*)(ostream &)) const { Unsafe(); return *this; }
  const qlv_console &flush() const { Unsafe(); return *this; }
  template <class... A> const qlv_console &write(A...) const { Unsafe(); return *this; }
};
static constexpr qlv_console qlv_cout{}, qlv_cerr{}, qlv_clog{};
template <class... A> static inline int qlv_printf(A...) { Unsafe(); return 1; }
template <class... A> static inline int qlv_fprintf(A...) { Unsafe(); return 1; }
template <class... A> static inline int qlv_puts(A...) { Unsafe(); return 1; }
template <class... A> static inline int qlv_fputs(A...) { Unsafe(); return 1; }
}  // namespace std
using std::qlv_signal; using std::qlv_printf; using std::qlv_fprintf; using std::qlv_puts; using std::qlv_fputs;
static inline ssize_t qlv_write(int, const void *, size_t n) { return ssize_t(n); }
static bool other[2];
inline int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  Unsafe();
  if (c != me.comm || n != 1 || t != MPI_INT || (op != MPI_MAX && op != MPI_SUM && op != MPI_LOR && op != MPI_BOR)) qlv_bad_mpi_call();
  const int x = *(const int *)(s == MPI_IN_PLACE ? r : s);
  const bool o1 = me.size > 1 && other[0], o2 = me.size > 2 && other[1];      // the other ranks contribute 0 or 1
  const bool any = o1 | o2;
  int y = x;
  if (op == MPI_MAX) { if (x < 1) { if (any) y = 1; } }
  else if (op == MPI_SUM) y = x + o1 + o2;
  else if (op == MPI_LOR) y = (x != 0) | any;
  else y = x | int(any);
  ++me.n_coll;
  *(int *)r = y;
  return MPI_SUCCESS;
}
#include "qlten/framework/hp_numeric/mpi_fun.h"
#define signal qlv_signal
#define sigaction qlv_sigaction
#define sigemptyset qlv_sigemptyset
#define sigaddset qlv_sigaddset
#define atomic qlv_atomic
#define atomic_flag qlv_atomic_flag
#define cout qlv_cout
#define cerr qlv_cerr
#define clog qlv_clog
#define printf qlv_printf
#define fprintf qlv_fprintf
#define puts qlv_puts
#define fputs qlv_fputs
#define write qlv_write
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {false}
#include "qlpeps/base/mpi_signal_guard.h"
typedef qlpeps::MPISignalGuard G;
static inline void Start(int size, MPI_Comm c, bool o1, bool o2) {
  StartMpi(0, size, c); other[0] = o1; other[1] = o2;
  for (int i = 0; i < 65; ++i) proc.table[i] = nullptr;
  proc.in_handler = proc.unsafe = false;
  G::Reset();
  G::Register();
}
template <int S> static inline void Sig(MPI_Comm c) {
  Start(1, c, false, false);
  REQF(reg, quiet_before, !G::LocalStopRequested());
  Raise(S);
  REQF(reg, seen, G::LocalStopRequested());
  Raise(S);
  REQF(reg, seen_twice, G::LocalStopRequested());
}
OB(reg_int, MPI_Comm c) { Sig<SIGINT>(c); }
OB(reg_term, MPI_Comm c) { Sig<SIGTERM>(c); }
OB(safe_int, MPI_Comm c) { Start(1, c, false, false); Raise(SIGINT); REQ(safe_int, !proc.unsafe); Raise(SIGTERM); REQ(safe_int, !proc.unsafe); }
OB(safe_term, MPI_Comm c) { Start(1, c, false, false); Raise(SIGTERM); REQ(safe_term, !proc.unsafe); }
OB(reg_others, MPI_Comm c) {
  Start(1, c, false, false);
  for (int s = 1; s < 65; ++s) REQ(reg_others, s == SIGINT || s == SIGTERM || !proc.table[s]);
}
template <int N> static inline void Any(bool sig, bool o1, bool o2, MPI_Comm c) {
  Start(N, c, o1, o2);
  if (sig) Raise(SIGINT);
  const bool want = sig || (N > 1 && o1) || (N > 2 && o2);
  REQF(any, some_rank, G::EmergencyStopRequested(c) == want);
  REQF(any, one_collective, me.n_coll == 1);
  REQF(any, local, G::LocalStopRequested() == sig);
  REQF(any, again, G::EmergencyStopRequested(c) == want);
}
#define A(S, O, P) OB(any_1_##S##O##P, MPI_Comm c) { Any<1>(S, O, P, c); } OB(any_2_##S##O##P, MPI_Comm c) { Any<2>(S, O, P, c); } OB(any_3_##S##O##P, MPI_Comm c) { Any<3>(S, O, P, c); }
A(0, 0, 0) A(1, 0, 0) A(0, 1, 0) A(1, 1, 0) A(0, 0, 1) A(1, 0, 1) A(0, 1, 1) A(1, 1, 1)
OB(reset_local, bool o, MPI_Comm c) {
  Start(2, c, o, false);
  Raise(SIGTERM);
  G::Reset();
  REQ(reset_local, !G::LocalStopRequested());
  REQ(reset_local, G::EmergencyStopRequested(c) == o);
  Raise(SIGTERM);
  REQ(reset_local, G::LocalStopRequested());
}
