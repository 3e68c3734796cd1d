//@@ peel
#define QLV_VCAP 3
#include "qlv.h"
#include "qlv_vector.h"
#include "qlv_fstream.h"
#include "qlv_mpi.h"
#include "qlv_null.h"
using namespace qlv;
//@ dump_*: include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h :: DumpVecData -- returns normally exactly when every datum was written, in order, and flushed
// What arrives in the file: numbers (in order) and white space between them; the write number `fail_at` fails.
struct Out { int n; double v[4]; bool open_token, glued; int ops, fail_at; };
static Out out;
static inline std::qlv_ofstream &Item(std::qlv_ofstream &o, bool number, double v, bool space) {
  if (!o.is_open() || o.fail()) return o;
  if (out.ops++ == out.fail_at) { o.setstate(std::qlv_ios::badbit); return o; }
  o.put_value(0);
  if (number) { if (out.open_token) out.glued = true; if (out.n > 3) qlv_model_overflow(); out.v[out.n++] = v; out.open_token = true; }
  else if (space) out.open_token = false;
  return o;
}
static inline std::qlv_ofstream &operator<<(std::qlv_ofstream &o, double v) { return Item(o, true, v, false); }
static inline std::qlv_ofstream &operator<<(std::qlv_ofstream &o, char c) { return Item(o, false, 0, c == '\n' || c == ' ' || c == '\t'); }
static inline std::qlv_ofstream &operator<<(std::qlv_ofstream &o, const char *s) { return Item(o, false, 0, *s == '\n' || *s == ' ' || *s == '\t'); }
static inline std::qlv_ofstream &operator<<(std::qlv_ofstream &o, std::ostream &(*)(std::ostream &)) { Item(o, false, 0, true); return o.flush(); }
#define ofstream qlv_ofstream
#define string qlv_string
#define vector qlv_vector
#include "qlpeps/vmc_basic/monte_carlo_tools/statistics.h"
#undef vector
#undef string
using namespace qlpeps;
typedef std::qlv_vector<double> VD;
template <int N> static inline void Dump(const double *x, long f, bool o, bool y, int fail_at, bool cl = true) {
  ASSUME(f != 0);
  StartFiles(o, true, y, true, 0); fe.close_fails = !cl;
  out = Out{0, {}, false, false, 0, fail_at};
  VD d; for (int i = 0; i < N; ++i) d.push_back(x[i]);
  bool ok = true;
  try { DumpVecData(std::qlv_string(f), d); } catch (...) { ok = false; }
  if (ok) {
    REQF(dump, opened, o && fe.opened == f && fe.n_open == 1 && !(fe.mode & std::qlv_ios::app));
    REQF(dump, flushed, y && fe.synced);
    REQF(dump, closed, cl);
    REQF(dump, no_failed_write, fail_at < 0 || fail_at >= out.ops);
    REQF(dump, all, out.n == N && !out.glued);
    for (int i = 0; i < N; ++i) REQF(dump, value, Same(out.v[i], x[i]));
  }
  if (o && y && cl && fail_at == -1) REQF(dump, succeeds, ok);
}
#define D(nm, O, Y, F) OBX(dump_##nm, double a, double b, long f) { const double x[] = {a, b}; Dump<2>(x, f, O, Y, F); }
D(ok, true, true, -1) D(noopen, false, true, -1) D(noflush, true, false, -1) D(w0, true, true, 0) D(w1, true, true, 1) D(w2, true, true, 2) D(w3, true, true, 3) D(w4, true, true, 4) D(w5, true, true, 5)
OBX(dump_0, long f) { const double x[] = {0}; Dump<0>(x, f, true, true, -1); }
OBX(dump_noclose, double a, double b, long f) { const double x[] = {a, b}; Dump<2>(x, f, true, true, -1, false); }
