//@@ peel
#include "qlv.h"
#define QLV_VCAP 3
#include "qlv_vector.h"
#include <algorithm>
#include <complex>
#include <iomanip>
#include <limits>
#include <sstream>
#include <string>
extern "C" void qlv_model_overflow() noexcept __attribute__((noreturn));
// Text model: the characters printed, a printed value being one item (1000 + its token).
struct Val { long id; };
namespace std {
struct qlv_text {
  int n = 0; long c[40] = {};
  void put(long x) { if (n >= 40) qlv_model_overflow(); c[n++] = x; }
  void puts(const char *s) { for (; *s; ++s) put((unsigned char)*s); }
};
struct qlv_oss {
  qlv_text t;
  qlv_text str() const { return t; }
  qlv_oss &operator<<(const char *s) { t.puts(s); return *this; }
  qlv_oss &operator<<(char s) { t.put((unsigned char)s); return *this; }
  qlv_oss &operator<<(const Val &v) { t.put(1000 + v.id); return *this; }
  qlv_oss &operator<<(size_t n) { t.put(1000000 + (long)n); return *this; }
  template <class M> qlv_oss &operator<<(const M &) { return *this; }   // manipulators
  qlv_oss &operator<<(ios_base &(*)(ios_base &)) { return *this; }
};
}  // namespace std
#define vector qlv_vector
#define ostringstream qlv_oss
#define stringstream qlv_oss
#define string qlv_text
#include "qlpeps/algorithm/vmc_update/psi_consistency.h"
#undef vector
#undef string
using namespace qlpeps;
using namespace qlv;
//@ f_*: include/qlpeps/algorithm/vmc_update/psi_consistency.h :: FormatPsiListTruncated -- the first elements in order, separated, with the total count when some are left out
template <size_t N, size_t M> static inline void Fmt() {
  std::qlv_vector<Val> v;
  for (size_t i = 0; i < N; ++i) v.push_back(Val{(long)i});
  const std::qlv_text t = FormatPsiListTruncated(v, M);
  std::qlv_text e;
  e.puts("[");
  constexpr size_t m = N < M ? N : M;
  for (size_t i = 0; i < m; ++i) { if (i) e.puts(", "); e.put(1000 + (long)i); }
  if (N > m) { e.puts(m ? ", ... (n=" : "... (n="); e.put(1000000 + (long)N); e.puts(")"); }
  e.puts("]");
  REQF(f_fmt, length, t.n == e.n);
  bool same = true;
  for (int i = 0; i < 40; ++i) if (i < e.n && t.c[i] != e.c[i]) same = false;
  REQF(f_fmt, text, same);
}
OB(f_fmt_00) { Fmt<0, 0>(); }
OB(f_fmt_05) { Fmt<0, 5>(); }
OB(f_fmt_10) { Fmt<1, 0>(); }
OB(f_fmt_11) { Fmt<1, 1>(); }
OB(f_fmt_21) { Fmt<2, 1>(); }
OB(f_fmt_22) { Fmt<2, 2>(); }
OB(f_fmt_32) { Fmt<3, 2>(); }
OB(f_fmt_33) { Fmt<3, 3>(); }
OB(f_fmt_38) { Fmt<3, 8>(); }
OB(f_fmt_30) { Fmt<3, 0>(); }
