// Environment models of the <algorithm> functions whose standard-library bodies (introsort, binary
// search) carry loops the optimiser cannot unroll.  Each model is the specification of the standard
// algorithm written as a linear scan; only the names used from here on are redirected.
#ifndef QLV_ALGO_H
#define QLV_ALGO_H
#include "qlv_std.h"
#include <algorithm>
#include <numeric>
#include <iterator>
#include <vector>
#include <functional>
namespace std {
template <class It, class T, class C = std::less<>>
inline It qlv_upper_bound(It f, It l, const T &v, C c = C()) { while (f != l && !c(v, *f)) ++f; return f; }
template <class It, class T, class C = std::less<>>
inline It qlv_lower_bound(It f, It l, const T &v, C c = C()) { while (f != l && c(*f, v)) ++f; return f; }
template <class It, class P>
inline It qlv_partition_point(It f, It l, P p) { while (f != l && p(*f)) ++f; return f; }
template <class It, class C = std::less<>>
inline void qlv_sort(It f, It l, C c = C()) {
  if (f == l) return;
  for (It i = f + 1; i != l; ++i)
    for (It j = i; j != f && c(*j, *(j - 1)); --j) { auto t = *j; *j = *(j - 1); *(j - 1) = t; }
}
template <class It, class T>
inline It qlv_find(It f, It l, const T &v) { while (f != l && !(*f == v)) ++f; return f; }
template <class It, class C = std::less<>>
inline bool qlv_next_permutation(It f, It l, C c = C()) {
  const long n = l - f; long k = -1, m = -1;
  for (long i = 0; i + 1 < n; ++i) if (c(f[i], f[i + 1])) k = i;
  if (k >= 0) { for (long i = 0; i < n; ++i) if (i > k && c(f[k], f[i])) m = i; auto t = f[k]; f[k] = f[m]; f[m] = t; }
  for (long t = 0; t < n / 2; ++t) { const long p = k + 1 + t, q = n - 1 - t; if (p < q) { auto x = f[p]; f[p] = f[q]; f[q] = x; } }
  return k >= 0;
}
namespace ranges {
template <class R, class T, class C = std::less<>>
inline auto qlv_upper_bound(R &&r, const T &v, C c = C()) { return std::qlv_upper_bound(r.begin(), r.end(), v, c); }
template <class R, class T, class C = std::less<>>
inline auto qlv_lower_bound(R &&r, const T &v, C c = C()) { return std::qlv_lower_bound(r.begin(), r.end(), v, c); }
template <class R, class P>
inline auto qlv_partition_point(R &&r, P p) { return std::qlv_partition_point(r.begin(), r.end(), p); }
template <class R, class C = std::less<>>
inline void qlv_sort(R &&r, C c = C()) { std::qlv_sort(r.begin(), r.end(), c); }
}  // namespace ranges
}  // namespace std
#define upper_bound qlv_upper_bound
#define lower_bound qlv_lower_bound
#define partition_point qlv_partition_point
#define sort qlv_sort
#define next_permutation qlv_next_permutation
#ifdef QLV_ALGO_FIND
#define find qlv_find
#endif
#define stable_sort qlv_sort
#endif
