#include "qlv.h"
#include "qlv_vector.h"
#include "qlv_io.h"
#include "qlv_mpi.h"
#include "qlv_null.h"
using namespace qlv;
// Randomness: a draw is an arbitrary value of the requested interval (here the environment's next value, if inside);
// a shuffle is an arbitrary permutation (here: a rotation, a reversal, or an exchange of two positions).
struct Rnd { int draws; size_t lo, hi; bool same_interval; size_t value[8]; int shuffles; size_t shuffled; int perm; };
static Rnd rnd;
static inline void StartRnd(int perm) { rnd.draws = 0; rnd.same_interval = true; rnd.shuffles = 0; rnd.shuffled = 0; rnd.perm = perm; }
namespace std {
struct qlv_engine {
  typedef unsigned long result_type;
  qlv_engine(unsigned long = 0) {}
  static constexpr unsigned long min() { return 0; }
  static constexpr unsigned long max() { return ~0ul; }
  unsigned long operator()() { return (unsigned long)rnd.draws; }
  void seed(unsigned long) {}
};
struct qlv_rd { unsigned operator()() { return 0; } };
template <class T> struct qlv_uid {
  T a_, b_;
  qlv_uid(T a, T b) : a_(a), b_(b) {}
  T operator()(qlv_engine &) {
    if (rnd.draws > 0 && (rnd.lo != a_ || rnd.hi != b_)) rnd.same_interval = false;
    rnd.lo = a_; rnd.hi = b_;
    const T x = rnd.value[rnd.draws & 7]; ++rnd.draws;
    return x >= a_ && x <= b_ ? x : a_;
  }
};
template <class It> inline void qlv_shuffle_(It f, It l) {
  rnd.shuffles++; rnd.shuffled = l - f;
  const size_t n = l - f;
  if (n < 2) return;
  if (rnd.perm == 1) { for (size_t i = 0; i + 1 < n; ++i) { auto t = f[i]; f[i] = f[i + 1]; f[i + 1] = t; } }
  else if (rnd.perm == 2) { for (size_t i = 0; i < n / 2; ++i) { auto t = f[i]; f[i] = f[n - 1 - i]; f[n - 1 - i] = t; } }
  else if (rnd.perm == 3) { auto t = f[0]; f[0] = f[n / 2]; f[n / 2] = t; }
}
template <class It, class G> inline void qlv_shuffle(It f, It l, G &&) { qlv_shuffle_(f, l); }
namespace ranges { template <class R, class G> inline void qlv_shuffle(R &&r, G &&) { std::qlv_shuffle_(r.begin(), r.end()); } }
// ordered map with few entries
template <class K, class V> struct qlv_map {
  typedef pair<const K, V> value_type; typedef size_t size_type;
  struct P { K first; V second; };
  P e_[4]; size_t n_ = 0;
  qlv_map() {}
  P *begin() { return e_; } P *end() { return e_ + n_; }
  const P *begin() const { return e_; } const P *end() const { return e_ + n_; }
  size_t size() const { return n_; } bool empty() const { return n_ == 0; }
  void add(K k, V v) { if (n_ >= 4) qlv_model_overflow(); e_[n_].first = k; e_[n_].second = v; ++n_; }   // ascending keys
};
}  // namespace std
#define random_device qlv_rd
#define mt19937 qlv_engine
#define mt19937_64 qlv_engine
#define default_random_engine qlv_engine
#define minstd_rand qlv_engine
#define uniform_int_distribution qlv_uid
#define shuffle qlv_shuffle
#define map qlv_map
#define string qlv_string
#define to_string qlv_to_string
#define ostream qlv_ostream
#define istream qlv_istream
#define ofstream qlv_ofs
#define ifstream qlv_ifs
#define vector qlv_vector
// directory handling is decided elsewhere
#define QLPEPS_UTILITY_FILESYSTEM_UTILS_H
namespace qlpeps {
static inline bool EnsureDirectoryExists(const std::qlv_string &) { return true; }
static inline bool IsPathExist(const std::qlv_string &) { return true; }
static inline bool CreatePath(const std::qlv_string &) { return true; }
}  // namespace qlpeps
#include "qlpeps/vmc_basic/configuration.h"
#undef vector
#undef string
#undef ostream
#undef istream
#undef map
using namespace qlpeps;
typedef std::qlv_vector<size_t> VS;
typedef std::qlv_map<size_t, size_t> MS;
template <size_t R, size_t C> static inline void Put(Configuration &c, const size_t *x) {
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) c({i, j}) = x[i * C + j];
}
