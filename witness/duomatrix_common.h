#include "qlv.h"
#include "qlv_vector.h"
#include <cassert>
#include <fstream>
#include <random>
// Element with a model allocator: every object lives in its own slot of a pool; releasing a slot that is not
// live, or ending with a live slot, violates the obligation.
extern "C" void qlv_bad_free() noexcept __attribute__((noreturn));
struct Elem {
  long v;
  Elem() : v(0) {}
  explicit Elem(long x) : v(x) {}
  bool operator==(const Elem &o) const { return v == o.v; }
  bool operator!=(const Elem &o) const { return v != o.v; }
  static void *operator new(size_t);
  static void operator delete(void *p);
};
#ifndef SLOTS
#define SLOTS 24
#endif
static Elem pool[SLOTS];
static bool live[SLOTS];
static size_t next_slot;
static bool bad;          // a double or foreign delete happened
template <class F, size_t... K> static inline void Each_(F f, std::index_sequence<K...>) { (f(K), ...); }
template <class F> static inline void Each(F f) { Each_(f, std::make_index_sequence<SLOTS>()); }
inline void *Elem::operator new(size_t) {
  Elem *r = &pool[0];
  const size_t n = next_slot;
  Each([&](size_t k) { if (k == n) { live[k] = true; r = &pool[k]; } });
  if (n >= SLOTS) qlv_model_overflow();
  next_slot = n + 1;
  return r;
}
inline void Elem::operator delete(void *p) {
  if (!p) return;
  bool hit = false;
  Each([&](size_t k) { if (p == &pool[k]) { if (!live[k]) bad = true; live[k] = false; hit = true; } });
  if (!hit) bad = true;
}
static inline void Start() { next_slot = 0; bad = false; Each([&](size_t k) { live[k] = false; }); }
static inline size_t Live() { size_t n = 0; Each([&](size_t k) { n += live[k]; }); return n; }
#ifdef QLV_IO
#include "qlv_fstream.h"
inline std::qlv_ofstream &operator<<(std::qlv_ofstream &o, const Elem &e) { return o.put_value(e.v); }
inline std::qlv_ifstream &operator>>(std::qlv_ifstream &i, Elem &e) { return i.get_value(e.v); }
#define string qlv_string
#define ofstream qlv_ofstream
#define ifstream qlv_ifstream
#define ios qlv_ios
#define ios_base qlv_ios
#endif
#define vector qlv_vector
#include "qlpeps/two_dim_tn/framework/duomatrix.h"
#include "qlpeps/two_dim_tn/framework/ten_matrix.h"
#undef vector
#undef string
#undef ofstream
#undef ifstream
#undef ios
#undef ios_base
using namespace qlpeps;
using namespace qlv;
#ifndef MATRIX
#define MATRIX DuoMatrix
#endif
typedef MATRIX<Elem> M;
// fill the cells selected by the bits of P with values v + cell number
template <unsigned P> static inline void Fill(M &m, long v) {
  unsigned k = 0;
  for (size_t i = 0; i < m.rows(); ++i)
    for (size_t j = 0; j < m.cols(); ++j, ++k)
      if (P >> k & 1) m(i, j) = new Elem(v + k);
}
template <unsigned P> static inline bool Holds(const M &m, size_t R, size_t C, long v) {
  if (m.rows() != R || m.cols() != C) return false;
  unsigned k = 0;
  for (size_t i = 0; i < R; ++i)
    for (size_t j = 0; j < C; ++j, ++k) {
      const Elem *p = m(i, j);
      if (P >> k & 1) { if (p == nullptr || p->v != v + k) return false; bool ok = false; Each([&](size_t k) { if (p == &pool[k] && live[k]) ok = true; }); if (!ok) return false; }
      else if (p != nullptr) return false;
    }
  return true;
}
static inline bool Disjoint(const M &a, const M &b) {
  for (size_t i = 0; i < a.rows(); ++i) for (size_t j = 0; j < a.cols(); ++j)
    for (size_t k = 0; k < b.rows(); ++k) for (size_t l = 0; l < b.cols(); ++l)
      if (a(i, j) != nullptr && a(i, j) == b(k, l)) return false;
  return true;
}
#define DONE(nm) REQF(nm, no_double_release, !bad); REQF(nm, no_leak, Live() == 0)
