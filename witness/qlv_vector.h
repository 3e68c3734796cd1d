// Environment model of std::vector: same observable semantics, elements held inline (capacity QLV_VCAP) so
// that the optimiser sees every element.  Elements must be default constructible and trivially assignable
// in the analysed code (pointers, numbers, nested model vectors).  A moved-from vector is empty, as in
// libstdc++.  Exceeding the capacity ends in the never-defined qlv_model_overflow (reported as an error).
#ifndef QLV_VECTOR_H
#define QLV_VECTOR_H
#include "qlv_std.h"
#include <algorithm>
#include <array>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <numeric>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#ifndef QLV_VCAP
#define QLV_VCAP 3
#endif
extern "C" void qlv_model_overflow() noexcept __attribute__((noreturn));
extern "C" void qlv_out_of_bounds() noexcept __attribute__((noreturn));  // an access outside the vector: a violation
namespace std {
template <class T, class A = void>
struct qlv_vector {
  typedef T value_type; typedef T *iterator; typedef const T *const_iterator; typedef size_t size_type; typedef ptrdiff_t difference_type;
  typedef T &reference; typedef const T &const_reference; typedef T *pointer; typedef const T *const_pointer;
  size_t n_ = 0;
  T e_[QLV_VCAP] = {};
  // every access uses a constant offset, so that stores to elements never hide the size from the optimiser
  template <size_t... K> static inline T *pick(T *e, size_t i, index_sequence<K...>) { T *r = e; (void)((i == K ? (r = e + K, true) : false) || ...); return r; }
  static inline T *pick(T *e, size_t i) { return pick(e, i, make_index_sequence<QLV_VCAP>()); }
  static inline const T *pick(const T *e, size_t i) { return pick(const_cast<T *>(e), i); }
  template <class F, size_t... K> static inline void each(F f, index_sequence<K...>) { (f(K), ...); }
  template <class F> static inline void each(size_t n, F f) { each([&](size_t k) __attribute__((always_inline)) { if (k < n) f(k); }, make_index_sequence<QLV_VCAP>()); }
  qlv_vector() {}
  qlv_vector(size_t n, const T &v) { chk(n); n_ = n; each(n, [&](size_t k) { e_[k] = v; }); }
  explicit qlv_vector(size_t n) { chk(n); n_ = n; }
  qlv_vector(initializer_list<T> l) { for (const T &x : l) push_back(x); }
  template <class It, class = typename iterator_traits<It>::iterator_category>
  qlv_vector(It f, It l) { for (; f != l; ++f) push_back(*f); }
  qlv_vector(const qlv_vector &o) { n_ = o.n_; each(o.n_, [&](size_t k) { e_[k] = o.e_[k]; }); }
  qlv_vector(qlv_vector &&o) noexcept { n_ = o.n_; each(o.n_, [&](size_t k) { e_[k] = std::move(o.e_[k]); o.e_[k] = T(); }); o.n_ = 0; }
  qlv_vector &operator=(const qlv_vector &o) { if (this != &o) { n_ = o.n_; each(o.n_, [&](size_t k) { e_[k] = o.e_[k]; }); } return *this; }
  qlv_vector &operator=(qlv_vector &&o) noexcept {
    if (this != &o) { n_ = o.n_; each(o.n_, [&](size_t k) { e_[k] = std::move(o.e_[k]); o.e_[k] = T(); }); o.n_ = 0; }
    else { n_ = 0; }
    return *this;
  }
  qlv_vector &operator=(initializer_list<T> l) { n_ = 0; for (const T &x : l) push_back(x); return *this; }
  static void chk(size_t n) { if (n > QLV_VCAP) qlv_model_overflow(); }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t capacity() const { return QLV_VCAP; }
  void reserve(size_t) {}
  void shrink_to_fit() {}
  T &operator[](size_t i) { if (i >= n_) qlv_out_of_bounds(); return *pick(e_, i); }
  const T &operator[](size_t i) const { if (i >= n_) qlv_out_of_bounds(); return *pick(e_, i); }
  T &at(size_t i) { if (i >= n_) throw out_of_range("at"); return *pick(e_, i); }
  const T &at(size_t i) const { if (i >= n_) throw out_of_range("at"); return *pick(e_, i); }
  T *begin() { return e_; }
  T *end() { return e_ + n_; }
  const T *begin() const { return e_; }
  const T *end() const { return e_ + n_; }
  const T *cbegin() const { return e_; }
  const T *cend() const { return e_ + n_; }
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  T *data() { return e_; }
  const T *data() const { return e_; }
  T &front() { if (!n_) qlv_out_of_bounds(); return e_[0]; }
  const T &front() const { if (!n_) qlv_out_of_bounds(); return e_[0]; }
  T &back() { if (!n_) qlv_out_of_bounds(); return *pick(e_, n_ - 1); }
  const T &back() const { if (!n_) qlv_out_of_bounds(); return *pick(e_, n_ - 1); }
  void push_back(const T &v) { chk(n_ + 1); *pick(e_, n_) = v; ++n_; }
  void push_back(T &&v) { chk(n_ + 1); *pick(e_, n_) = std::move(v); ++n_; }
  template <class... X> T &emplace_back(X &&...x) { chk(n_ + 1); *pick(e_, n_) = T(std::forward<X>(x)...); ++n_; return *pick(e_, n_ - 1); }
  void pop_back() { --n_; *pick(e_, n_) = T(); }
  void clear() { each(n_, [&](size_t k) { e_[k] = T(); }); n_ = 0; }
  void resize(size_t n) { chk(n); { const size_t o = n_; each(n, [&](size_t k) { if (k >= o) e_[k] = T(); }); } n_ = n; }
  void resize(size_t n, const T &v) { chk(n); { const size_t o = n_; each(n, [&](size_t k) { if (k >= o) e_[k] = v; }); } n_ = n; }
  void assign(size_t n, const T &v) { chk(n); each(n, [&](size_t k) { e_[k] = v; }); n_ = n; }
  template <class It, class = typename iterator_traits<It>::iterator_category>
  void assign(It f, It l) { n_ = 0; for (; f != l; ++f) push_back(*f); }
  T *erase(T *p) { for (T *q = p; q + 1 != end(); ++q) *q = std::move(*(q + 1)); --n_; return p; }
  T *erase(const T *p) { return erase(const_cast<T *>(p)); }
  T *insert(const T *p, const T &v) { size_t k = p - e_; chk(n_ + 1); for (size_t i = n_; i > k; --i) e_[i] = e_[i - 1]; e_[k] = v; ++n_; return e_ + k; }
  void swap(qlv_vector &o) noexcept { qlv_vector t(std::move(o)); o = std::move(*this); *this = std::move(t); }
  bool operator==(const qlv_vector &o) const { if (n_ != o.n_) return false; for (size_t i = 0; i < n_; ++i) if (!(e_[i] == o.e_[i])) return false; return true; }
};
template <class T> inline void swap(qlv_vector<T> &a, qlv_vector<T> &b) noexcept { a.swap(b); }
template <class It> qlv_vector(It, It) -> qlv_vector<typename iterator_traits<It>::value_type>;
}  // namespace std
#endif
