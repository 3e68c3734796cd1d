// Token model of std::string: a string is an identity; operations on it are uninterpreted pure functions of the
// identity, so that equal expressions over equal strings are equal and nothing else is known.
// Include every standard header the analysed code needs before `#define string qlv_string` takes effect.
#ifndef QLV_STRING_H
#define QLV_STRING_H
#include "qlv_std.h"
#include <string>
#include <string_view>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
extern "C" {
long qlv_str_cat(long, long) noexcept __attribute__((const));
long qlv_str_num(long) noexcept __attribute__((const));
long qlv_str_len(long) noexcept __attribute__((const));
bool qlv_str_less(long, long) noexcept __attribute__((const));
}
namespace std {
struct qlv_string {
  long id;
  typedef size_t size_type; typedef char value_type;
  static constexpr size_t npos = (size_t)-1;
  qlv_string() : id(0) {}
  explicit qlv_string(long i) : id(i) {}
#ifdef QLV_STR_HASH   // literals are identified by content (constant folded)
  static inline long lit(const char *p) { long h = 7; for (; *p; ++p) h = h * 131 + *p; return h; }
#else
  static inline long lit(const char *p) { return reinterpret_cast<long>(p); }
#endif
  qlv_string(const char *p) : id(lit(p)) {}
  qlv_string(const qlv_string &) = default;
  qlv_string &operator=(const qlv_string &) = default;
  qlv_string(qlv_string &&o) noexcept : id(o.id) { o.id = 0; }  // a moved-from string is empty
  qlv_string &operator=(qlv_string &&o) noexcept { const long t = o.id; o.id = 0; id = t; return *this; }
  qlv_string &operator=(const char *p) { id = lit(p); return *this; }
  bool empty() const { return id == 0; }
  void clear() { id = 0; }
  size_t size() const { return id == 0 ? 0 : (size_t)qlv_str_len(id); }
  size_t length() const { return size(); }
  const char *c_str() const { return reinterpret_cast<const char *>(id); }
  const char *data() const { return reinterpret_cast<const char *>(id); }
  void swap(qlv_string &o) noexcept { const long t = id; id = o.id; o.id = t; }
  qlv_string &assign(const qlv_string &o) { id = o.id; return *this; }
  qlv_string &append(const qlv_string &o) { id = o.id == 0 ? id : id == 0 ? o.id : qlv_str_cat(id, o.id); return *this; }
  qlv_string &operator+=(const qlv_string &o) { return append(o); }
  qlv_string &operator+=(char c) { id = qlv_str_cat(id, 0x100 + (long)c); return *this; }
  void push_back(char c) { *this += c; }
  void reserve(size_t) {}
  // what a message passed on to the standard library says is not modelled
  operator basic_string<char>() const { return basic_string<char>(); }
  friend qlv_string operator+(const qlv_string &a, char c) { qlv_string r(a); r += c; return r; }
  qlv_string substr(size_t = 0, size_t = npos) const { return qlv_string(qlv_str_cat(id, -1)); }
  friend qlv_string operator+(const qlv_string &a, const qlv_string &b) { qlv_string r(a); r.append(b); return r; }
  friend bool operator==(const qlv_string &a, const qlv_string &b) { return a.id == b.id; }
  friend bool operator!=(const qlv_string &a, const qlv_string &b) { return a.id != b.id; }
  friend bool operator<(const qlv_string &a, const qlv_string &b) { return qlv_str_less(a.id, b.id); }
  template <class C, class T> friend basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, const qlv_string &) { return o; }
};
inline void swap(qlv_string &a, qlv_string &b) noexcept { a.swap(b); }
template <class N> inline qlv_string qlv_to_string(N n) { return qlv_string(qlv_str_num((long)n)); }
}  // namespace std
#endif
