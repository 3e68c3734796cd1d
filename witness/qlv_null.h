// Console output is not part of any property here: std::cout / cerr / clog swallow everything.
#ifndef QLV_NULL_H
#define QLV_NULL_H
#include "qlv_std.h"
namespace std {
struct qlv_null {
  template <class T> const qlv_null &operator<<(const T &) const { return *this; }
  const qlv_null &operator<<(ostream &(*)(ostream &)) const { return *this; }
  const qlv_null &operator<<(ios_base &(*)(ios_base &)) const { return *this; }
  const qlv_null &flush() const { return *this; }
  const qlv_null &put(char) const { return *this; }
  streamsize precision() const { return 6; }
  streamsize precision(streamsize) const { return 6; }
  ios_base::fmtflags flags() const { return ios_base::fmtflags(); }
  ios_base::fmtflags flags(ios_base::fmtflags) const { return ios_base::fmtflags(); }
  template <class T> void setf(T) const {}
  template <class T, class U> void setf(T, U) const {}
  template <class T> void unsetf(T) const {}
  explicit operator bool() const { return true; }
};
static constexpr qlv_null qlv_cout{}, qlv_cerr{}, qlv_clog{};
}  // namespace std
#define cout qlv_cout
#define cerr qlv_cerr
#define clog qlv_clog
#endif
