// The part of the tensor library's public interface the analysed headers name.
#ifndef QLV_QLTEN_H
#define QLV_QLTEN_H
#include <cassert>
#include <complex>
#include <cstddef>
#include <iostream>
#include "qlten/framework/hp_numeric/mpi_fun.h"
namespace qlten {
class Showable {
 public:
  virtual void Show(const size_t = 0) const = 0;
  void ConciseShow(const size_t = 0) const {}
};
class Streamable {
 public:
  virtual void StreamRead(std::istream &) = 0;
  virtual void StreamWrite(std::ostream &) const = 0;
};
inline std::istream &operator>>(std::istream &is, Streamable &s) { s.StreamRead(is); return is; }
inline std::ostream &operator<<(std::ostream &os, const Streamable &s) { s.StreamWrite(os); return os; }
struct IndentPrinter { size_t n; explicit IndentPrinter(size_t k) : n(k) {} };
using std::size_t;
}  // namespace qlten
#endif
