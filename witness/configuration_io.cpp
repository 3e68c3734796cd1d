//@@ peel
#define QLV_VCAP 3
#define QLV_FILES 3
#include "configuration_common.h"
//@ rt_*: include/qlpeps/vmc_basic/configuration.h :: Configuration::Dump/Load -- what was saved is loaded back
//@ dump_*: include/qlpeps/vmc_basic/configuration.h :: Configuration::Dump -- throws unless the file was written and closed
//@ load_*: include/qlpeps/vmc_basic/configuration.h :: Configuration::Load -- false, without exception, unless a complete configuration of the same shape was read
// names stand for themselves: representative directories and labels
static constexpr long p = 5, q = 6; static constexpr size_t n = 3, m = 4;
#define A6 size_t a, size_t b, size_t c, size_t d, size_t e, size_t f
#define A6X const size_t x[] = {a, b, c, d, e, f}
template <size_t R, size_t C> static inline bool Is(const Configuration &k, const size_t *x) {
  bool ok = k.rows() == R && k.cols() == C;
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) ok = ok && k({i, j}) == x[i * C + j];
  return ok;
}
template <size_t R, size_t C> static inline void RoundTrip(const size_t *x, long dir, size_t label) {
  StartIo();
  Configuration k(R, C); Put<R, C>(k, x);
  k.Dump(std::qlv_string(dir), label);
  REQF(rt, source_kept, (Is<R, C>(k, x)));
  Configuration l(R, C);
  const bool ok = l.Load(std::qlv_string(dir), label);
  REQF(rt, loaded, ok);
  REQF(rt, equal, (Is<R, C>(l, x)));
}
OB(rt_11, A6) { A6X; RoundTrip<1, 1>(x, p, n); }
OB(rt_22, A6) { A6X; RoundTrip<2, 2>(x, p, n); }
OB(rt_13, A6) { A6X; RoundTrip<1, 3>(x, p, n); }
OB(rt_31, A6) { A6X; RoundTrip<3, 1>(x, p, n); }
OB(rt_21, A6) { A6X; RoundTrip<2, 1>(x, p, n); }
OB(rt_other_label, A6) {
  A6X; 
  StartIo(); Configuration k(1, 2); Put<1, 2>(k, x); k.Dump(std::qlv_string(p), n);
  Configuration l(1, 2);
  REQ(rt_other_label, !l.Load(std::qlv_string(p), m));
}
OB(rt_other_dir, A6) {
  A6X; 
  StartIo(); Configuration k(1, 2); Put<1, 2>(k, x); k.Dump(std::qlv_string(p), n);
  Configuration l(1, 2);
  REQ(rt_other_dir, !l.Load(std::qlv_string(q), n));
}
OB(rt_again, A6) {      // a second save replaces the first
  A6X; 
  StartIo(); Configuration k(1, 2); Put<1, 2>(k, x); k.Dump(std::qlv_string(p), n);
  Configuration o(1, 2); Put<1, 2>(o, x + 2); o.Dump(std::qlv_string(p), n);
  Configuration l(1, 2);
  const bool ok = l.Load(std::qlv_string(p), n);
  REQ(rt_again, ok); REQ(rt_again, (Is<1, 2>(l, x + 2)));
}
// other shapes are refused, and the configuration is left alone
template <size_t R, size_t C, size_t S, size_t D> static inline void Shape(const size_t *x, size_t y) {
  StartIo(); Configuration k(R, C); Put<R, C>(k, x); k.Dump(std::qlv_string(p), n);
  Configuration l(S, D); for (size_t i = 0; i < S; ++i) for (size_t j = 0; j < D; ++j) l({i, j}) = y;
  const bool ok = l.Load(std::qlv_string(p), n);
  REQF(load, other_shape, !ok);
  for (size_t i = 0; i < S; ++i) for (size_t j = 0; j < D; ++j) REQF(load, untouched, l({i, j}) == y);
}
OB(load_shape_23_32, A6, size_t y) { A6X; Shape<2, 3, 3, 2>(x, y); }
OB(load_shape_23_22, A6, size_t y) { A6X; Shape<2, 3, 2, 2>(x, y); }
OB(load_shape_12_22, A6, size_t y) { A6X; Shape<1, 2, 2, 2>(x, y); }
OB(load_missing) { StartIo(); Configuration l(1, 2); REQ(load_missing, !l.Load(std::qlv_string(p), n)); }
OBC(load_short, A6, int keep) {   // the data file lost its end
  A6X; ASSUME(keep >= 0); ASSUME(keep < 4);
  StartIo(); Configuration k(2, 2); Put<2, 2>(k, x); k.Dump(std::qlv_string(p), n);
  io.f[0].n = keep;
  Configuration l(2, 2);
  const bool ok = l.Load(std::qlv_string(p), n);
  REQF(load_short, refused, !ok);
}
OB(load_bad_sidecar, A6) {
  A6X; 
  StartIo(); Configuration k(1, 2); Put<1, 2>(k, x); k.Dump(std::qlv_string(p), n);
  io.f[1].n = 1;
  Configuration l(1, 2);
  REQ(load_bad_sidecar, !l.Load(std::qlv_string(p), n));
}
OB(load_no_sidecar, A6) {   // files of older versions have none
  A6X; 
  StartIo(); Configuration k(1, 2); Put<1, 2>(k, x); k.Dump(std::qlv_string(p), n);
  io.f[1].there = false;
  Configuration l(1, 2);
  const bool ok = l.Load(std::qlv_string(p), n);
  REQ(load_no_sidecar, ok); REQ(load_no_sidecar, (Is<1, 2>(l, x)));
}
#define DUMPF(nm, O, W, C) \
  OBX(dump_##nm, A6, bool r) { A6X; StartIo(O, W, C); Configuration k(1, 2); Put<1, 2>(k, x); k.Dump(std::qlv_string(p), n); REQN(dump_##nm, r); }
DUMPF(noopen, 0, -1, -1) DUMPF(nowrite0, -1, 0, -1) DUMPF(nowrite1, -1, 1, -1) DUMPF(nowrite2, -1, 2, -1) DUMPF(noclose, -1, -1, 0)
OB(rt_empty_rows) { StartIo(); Configuration k(2, 0); k.Dump(std::qlv_string(p), n); REQ(rt_empty_rows, io.f[0].n == 0 && !io.f[0].corrupt); Configuration l(2, 0); REQ(rt_empty_rows, l.Load(std::qlv_string(p), n)); }
