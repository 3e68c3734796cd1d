//@@ peel
#define QLV_IO
#define MATRIX TenMatrix
#define SLOTS 6
#define QLV_VCAP 2
#include "duomatrix_common.h"
//@ dump_*: include/qlpeps/two_dim_tn/framework/ten_matrix.h :: TenMatrix::DumpTen -- true exactly when the requested element was completely written to the requested file; memory is released only after that
//@ load_*: include/qlpeps/two_dim_tn/framework/ten_matrix.h :: TenMatrix::LoadTen -- true exactly when the element was read from the requested file into the requested cell
struct Path { std::qlv_string s; explicit Path(long i) : s(i) {} };
template <unsigned P, size_t I, size_t J, int K> static inline void Dump(long v, long f, bool o, bool w, bool y, bool rel) {
  ASSUME(f != 0);
  Start(); StartFiles(o, w, y, true, 0);
  {
    M m(2, 2); Fill<P>(m, v);
    const std::qlv_string file(f);
    constexpr unsigned b = 1u << (I * 2 + J);
    const M &c = m;
    const bool ok = K == 0 ? c.DumpTen(I, J, file) : K == 1 ? m.DumpTen(I, J, file, rel) : m.DumpTen(I, J, file);
    const bool released = K == 1 && rel && o && w && y;
    REQF(dump, result, ok == (o && w && y));
    REQF(dump, file, fe.opened == f && fe.n_open == 1);
    REQF(dump, mode, (fe.mode & std::qlv_ios::binary) && (fe.mode & std::qlv_ios::out) && !(fe.mode & std::qlv_ios::app));
    REQF(dump, content, !ok || (fe.n_write == 1 && fe.written == v + (long)(I * 2 + J) && fe.synced));
    if (released) { REQF(dump, released, m(I, J) == nullptr && Live() == __builtin_popcount(P & ~b)); }
    else { REQF(dump, kept, (Holds<P>(m, 2, 2, v))); }
  }
  DONE(dump);
}
OB(dump_const, long v, long f, bool o, bool w, bool y) { Dump<15, 1, 0, 0>(v, f, o, w, y, false); }
OB(dump_const2, long v, long f, bool o, bool w, bool y) { Dump<9, 1, 1, 0>(v, f, o, w, y, false); }
OB(dump_rel0, long v, long f, bool w, bool y) { Dump<15, 0, 1, 1>(v, f, false, w, y, true); }
OB(dump_rel1, long v, long f, bool y) { Dump<15, 0, 1, 1>(v, f, true, false, y, true); }
OB(dump_rel2, long v, long f) { Dump<15, 0, 1, 1>(v, f, true, true, false, true); }
OB(dump_rel3, long v, long f) { Dump<15, 0, 1, 1>(v, f, true, true, true, true); }
OB(dump_rel4, long v, long f) { Dump<6, 1, 0, 1>(v, f, true, true, true, true); }
OB(dump_norel, long v, long f, bool o, bool w, bool y) { Dump<15, 1, 1, 1>(v, f, o, w, y, false); }
OB(dump_default, long v, long f, bool o, bool w, bool y) { Dump<15, 1, 0, 2>(v, f, o, w, y, false); }
template <unsigned P, size_t I, size_t J> static inline void Load(long v, long f, long x, bool o, bool r) {
  ASSUME(f != 0);
  Start(); StartFiles(o, true, true, r, x);
  {
    M m(2, 2); Fill<P>(m, v);
    const std::qlv_string file(f);
    constexpr unsigned b = 1u << (I * 2 + J);
    const bool ok = m.LoadTen(I, J, file);
    REQF(load, result, ok == (o && r));
    REQF(load, file, fe.opened == f && fe.n_open == 1);
    REQF(load, mode, (fe.mode & std::qlv_ios::binary) && (fe.mode & std::qlv_ios::in));
    if (ok) { REQF(load, value, m(I, J) != nullptr && m(I, J)->v == x && fe.n_read == 1 && Live() == __builtin_popcount(P | b)); }
    unsigned k = 0;
    for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j, ++k)
      if (i != I || j != J) REQF(load, others, (P >> k & 1) ? (m(i, j) != nullptr && m(i, j)->v == v + k) : m(i, j) == nullptr);
  }
  DONE(load);
}
OB(load_new, long v, long f, long x, bool o, bool r) { Load<0, 1, 0>(v, f, x, o, r); }
OB(load_over, long v, long f, long x, bool o, bool r) { Load<15, 0, 1>(v, f, x, o, r); }
OB(load_part, long v, long f, long x, bool o, bool r) { Load<6, 1, 1>(v, f, x, o, r); }
