#include "qlv.h"
#include <utility>
#include "qlpeps/utility/observable_matrix.h"
using namespace qlpeps;
using namespace qlv;
typedef ObservableMatrix<long> M;
//@ om_ctor: include/qlpeps/utility/observable_matrix.h :: ObservableMatrix -- rows x cols cells
template <size_t R, size_t C> static inline void Shape(long v) {
  M m(R, C, v);
  REQ(om_ctor, m.rows() == R && m.cols() == C);
  REQ(om_ctor, m.size() == R * C);
  REQ(om_ctor, m.Flatten().size() == R * C);
}
OB(om_ctor, long v) { Shape<0, 0>(v); Shape<1, 1>(v); Shape<1, 2>(v); Shape<2, 1>(v); Shape<2, 3>(v); Shape<3, 2>(v); }
//@ om_empty: include/qlpeps/utility/observable_matrix.h :: ObservableMatrix -- a default constructed matrix has no cells
OB(om_empty) {
  M m;
  REQ(om_empty, m.rows() == 0 && m.cols() == 0);
  REQ(om_empty, m.size() == 0);
}
//@ om_init22: include/qlpeps/utility/observable_matrix.h :: ObservableMatrix -- every cell starts with the initial value
OB(om_init22, long v) {
  M m(2, 3, v);
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) { REQ(om_init22, m.Flatten()[i * 3 + j] == v); }
}
//@ om_rowmajor_w: include/qlpeps/utility/observable_matrix.h :: operator()(row,col) -- a write lands in the row-major cell
OBX(om_rowmajor_w, M &m, size_t i, size_t j) {
  ASSUME(i < m.rows() && j < m.cols());
  REQ(om_rowmajor_w, &m(i, j) == &m.Flatten()[i * m.cols() + j]);
}
//@ om_rowmajor_r: include/qlpeps/utility/observable_matrix.h :: operator()(row,col) const -- a read comes from the row-major cell
OBX(om_rowmajor_r, const M &m, size_t i, size_t j) {
  ASSUME(i < m.rows() && j < m.cols());
  REQ(om_rowmajor_r, &m(i, j) == &m.Flatten()[i * m.cols() + j]);
}
//@ om_site: include/qlpeps/utility/observable_matrix.h :: operator()(SiteIdx) -- the same cell as (row, col)
OBX(om_site, M &m, size_t i, size_t j) {
  ASSUME(i < m.rows() && j < m.cols());
  SiteIdx s{i, j};
  REQ(om_site, &m(s) == &m(i, j));
}
//@ om_site_c: include/qlpeps/utility/observable_matrix.h :: operator()(SiteIdx) const -- the same cell as (row, col)
OBX(om_site_c, const M &m, size_t i, size_t j) {
  ASSUME(i < m.rows() && j < m.cols());
  SiteIdx s{i, j};
  REQ(om_site_c, &m(s) == &m(i, j));
}
//@ om_inside: include/qlpeps/utility/observable_matrix.h :: ObservableMatrix -- an access inside the matrix never throws
template <size_t R, size_t C> static inline void Inside(size_t i, size_t j, long v) {
  if (i >= R || j >= C) return;
  M m(R, C, v);
  const M &k = m;
  REQ(om_inside, &m(i, j) == &k(i, j));
  REQ(om_inside, &m(SiteIdx{i, j}) == &k(SiteIdx{i, j}));
}
OB(om_inside, size_t i, size_t j, long v) { Inside<1, 1>(i, j, v); Inside<1, 2>(i, j, v); Inside<3, 1>(i, j, v); Inside<2, 3>(i, j, v); Inside<3, 2>(i, j, v); }
// out of range: the access must not return
//@ om_oob_row: include/qlpeps/utility/observable_matrix.h :: operator() -- row out of range never returns a reference
OBX(om_oob_row, M &m, size_t i, size_t j) { m(i, j); REQ(om_oob_row, !(i >= m.rows())); }
//@ om_oob_col: include/qlpeps/utility/observable_matrix.h :: operator() -- column out of range never returns a reference, even if row*cols+col is inside the storage
OBX(om_oob_col, M &m, size_t i, size_t j) { m(i, j); REQ(om_oob_col, !(j >= m.cols())); }
//@ om_oob_row_c: include/qlpeps/utility/observable_matrix.h :: operator() const
OBX(om_oob_row_c, const M &m, size_t i, size_t j) { m(i, j); REQ(om_oob_row_c, !(i >= m.rows())); }
//@ om_oob_col_c: include/qlpeps/utility/observable_matrix.h :: operator() const
OBX(om_oob_col_c, const M &m, size_t i, size_t j) { m(i, j); REQ(om_oob_col_c, !(j >= m.cols())); }
//@ om_oob_add: include/qlpeps/utility/observable_matrix.h :: Add -- out of range accumulation never succeeds
OBX(om_oob_add, M &m, size_t i, size_t j, long d) { const size_t r = m.rows(), c = m.cols(); m.Add(i, j, d); REQ(om_oob_add, i < r && j < c); }
//@ om_oob_site: include/qlpeps/utility/observable_matrix.h :: operator()(SiteIdx)
OBX(om_oob_site, M &m, size_t i, size_t j) { m(SiteIdx{i, j}); REQ(om_oob_site, !(i >= m.rows() || j >= m.cols())); }
//@ om_oob_site_c: include/qlpeps/utility/observable_matrix.h :: operator()(SiteIdx) const
OBX(om_oob_site_c, const M &m, size_t i, size_t j) { m(SiteIdx{i, j}); REQ(om_oob_site_c, !(i >= m.rows() || j >= m.cols())); }
//@ om_oob_add_site: include/qlpeps/utility/observable_matrix.h :: Add(SiteIdx)
OBX(om_oob_add_site, M &m, size_t i, size_t j, long d) { const size_t r = m.rows(), c = m.cols(); m.Add(SiteIdx{i, j}, d); REQ(om_oob_add_site, i < r && j < c); }
// a matrix whose data was extracted still rejects every access
//@ om_extract: include/qlpeps/utility/observable_matrix.h :: Extract -- hands out the whole storage; later accesses throw instead of touching freed cells
OBX(om_extract, size_t i, size_t j, long v) {
  M m(2, 3, v);
  auto d = m.Extract();
  REQ(om_extract, d.size() == 6);
  long *p = &m(i, j);
  REQN(om_extract, p != p);
}
static inline void Fill(M &m, long v) {
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) m(i, j) = v + static_cast<long>(i * 3 + j);
}
//@ om_extract_vals: include/qlpeps/utility/observable_matrix.h :: Extract -- returns the cells in row-major order
OB(om_extract_vals, long v) {
  M m(2, 3);
  Fill(m, v);
  auto d = m.Extract();
  for (size_t k = 0; k < 6; ++k) { REQ(om_extract_vals, d[k] == v + static_cast<long>(k)); }
}
//@ om_add: include/qlpeps/utility/observable_matrix.h :: Add -- adds to exactly the addressed cell
OB(om_add, long v, long d) {
  M m(2, 3);
  Fill(m, v);
  m.Add(1, 0, d);
  for (size_t k = 0; k < 6; ++k) { REQ(om_add, m.Flatten()[k] == v + static_cast<long>(k) + (k == 3 ? d : 0)); }
}
//@ om_add_site: include/qlpeps/utility/observable_matrix.h :: Add(SiteIdx) -- adds to exactly the addressed cell
OB(om_add_site, long v, long d) {
  M m(2, 3);
  Fill(m, v);
  m.Add(SiteIdx{0, 2}, d);
  for (size_t k = 0; k < 6; ++k) { REQ(om_add_site, m.Flatten()[k] == v + static_cast<long>(k) + (k == 2 ? d : 0)); }
}
//@ om_resize: include/qlpeps/utility/observable_matrix.h :: Resize -- new geometry, every cell reset to the initial value
OB(om_resize, long v, long w) {
  M m(3, 2, v);
  m.Resize(2, 3, w);
  REQ(om_resize, m.rows() == 2 && m.cols() == 3);
  REQ(om_resize, m.size() == 6);
  for (size_t k = 0; k < 6; ++k) { REQ(om_resize, m.Flatten()[k] == w); }
}
//@ om_resize_grow: include/qlpeps/utility/observable_matrix.h :: Resize -- growing resets the old cells too
OB(om_resize_grow, long v, long w) {
  M m(1, 2, v);
  m.Resize(2, 2, w);
  REQ(om_resize_grow, m.rows() == 2 && m.cols() == 2);
  REQ(om_resize_grow, m.size() == 4);
  for (size_t k = 0; k < 4; ++k) { REQ(om_resize_grow, m.Flatten()[k] == w); }
}
//@ om_resize_shrink: include/qlpeps/utility/observable_matrix.h :: Resize -- shrinking drops the surplus cells
OB(om_resize_shrink, long v, long w) {
  M m(2, 2, v);
  m.Resize(1, 2, w);
  REQ(om_resize_shrink, m.rows() == 1 && m.cols() == 2);
  REQ(om_resize_shrink, m.size() == 2);
  for (size_t k = 0; k < 2; ++k) { REQ(om_resize_shrink, m.Flatten()[k] == w); }
}
