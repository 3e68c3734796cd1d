//@@ peel
#define SLOTS 8
#ifndef QLV_VCAP
#define QLV_VCAP 3
#endif
#include "duomatrix_common.h"
//@ g_*: include/qlpeps/two_dim_tn/framework/duomatrix.h :: DuoMatrix -- geometry: every view of the matrix addresses the same row-major grid
//@ i_*: include/qlpeps/two_dim_tn/framework/duomatrix.h :: DuoMatrix iterators -- iteration visits every cell exactly once in row-major order and terminates
//@ q_*: include/qlpeps/two_dim_tn/framework/duomatrix.h :: DuoMatrix::operator== -- equal iff same shape and all cells present and equal
// shape, pointer views and slices, elements owned by the obligation (released from the matrix before it dies)
template <size_t R, size_t C> static inline void Views() {
  Start();
  M m(R, C);
  Elem e[R * C + 1];
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) m(i, j) = &e[i * C + j];
  const M &c = m;
  REQF(g_views, rows, m.rows() == R);
  REQF(g_views, cols, m.cols() == (R ? C : 0));
  REQF(g_views, size, m.size() == R * C);
  REQF(g_views, length, m.length(HORIZONTAL) == m.cols() && m.length(VERTICAL) == m.rows());
  const auto &d = c.cdata();
  REQF(g_views, cdata_rows, d.size() == R);
  for (size_t i = 0; i < R; ++i) {
    const auto &row = c.get_row(i);
    const auto sl = c.get_slice(i, HORIZONTAL);
    REQF(g_views, row_len, row.size() == C && sl.size() == C && d[i].size() == C);
    for (size_t j = 0; j < C; ++j) {
      REQF(g_views, row, row[j] == &e[i * C + j]);
      REQF(g_views, slice_h, sl[j] == &e[i * C + j]);
      REQF(g_views, cdata, d[i][j] == &e[i * C + j]);
      REQF(g_views, pointer, m(i, j) == &e[i * C + j] && c(i, j) == &e[i * C + j]);
      REQF(g_views, reference, &m({i, j}) == &e[i * C + j] && &c({i, j}) == &e[i * C + j]);
    }
  }
  for (size_t j = 0; R && j < C; ++j) {
    const auto col = c.get_col(j);
    const auto sl = c.get_slice(j, VERTICAL);
    REQF(g_views, col_len, col.size() == R && sl.size() == R);
    for (size_t i = 0; i < R; ++i) {
      REQF(g_views, col, col[i] == &e[i * C + j]);
      REQF(g_views, slice_v, sl[i] == &e[i * C + j]);
    }
  }
  REQF(g_views, untouched, Live() == 0);
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) m(i, j) = nullptr;
}
OB(g_views_00) { Views<0, 0>(); }
OB(g_views_03) { Views<0, 3>(); }
OB(g_views_11) { Views<1, 1>(); }
OB(g_views_13) { Views<1, 3>(); }
OB(g_views_31) { Views<3, 1>(); }
OB(g_views_23) { Views<2, 3>(); }
OB(g_views_32) { Views<3, 2>(); }
OB(g_views_22) { Views<2, 2>(); }
OB(g_empty_rows) { M m(2, 0); REQ(g_empty_rows, m.rows() == 2 && m.cols() == 0 && m.size() == 0 && m.empty()); }
OB(g_default) { M m; REQ(g_default, m.rows() == 0 && m.cols() == 0 && m.size() == 0 && m.empty()); }
// any matrix, any shape
OB(g_any, const M *m) { REQ(g_any, m->size() == m->rows() * m->cols()); REQ(g_any, m->length(HORIZONTAL) == m->cols()); REQ(g_any, m->length(VERTICAL) == m->rows()); }
// iteration
template <class Mat, size_t R, size_t C> static inline void Iter(long v) {
  Start();
  M m0(R, C);
  Elem e[R * C + 1];
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) m0(i, j) = &e[i * C + j];
  Mat &m = m0;
  {
    size_t k = 0;
    auto it = m.begin();
    auto en = m.end();
    for (size_t s = 0; s < R * C; ++s) {
      REQF(i_pre, not_end, it != en && !(it == en));
      REQF(i_pre, elem, &*it == &e[k]);
      ++k;
      auto &r = ++it;
      REQF(i_pre, self, &r == &it);
    }
    REQF(i_pre, end, it == en && !(it != en));
  }
  {
    auto it = m.begin();
    for (size_t k = 0; k < R * C; ++k) {
      auto old = it++;
      REQF(i_post, old, &*old == &e[k]);
    }
    REQF(i_post, end, it == m.end());
  }
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) m0(i, j) = nullptr;
}
OB(i_pre_00, long v) { Iter<M, 0, 0>(v); }
OB(i_pre_11, long v) { Iter<M, 1, 1>(v); }
OB(i_pre_13, long v) { Iter<M, 1, 3>(v); }
OB(i_pre_31, long v) { Iter<M, 3, 1>(v); }
OB(i_pre_23, long v) { Iter<M, 2, 3>(v); }
OB(i_pre_32, long v) { Iter<M, 3, 2>(v); }
OB(i_pre_22, long v) { Iter<M, 2, 2>(v); }
OB(i_pre_c00, long v) { Iter<const M, 0, 0>(v); }
OB(i_pre_c11, long v) { Iter<const M, 1, 1>(v); }
OB(i_pre_c13, long v) { Iter<const M, 1, 3>(v); }
OB(i_pre_c31, long v) { Iter<const M, 3, 1>(v); }
OB(i_pre_c23, long v) { Iter<const M, 2, 3>(v); }
OB(i_pre_c32, long v) { Iter<const M, 3, 2>(v); }
OB(i_none_0) { M m(2, 0); REQ(i_none, m.begin() == m.end()); REQ(i_none, m.cbegin() == m.cend()); const M &c = m; REQ(i_none, c.begin() == c.end()); }
OB(i_none_1) { M m; REQ(i_none, m.begin() == m.end()); REQ(i_none, m.cbegin() == m.cend()); const M &c = m; REQ(i_none, c.begin() == c.end()); }
OB(i_none_2) { M m(0, 2); REQ(i_none, m.begin() == m.end()); REQ(i_none, m.cbegin() == m.cend()); const M &c = m; REQ(i_none, c.begin() == c.end()); }
// the c-prefixed and the const-overload iterators agree
OB(i_cbegin) {
  M m(2, 2); const M &c = m;
  auto a = c.begin(); auto b = c.cbegin(); decltype(a) z = c.end(); 
  for (int k = 0; k < 4; ++k) { REQ(i_cbegin, a == b && b != z); ++a; b++; }
  REQ(i_cbegin, a == z && b == z && z == c.cend());
}
// iterators into different matrices never compare equal
OB(i_other) { M a(1, 1), b(1, 1); REQ(i_other, a.begin() != b.begin() && !(a.begin() == b.begin()) && a.cbegin() != b.cbegin()); }
// writing through an iterator writes the cell; a missing cell is created
OB(i_write, long v) {
  Start();
  { M m(1, 2); long k = 0; auto it = m.begin(); (*it).v = v; ++it; (*it).v = v + 1; REQ(i_write, (Holds<3>(m, 1, 2, v))); }
  DONE(i_write);
}
// equality
template <size_t R, size_t C, unsigned P, size_t S, size_t D, unsigned Q> static inline void Eq(long v, long w) {
  M a(R, C), b(S, D);
  Elem x[R * C + 1], y[S * D + 1];
  for (size_t k = 0; k < R * C; ++k) { x[k].v = v + (long)k; if (P >> k & 1) a(k / C, k % C) = &x[k]; }
  for (size_t k = 0; k < S * D; ++k) { y[k].v = w + (long)k; if (Q >> k & 1) b(k / D, k % D) = &y[k]; }
  constexpr bool full = R == S && (R == 0 || C == D) && P == (1u << R * C) - 1 && Q == (1u << S * D) - 1;
  const bool want = full && (R * C == 0 || v == w);
  REQ(q_eq, (a == b) == want);
  REQ(q_eq, (b == a) == want);
  for (size_t k = 0; k < R * C; ++k) a(k / C, k % C) = nullptr;
  for (size_t k = 0; k < S * D; ++k) b(k / D, k % D) = nullptr;
}
OB(q_eq_0, long v, long w) { Eq<1, 1, 1, 1, 1, 1>(v, w); }
OB(q_eq_1, long v, long w) { Eq<2, 2, 15, 2, 2, 15>(v, w); }
OB(q_eq_2, long v, long w) { Eq<2, 2, 15, 2, 2, 7>(v, w); }
OB(q_eq_3, long v, long w) { Eq<2, 2, 11, 2, 2, 11>(v, w); }
OB(q_eq_4, long v, long w) { Eq<1, 2, 3, 2, 1, 3>(v, w); }
OB(q_eq_5, long v, long w) { Eq<2, 1, 3, 2, 2, 15>(v, w); }
OB(q_eq_6, long v, long w) { Eq<1, 2, 3, 2, 2, 15>(v, w); }
OB(q_eq_7, long v, long w) { Eq<0, 0, 0, 0, 0, 0>(v, w); }
OB(q_eq_8, long v, long w) { Eq<0, 0, 0, 1, 1, 1>(v, w); }
// a single differing cell
OB(q_diff, long v, long w) {
  M a(1, 2), b(1, 2); Elem x[4]; x[0].v = x[2].v = 7; x[1].v = v; x[3].v = w;
  a(0, 0) = &x[0]; a(0, 1) = &x[1]; b(0, 0) = &x[2]; b(0, 1) = &x[3];
  REQ(q_diff, (a == b) == (v == w));
  a(0, 0) = a(0, 1) = b(0, 0) = b(0, 1) = nullptr;
}
