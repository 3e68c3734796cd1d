// every shape: std::vector itself, the matrix in an arbitrary state
#include "qlv.h"
#include <cassert>
#include <fstream>
#include <string>
#include "qlpeps/two_dim_tn/framework/duomatrix.h"
#include "qlpeps/two_dim_tn/framework/ten_matrix.h"
using namespace qlpeps;
using namespace qlv;
struct Elem { long v; bool operator!=(const Elem &o) const { return v != o.v; } };
typedef DuoMatrix<Elem> M;
//@ g_any: include/qlpeps/two_dim_tn/framework/duomatrix.h :: DuoMatrix -- size and length agree with rows and cols for every shape
//@ i_law*: include/qlpeps/two_dim_tn/framework/duomatrix.h :: DuoMatrix::Iterator/ConstIterator::operator++ -- row-major successor for every shape and position
OB(g_any, const M *m) { REQ(g_any, m->size() == m->rows() * m->cols()); REQ(g_any, m->length(HORIZONTAL) == m->cols()); REQ(g_any, m->length(VERTICAL) == m->rows()); }
// the increment law for every shape and position (when the iterator can be built at a position);
// INSIDE states c + 1 < n in each of its equivalent forms (given c < n none of them wraps)
#define INSIDE(c, n) ASSUME((c) < (n)); ASSUME((c) + 1 < (n)); ASSUME((c) < (n) - 1); ASSUME((c) + 1 != (n)); ASSUME((c) != (n) - 1); ASSUME((n) != 0); ASSUME((n) > 1)
#define LAST(c, n) ASSUME((n) != 0); ASSUME((n) > 0); ASSUME((c) == (n) - 1); ASSUME((c) + 1 == (n)); ASSUME((c) < (n))
template <class It, class Mat> static inline void Law(Mat *m, size_t r, size_t c, int k) {
  if constexpr (std::is_constructible_v<It, Mat &, size_t, size_t>) {
    It it(*m, r, c), old(*m, r, c);
    if (k == 0) { INSIDE(c, m->cols()); ASSUME(r < m->rows()); ++it; REQF(i_law, same_row, it == It(*m, r, c + 1)); }
    if (k == 1) { LAST(c, m->cols()); INSIDE(r, m->rows()); ++it; REQF(i_law, next_row, it == It(*m, r + 1, 0)); }
    if (k == 2) { LAST(c, m->cols()); LAST(r, m->rows()); ++it; REQF(i_law, end, it == m->end()); }
    if (k == 3) { ASSUME(r < m->rows() && c < m->cols()); It res = it++; REQF(i_law, post, res == old); ++old; REQF(i_law, post_same, it == old); }
    if (k == 4) { REQF(i_law, ne, (it != old) == !(it == old)); }
  }
}
OB(i_law_0, M *m, size_t r, size_t c) { Law<typename M::Iterator>(m, r, c, 0); }
OB(i_law_1, M *m, size_t r, size_t c) { Law<typename M::Iterator>(m, r, c, 1); }
OB(i_law_2, M *m, size_t r, size_t c) { Law<typename M::Iterator>(m, r, c, 2); }
OB(i_law_3, M *m, size_t r, size_t c) { Law<typename M::Iterator>(m, r, c, 3); }
OB(i_law_4, M *m, size_t r, size_t c) { Law<typename M::Iterator>(m, r, c, 4); }
OB(i_law_c0, const M *m, size_t r, size_t c) { Law<typename M::ConstIterator>(m, r, c, 0); }
OB(i_law_c1, const M *m, size_t r, size_t c) { Law<typename M::ConstIterator>(m, r, c, 1); }
OB(i_law_c2, const M *m, size_t r, size_t c) { Law<typename M::ConstIterator>(m, r, c, 2); }
OB(i_law_c3, const M *m, size_t r, size_t c) { Law<typename M::ConstIterator>(m, r, c, 3); }
OB(i_law_c4, const M *m, size_t r, size_t c) { Law<typename M::ConstIterator>(m, r, c, 4); }
