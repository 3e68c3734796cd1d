//@@ peel
#define SLOTS 8
#define QLV_VCAP 2
#include "duomatrix_common.h"
//@ d_*: include/qlpeps/two_dim_tn/framework/duomatrix.h :: DuoMatrix -- ownership: each element belongs to exactly one matrix and is released exactly once
template <size_t R, size_t C, unsigned P> static inline void Dtor(long v) { Start(); { M m(R, C); Fill<P>(m, v); REQ(d_dtor, (Holds<P>(m, R, C, v))); } DONE(d_dtor); }
OB(d_dtor_0, long v) { Dtor<1, 1, 1>(v); }
OB(d_dtor_1, long v) { Dtor<1, 2, 2>(v); }
OB(d_dtor_2, long v) { Dtor<2, 2, 15>(v); }
OB(d_dtor_3, long v) { Dtor<2, 2, 6>(v); }
template <size_t R, size_t C, unsigned P> static inline void Copy(long v, long w) {
  Start();
  { M m(R, C); Fill<P>(m, v); { M n(m); REQ(d_copy, (Holds<P>(n, R, C, v))); REQ(d_copy, (Holds<P>(m, R, C, v))); REQ(d_copy, Disjoint(m, n)); if (P & 1) { n(0, 0)->v = w; } } REQ(d_copy, (Holds<P>(m, R, C, v))); }
  DONE(d_copy);
}
OB(d_copy_0, long v, long w) { Copy<0, 0, 0>(v, w); }
OB(d_copy_1, long v, long w) { Copy<1, 1, 1>(v, w); }
OB(d_copy_2, long v, long w) { Copy<1, 2, 2>(v, w); }
OB(d_copy_3, long v, long w) { Copy<2, 1, 3>(v, w); }
OB(d_copy_4, long v, long w) { Copy<2, 2, 15>(v, w); }
OB(d_copy_5, long v, long w) { Copy<2, 2, 9>(v, w); }
template <size_t R, size_t C, unsigned P, size_t S, size_t D, unsigned Q> static inline void Asg(long v, long w) {
  Start();
  { M m(R, C); Fill<P>(m, v); M n(S, D); Fill<Q>(n, w); M &r = (n = m); REQ(d_assign, &r == &n); REQ(d_assign, (Holds<P>(n, R, C, v))); REQ(d_assign, (Holds<P>(m, R, C, v))); REQ(d_assign, Disjoint(m, n)); REQF(d_assign, old_released, Live() == 2 * __builtin_popcount(P)); }
  DONE(d_assign);
}
OB(d_assign_0, long v, long w) { Asg<1, 1, 1, 1, 1, 1>(v, w); }
OB(d_assign_1, long v, long w) { Asg<2, 1, 2, 1, 2, 3>(v, w); }
OB(d_assign_2, long v, long w) { Asg<2, 2, 15, 2, 2, 0>(v, w); }
OB(d_assign_7, long v, long w) { Asg<2, 2, 6, 2, 2, 13>(v, w); }
OB(d_assign_3, long v, long w) { Asg<2, 2, 9, 1, 1, 1>(v, w); }
OB(d_assign_4, long v, long w) { Asg<1, 2, 1, 2, 2, 14>(v, w); }
OB(d_assign_5, long v, long w) { Asg<0, 0, 0, 2, 1, 3>(v, w); }
OB(d_assign_6, long v, long w) { Asg<2, 1, 3, 0, 0, 0>(v, w); }
template <size_t R, size_t C, unsigned P> static inline void Move(long v) {
  Start();
  { M m(R, C); Fill<P>(m, v); M n(std::move(m)); REQ(d_move, (Holds<P>(n, R, C, v))); REQ(d_move, m.empty()); REQF(d_move, no_clone, Live() == __builtin_popcount(P)); }
  DONE(d_move);
}
OB(d_move_0, long v) { Move<0, 0, 0>(v); }
OB(d_move_1, long v) { Move<1, 1, 1>(v); }
OB(d_move_2, long v) { Move<2, 1, 2>(v); }
OB(d_move_3, long v) { Move<2, 2, 15>(v); }
template <size_t R, size_t C, unsigned P, size_t S, size_t D, unsigned Q> static inline void MAsg(long v, long w) {
  Start();
  { M m(R, C); Fill<P>(m, v); M n(S, D); Fill<Q>(n, w); M &r = (n = std::move(m)); REQ(d_massign, &r == &n); REQ(d_massign, (Holds<P>(n, R, C, v))); REQ(d_massign, Disjoint(m, n)); REQF(d_massign, no_extra, Live() >= __builtin_popcount(P)); }
  DONE(d_massign);
}
OB(d_massign_0, long v, long w) { MAsg<1, 1, 1, 1, 1, 1>(v, w); }
OB(d_massign_1, long v, long w) { MAsg<2, 1, 2, 1, 2, 3>(v, w); }
OB(d_massign_2, long v, long w) { MAsg<2, 2, 15, 2, 2, 15>(v, w); }
OB(d_massign_3, long v, long w) { MAsg<1, 2, 1, 2, 2, 14>(v, w); }
OB(d_massign_4, long v, long w) { MAsg<0, 0, 0, 2, 1, 3>(v, w); }
OB(d_massign_5, long v, long w) { MAsg<2, 1, 3, 0, 0, 0>(v, w); }
template <size_t R, size_t C, unsigned P> static inline void Self(long v) {
  Start();
  { M m(R, C); Fill<P>(m, v); M &r = m; m = r; REQ(d_self, (Holds<P>(m, R, C, v))); REQF(d_self, live, Live() == __builtin_popcount(P)); m = std::move(r); REQF(d_self, move, (Holds<P>(m, R, C, v))); }
  DONE(d_self);
}
OB(d_self_0, long v) { Self<1, 1, 1>(v); }
OB(d_self_1, long v) { Self<2, 2, 15>(v); }
OB(d_self_2, long v) { Self<1, 2, 2>(v); }
// alloc / dealloc / clear / lazy creation
template <size_t R, size_t C, unsigned P, size_t I, size_t J> static inline void Alloc(long v) {
  Start();
  {
    M m(R, C); Fill<P>(m, v);
    constexpr bool had = P >> (I * C + J) & 1;
    REQ(d_alloc, m.has_alloc(I, J) == had);
    m.alloc(I, J);
    REQ(d_alloc, m(I, J) != nullptr && m(I, J)->v == 0);
    REQ(d_alloc, m.has_alloc(I, J));
    REQ(d_alloc, Live() == __builtin_popcount(P | 1u << (I * C + J)));
    m.dealloc(I, J);
    REQ(d_alloc, m(I, J) == nullptr);
    REQ(d_alloc, Live() == __builtin_popcount(P & ~(1u << (I * C + J))));
    m.dealloc(I, J);
    REQ(d_alloc, (Holds<(P & ~(1u << (I * C + J)))>(m, R, C, v)));
  }
  DONE(d_alloc);
}
OB(d_alloc_0, long v) { Alloc<1, 1, 1, 0, 0>(v); }
OB(d_alloc_1, long v) { Alloc<2, 2, 15, 1, 0>(v); }
OB(d_alloc_2, long v) { Alloc<2, 2, 9, 0, 1>(v); }
OB(d_alloc_3, long v) { Alloc<1, 2, 1, 0, 1>(v); }
template <size_t R, size_t C, unsigned P> static inline void Clear(long v) {
  Start();
  { M m(R, C); Fill<P>(m, v); REQ(d_clear, m.empty() == (P == 0)); m.clear(); REQ(d_clear, (Holds<0>(m, R, C, v))); REQ(d_clear, Live() == 0); REQ(d_clear, m.empty()); REQ(d_clear, m.rows() == R && m.cols() == C); }
  DONE(d_clear);
}
OB(d_clear_0, long v) { Clear<0, 0, 0>(v); }
OB(d_clear_1, long v) { Clear<1, 1, 1>(v); }
OB(d_clear_2, long v) { Clear<2, 2, 8>(v); }
OB(d_clear_3, long v) { Clear<2, 2, 15>(v); }
template <size_t R, size_t C, unsigned P, size_t I, size_t J> static inline void Lazy(long v, long w) {
  Start();
  {
    M m(R, C); Fill<P>(m, v);
    constexpr unsigned b = 1u << (I * C + J);
    Elem &e = m({I, J});
    REQ(d_lazy, &e == m(I, J));
    REQ(d_lazy, e.v == (P & b ? v + (long)(I * C + J) : 0));
    REQ(d_lazy, Live() == __builtin_popcount(P | b));
    e.v = w;
    const M &c = m;
    REQ(d_lazy, c({I, J}).v == w && &c({I, J}) == c(I, J));
  }
  DONE(d_lazy);
}
OB(d_lazy_0, long v, long w) { Lazy<1, 1, 0, 0, 0>(v, w); }
OB(d_lazy_1, long v, long w) { Lazy<1, 1, 1, 0, 0>(v, w); }
OB(d_lazy_2, long v, long w) { Lazy<2, 2, 9, 0, 1>(v, w); }
OB(d_lazy_3, long v, long w) { Lazy<2, 2, 15, 1, 1>(v, w); }
// read-only access never allocates
template <size_t R, size_t C, unsigned P> static inline void Ro(long v) {
  Start();
  { M m(R, C); Fill<P>(m, v); const M &c = m; auto d = c.cdata(); c.empty(); c.size(); c.get_row(0); c.get_col(0); c.get_slice(0, VERTICAL); bool e = (c == c); (void)e; REQ(d_ro, (Holds<P>(m, R, C, v))); REQ(d_ro, Live() == __builtin_popcount(P)); }
  DONE(d_ro);
}
OB(d_ro_0, long v) { Ro<1, 1, 0>(v); }
OB(d_ro_1, long v) { Ro<2, 2, 6>(v); }
OB(d_ro_2, long v) { Ro<2, 2, 15>(v); }
