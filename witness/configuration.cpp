//@@ peel
#ifndef QLV_VCAP
#define QLV_VCAP 6
#endif
#include "configuration_common.h"
//@ occ_*: include/qlpeps/vmc_basic/configuration.h :: Configuration::Random(occupancy) -- exactly the requested number of sites in every state
//@ bad_*: include/qlpeps/vmc_basic/configuration.h :: Configuration::Random(occupancy) -- occupation numbers that do not add up to the number of sites are rejected
//@ dim_*: include/qlpeps/vmc_basic/configuration.h :: Configuration::Random(dim) -- every site an independent draw from 0..dim-1
//@ sum_*: include/qlpeps/vmc_basic/configuration.h :: Configuration::Sum -- sum over all sites
//@ count_*: include/qlpeps/vmc_basic/configuration.h :: Configuration::CountOccupancy -- number of sites in every state up to the largest one
//@ data_*: include/qlpeps/vmc_basic/configuration.h :: Configuration(vector) -- row-major copy of the data
//@ valid_*: include/qlpeps/vmc_basic/configuration.h :: Configuration::IsValid -- whether every site holds a state
template <size_t R, size_t C> static inline size_t Count(const Configuration &c, size_t s) {
  size_t n = 0; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) n += c({i, j}) == s; return n;
}
template <size_t R, size_t C, int K, size_t... O> static inline void Occ(int perm) {
  StartRnd(perm);
  constexpr size_t o[] = {O...}; constexpr size_t n = sizeof...(O);
  VS v; for (size_t i = 0; i < n; ++i) v.push_back(o[i]);
  if constexpr (K == 0) {
    Configuration c(R, C); c.Random(v);
    REQF(occ, valid, c.IsValid() && c.rows() == R && c.cols() == C);
    for (size_t i = 0; i < n; ++i) REQF(occ, count, (Count<R, C>(c, i) == o[i]));
  } else if constexpr (K == 1) {
    Configuration c(R, C, v);
    for (size_t i = 0; i < n; ++i) REQF(occ, count_ctor, (Count<R, C>(c, i) == o[i]));
  } else {
    MS m; for (size_t i = 0; i < n; ++i) m.add(9 * i + 1, o[i]);
    Configuration c(R, C); if (K == 2) c.Random(m); else c = Configuration(R, C, m);
    for (size_t i = 0; i < n; ++i) REQF(occ, count_map, (Count<R, C>(c, 9 * i + 1) == o[i]));
  }
  REQF(occ, random, rnd.draws + 1 >= (int)(R * C) || rnd.shuffled == R * C);
}
#define OC(nm, R, C, K, ...) \
  OB(occ_##nm##_1) { Occ<R, C, K, __VA_ARGS__>(1); } OB(occ_##nm##_2) { Occ<R, C, K, __VA_ARGS__>(2); } OB(occ_##nm##_3) { Occ<R, C, K, __VA_ARGS__>(3); }
OC(a, 2, 2, 0, 2, 2) OC(b, 2, 2, 0, 1, 3) OC(c, 2, 2, 0, 0, 4) OC(d, 2, 2, 0, 1, 2, 1) OC(e, 1, 3, 0, 1, 0, 2) OC(f, 2, 3, 0, 1, 3, 2) OC(g, 3, 2, 0, 2, 3, 1)
OC(h, 2, 2, 1, 3, 1) OC(i, 2, 3, 2, 1, 2, 3) OC(j, 2, 2, 2, 2, 0, 2) OC(k, 1, 2, 3, 1, 1)
OBX(bad_vec, size_t a, size_t b, bool q) { ASSUME(a + b != 4); StartRnd(1); VS v; v.push_back(a); v.push_back(b); Configuration c(2, 2); c.Random(v); REQN(bad_vec, q); }
OBX(bad_vec1, size_t a, bool q) { ASSUME(a != 6); StartRnd(1); VS v; v.push_back(a); Configuration c(2, 3); c.Random(v); REQN(bad_vec1, q); }
OBX(bad_empty, bool q) { StartRnd(1); VS v; Configuration c(1, 2); c.Random(v); REQN(bad_empty, q); }
OBX(bad_map, size_t a, size_t b, bool q) { ASSUME(a + b != 3); StartRnd(1); MS m; m.add(0, a); m.add(2, b); Configuration c(1, 3); c.Random(m); REQN(bad_map, q); }
template <size_t R, size_t C> static inline void Dim() {
  StartRnd(0);
  for (int k = 0; k < 8; ++k) rnd.value[k] = k;
  Configuration c(R, C); c.Random(size_t(7));
  REQF(dim, draws, rnd.draws == (int)(R * C) && rnd.same_interval && rnd.lo == 0 && rnd.hi == 6);
  for (size_t k = 0; k < R * C; ++k) REQF(dim, each_its_own, (Count<R, C>(c, k) == 1));
}
OB(dim_22) { Dim<2, 2>(); }
OB(dim_23) { Dim<2, 3>(); }
OB(dim_ctor, size_t d) { ASSUME(d >= 1); StartRnd(0); for (int k = 0; k < 8; ++k) rnd.value[k] = 0; Configuration c(1, 2, d); REQ(dim_ctor, rnd.draws == 2 && rnd.lo == 0 && rnd.hi == d - 1 && rnd.same_interval && c({0, 0}) == 0 && c({0, 1}) == 0); }
#define A6 size_t a, size_t b, size_t c, size_t d, size_t e, size_t f
#define A6X const size_t x[] = {a, b, c, d, e, f}
OB(sum_23, A6) { A6X; Configuration k(2, 3); Put<2, 3>(k, x); REQ(sum_23, k.Sum() == a + b + c + d + e + f); }
OB(sum_31, A6) { A6X; Configuration k(3, 1); Put<3, 1>(k, x); REQ(sum_31, k.Sum() == a + b + c); }
template <size_t A, size_t B, size_t D> static inline void Cnt() {
  const size_t x[] = {A, B, D}; Configuration k(1, 3); Put<1, 3>(k, x);
  const VS o = k.CountOccupancy();
  constexpr size_t mx = A > B ? (A > D ? A : D) : (B > D ? B : D);
  REQF(count, size, o.size() == mx + 1);
  for (size_t s = 0; s <= mx; ++s) REQF(count, number, o[s] == size_t(A == s) + size_t(B == s) + size_t(D == s));
}
template <size_t A> static inline void Cnt9() { Cnt<A, 0, 0>(); Cnt<A, 0, 1>(); Cnt<A, 0, 2>(); Cnt<A, 1, 0>(); Cnt<A, 1, 1>(); Cnt<A, 1, 2>(); Cnt<A, 2, 0>(); Cnt<A, 2, 1>(); Cnt<A, 2, 2>(); }
OB(count_a) { Cnt9<0>(); }
OB(count_b) { Cnt9<1>(); }
OB(count_c) { Cnt9<2>(); }
OB(count_d) { Cnt9<4>(); }
OB(count_none) { Configuration k(0, 0); REQ(count_none, k.CountOccupancy().empty()); }
template <size_t R, size_t C> static inline void Data(const size_t *x) {
  std::qlv_vector<VS> d; for (size_t i = 0; i < R; ++i) { VS r; for (size_t j = 0; j < C; ++j) r.push_back(x[i * C + j]); d.push_back(r); }
  const Configuration k(d);
  REQF(data, shape, k.rows() == R && k.cols() == C);
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) REQF(data, value, k({i, j}) == x[i * C + j]);
}
OB(data_23, A6) { A6X; Data<2, 3>(x); }
OB(data_32, A6) { A6X; Data<3, 2>(x); }
OBX(data_ragged, size_t a, size_t b, size_t c, bool q) { std::qlv_vector<VS> d; VS r; r.push_back(a); r.push_back(b); VS s; s.push_back(c); d.push_back(r); d.push_back(s); Configuration k(d); REQN(data_ragged, q); }
template <size_t I> static inline void Part(size_t a) {
  Configuration k(2, 2); REQF(valid, none, !k.IsValid());
  for (size_t j = 0; j < 4; ++j) if (j != I) k({j / 2, j % 2}) = a;
  REQF(valid, one_missing, !k.IsValid()); k({I / 2, I % 2}) = a; REQF(valid, full, k.IsValid());
}
OB(valid_0, size_t a) { Part<0>(a); }
OB(valid_1, size_t a) { Part<1>(a); }
OB(valid_2, size_t a) { Part<2>(a); }
OB(valid_3, size_t a) { Part<3>(a); }
OB(data_none) { std::qlv_vector<VS> d; const Configuration k(d); REQ(data_none, k.rows() == 0 && k.size() == 0); }
