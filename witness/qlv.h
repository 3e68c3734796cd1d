// Witness macros.
//
// An obligation is a function `qlv_ob__<name>` whose every violating path calls a declared but
// never-defined function `qlv_fail__<name>__<line>__<label>__E`.  The deciding step compiles the translation
// unit (the repository's current headers included) and inspects the compiler's optimised
// intermediate code: the obligation is discharged when the compiler's own dataflow analyses
// (inlining, value numbering, constant and range propagation, memory forwarding, dead code
// elimination) have removed every violating call, i.e. no violating path exists for any value of
// the parameters.  Nothing is executed and no solver is involved.
#ifndef QLV_H
#define QLV_H
#include <cstddef>
#include <cstring>
#include <new>
#include <utility>

#define QLV_CAT2(a, b) a##b
#define QLV_CAT(a, b) QLV_CAT2(a, b)
#define QLV_STR2(x) #x
#define QLV_STR(x) QLV_STR2(x)

// OB(name, params...) { body }   -- an obligation, universally quantified over its parameters, which must
//                                   also complete normally (no throw, no abort) on every path
// OBX(name, params...) { body }  -- as OB, but the body may legitimately end in an exception
#define OB(name, ...) extern "C" __attribute__((used)) void qlv_ob__##name(__VA_ARGS__)
#define OBX(name, ...)                                              \
  extern "C" __attribute__((used)) void qlv_obx__##name() {}        \
  extern "C" __attribute__((used)) void qlv_ob__##name(__VA_ARGS__)

// OBC(name, params...) { body }  -- as OB, exceptions may be thrown inside but every one must be caught there
#define OBC(name, ...)                                              \
  extern "C" __attribute__((used)) void qlv_obc__##name() {}        \
  extern "C" __attribute__((used)) void qlv_ob__##name(__VA_ARGS__)

// REQ(name, condition): the violating branch calls the fail symbol of this line.  The volatile marker behind it
// must survive in the compiled code: if it does not, the requirement was discharged only because the
// compiler proved that control never gets there (non-termination, unconditional throw, undefined behaviour).
// Compiled in only for the reachability pass (a volatile statement clobbers what the optimiser knows).
#ifdef QLV_REACH_PASS
#define QLV_REACH(name, line, label) __asm__ volatile("# qlv_reach__" #name "__" QLV_STR(line) "__" label)
#else
#define QLV_REACH(name, line, label) (void)0
#endif
// (Plain identifiers, no asm labels: gcc drops the label of a block-scope declaration inside a template.)
#define QLV_FAILSYM(name, line, label) QLV_CAT(QLV_CAT(qlv_fail__##name##__, line), __##label##__E)
#define QLV_REQ(name, label, slabel, ...)                                                \
  do {                                                                                   \
    extern void QLV_FAILSYM(name, __LINE__, label)(void) noexcept __attribute__((noreturn)); \
    if (!(__VA_ARGS__)) { QLV_FAILSYM(name, __LINE__, label)(); }                         \
    QLV_REACH(name, __LINE__, slabel);                                                   \
  } while (0)
#define REQ(name, ...) QLV_REQ(name, , "", __VA_ARGS__)
// REQF: as REQ, with a label (field name) carried into the report
#define REQF(name, label, ...) QLV_REQ(name, label, #label, __VA_ARGS__)
// REQN: as REQ, for a requirement that control is not expected to get behind
#define REQN(name, ...) QLV_REQ(name, never, "never", __VA_ARGS__)

// ASSUME(cond): restricts the inputs the obligation speaks about
// (QLV_BARRIER: an empty volatile statement behind it keeps the compiler from merging consecutive assumptions)
#ifdef QLV_BARRIER
#define QLV_BAR __asm__ volatile("")
#else
#define QLV_BAR (void)0
#endif
#define ASSUME(...) do { if (!(__VA_ARGS__)) return; QLV_BAR; } while (0)

// FACT(x): a consequence of an earlier ASSUME, restated for the optimiser in the form x
#ifdef __clang__
#define FACT(...) __builtin_assume(__VA_ARGS__)
#else
#define FACT(...) do { if (!(__VA_ARGS__)) __builtin_unreachable(); } while (0)
#endif

// SPLIT(k, cond): (flat mode) the obligation is analysed separately for cond and for !cond; k = 0, 1, ... distinguishes splits
extern "C" {
bool qlv_case_0() noexcept; bool qlv_case_1() noexcept; bool qlv_case_2() noexcept; bool qlv_case_3() noexcept; bool qlv_case_4() noexcept; bool qlv_case_5() noexcept;
}
#define SPLIT(k, ...) do { if (qlv_case_##k()) { if (!(__VA_ARGS__)) return; } else { if (__VA_ARGS__) return; } } while (0)

namespace qlv {
// given a < b (so neither is NaN): every comparison of the two
inline void FactsLt(double a, double b) {
  FACT(a < b); FACT(b > a); FACT(a <= b); FACT(b >= a); FACT(!(b < a)); FACT(!(a > b)); FACT(!(b <= a)); FACT(!(a >= b)); FACT(a != b); FACT(!(a == b));
}
// storage with contents unknown to the optimiser: a field that a constructor forgets to
// initialise reads as an arbitrary value, never as `undef`
extern "C" unsigned char qlv_opaque_a[1 << 16];
extern "C" unsigned char qlv_opaque_b[1 << 16];
template <class T, class... A>
inline T *At(unsigned char *p, A &&...a) {
  return ::new (static_cast<void *>(p)) T(std::forward<A>(a)...);
}
// bit equality: reflexive for every value, NaN included
inline bool Same(double a, double b) {
  unsigned long x, y;
  std::memcpy(&x, &a, 8);
  std::memcpy(&y, &b, 8);
  return x == y;
}
// arbitrary values the optimiser knows nothing about
extern "C" long qlv_any_long() noexcept;
extern "C" bool qlv_any_bool() noexcept;
extern "C" double qlv_any_double() noexcept;
}  // namespace qlv
#endif
