// Environment model of std::function: the callable is held inline.
#ifndef QLV_FUNCTION_H
#define QLV_FUNCTION_H
#include "qlv_std.h"
namespace std {
template <class S> struct qlv_function;
template <class R, class... A> struct qlv_function<R(A...)> {
  typedef R result_type;
  alignas(16) char buf_[32];
  R (*call_)(const void *, A...) = nullptr;
  qlv_function() {}
  qlv_function(nullptr_t) {}
  qlv_function(const qlv_function &o) : call_(o.call_) { memcpy(buf_, o.buf_, sizeof buf_); }
  qlv_function &operator=(const qlv_function &o) { call_ = o.call_; memcpy(buf_, o.buf_, sizeof buf_); return *this; }
  template <class F, class = enable_if_t<!is_same_v<decay_t<F>, qlv_function> && is_invocable_r_v<R, F &, A...>>>
  qlv_function(F f) {
    static_assert(sizeof(F) <= sizeof buf_ && is_trivially_copyable_v<F>, "callable model: small, trivially copyable");
    new (buf_) F(f);
    call_ = [](const void *p, A... a) -> R { return (*const_cast<F *>(static_cast<const F *>(p)))(std::forward<A>(a)...); };
  }
  explicit operator bool() const { return call_ != nullptr; }
  R operator()(A... a) const { if (!call_) throw bad_function_call(); return call_(buf_, std::forward<A>(a)...); }
  friend bool operator==(const qlv_function &f, nullptr_t) { return !f.call_; }
};
}  // namespace std
#endif
