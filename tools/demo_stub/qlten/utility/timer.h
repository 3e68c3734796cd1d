// declaration stub of the tensor library's timer; elapsed times are not part of any property
#ifndef QLV_QLTEN_TIMER_H
#define QLV_QLTEN_TIMER_H
namespace qlten {
struct Timer {
  Timer() {}
  template <class S> explicit Timer(const S &) {}
  double Elapsed() const { return 0.0; }
  double PrintElapsed() const { return 0.0; }
  template <class T> double PrintElapsed(T) const { return 0.0; }
  void Restart() {}
  void Suspend() {}
  void ClearAndRestart() {}
};
}  // namespace qlten
#endif
