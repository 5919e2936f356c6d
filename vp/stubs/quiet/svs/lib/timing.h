// Timers without effect: timing is not part of any contract.
#pragma once
#include <cstddef>
namespace svs::lib {
struct TimeData {};
struct AutoTime { TimeData finish() { return {}; } };
template <class T> double as_seconds(const T&) { return 0; }
class Timer {
  public:
    template <class S> AutoTime push_back(const S&) { return {}; }
    TimeData elapsed() const { return {}; }
    void print() const {}
};
inline int now() { return 0; }
template <class A> double time_difference(A) { return 0; }
template <class A, class B> double time_difference(A, B) { return 0; }
} // namespace svs::lib
