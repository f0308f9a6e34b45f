// a value that can be built from anything: must only ever be built from what the task returns
#pragma once
#include "common.h"
#include <kelcoro/algorithm.hpp>

namespace anything {
struct Any {
  Probe p{-1};
  Any() = default;
  template <typename T>
    requires(!std::same_as<std::remove_cvref_t<T>, Any>)
  Any(T&& t) {
    if constexpr (std::same_as<std::remove_cvref_t<T>, int>) p = Probe(t);
    else mc_fail("a value was built from something the task did not return");
  }
};
inline std::coroutine_handle<> parked[2];
struct park {
  int i;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { parked[i] = h; }
  void await_resume() {}
};
inline dd::task<Any> leaf(int i, bool stops, int how) {
  if (stops) co_await park{i};
  switch (how) {
    case 0: co_return 100 + i;
    case 1: co_return Any(100 + i);
    case 2: {
      const Any x(100 + i);
      co_return x;
    }
    default: throw Err{i};
  }
}
// e is the outcome of task i, also after copying and moving it in every way
template <typename E>
void outcome(E& e, int i, int how) {
  auto right = [&](auto& x) {
    MC_CHECK(x.has_value() == (how < 3) && (bool)x == (how < 3), "task %d: has_value", i);
    if (how < 3) {
      MC_CHECK((*x).p.get() == 100 + i, "task %d: value %d", i, (*x).p.get());
    } else {
      try {
        std::rethrow_exception(x.error());
      } catch (Err& err) {
        MC_CHECK(err.code == i, "task %d: exception of %d", i, err.code);
      }
    }
  };
  right(e);
  E a(e);
  right(a), right(e);
  E b(std::as_const(e));
  right(b), right(e);
  E c(std::move(a));
  right(c);
  E d;
  d = e;
  right(d), right(e);
  d = std::move(b);
  right(d);
  std::vector<E> v(2, e);
  v.push_back(c);
  for (E& x : v) right(x);
}
}  // namespace anything
