// Shared by the harnesses.
#pragma once
#include "mc.h"
#include <atomic>
#include <coroutine>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <ranges>
#include <variant>
#include <stdexcept>
#include <string>
#include <thread>
#include <utility>
#include <vector>

// Fire-and-forget coroutine: starts at once, frees itself; its frame is an ordinary heap block, so
// a coroutine that is never resumed again is reported as a leak and one resumed after its end as a
// use after free.
struct co {
  struct promise_type {
    co get_return_object() noexcept { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { mc_fail("an exception escaped a harness coroutine"); }
  };
};

// Coroutine with a visible handle; starts suspended, stays suspended at its end; owned by the harness.
struct raw_co {
  struct promise_type {
    raw_co get_return_object() noexcept { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { mc_fail("an exception escaped a harness coroutine"); }
  };
  std::coroutine_handle<promise_type> h;
};

// Value that owns a heap cell: a missing destruction is a leak, a second one a double free, a copy
// from or use of a destroyed one a use after free.  Moved-from probes hold nothing.
struct Probe {
  int* p = nullptr;
  Probe() = default;
  Probe(int v) : p(new int(v)) {}
  Probe(const Probe& o) : p(o.p ? new int(*o.p) : nullptr) {}
  Probe(Probe&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
  Probe& operator=(const Probe& o) {
    Probe t(o);
    std::swap(p, t.p);
    return *this;
  }
  Probe& operator=(Probe&& o) noexcept {
    Probe t(std::move(o));
    std::swap(p, t.p);
    return *this;
  }
  ~Probe() { delete p; }
  int get() const { return p ? *p : -1; }
  bool operator==(const Probe& o) const { return get() == o.get(); }
};

// Counts its living instances in a cell of the harness (checked by the harness itself).
struct Counted {
  int* n;
  int v;
  Counted(int* n, int v = 0) : n(n), v(v) { ++*n; }
  Counted(const Counted& o) : n(o.n), v(o.v) { ++*n; }
  Counted(Counted&& o) noexcept : n(o.n), v(o.v) { ++*n; }
  Counted& operator=(const Counted&) = default;
  ~Counted() { --*n; }
};

// a type whose & is not the address of the object
#define NO_ADDRESS_OF(T)                            \
  T* operator&() noexcept { return nullptr; }       \
  const T* operator&() const noexcept { return nullptr; }
struct Amp {
  Probe p;
  Amp() = default;
  Amp(int v) : p(v) {}
  int get() const { return p.get(); }
  NO_ADDRESS_OF(Amp)
};
struct AmpT {  // the same, trivial
  int v;
  int get() const { return v; }
  NO_ADDRESS_OF(AmpT)
};

struct Err {
  int code;
};

// log helpers ---------------------------------------------------------------------------------
inline int log_count(int tag, long a = -1) {
  int n = 0;
  for (int i = 0; i < mc_log_size(); i++)
    if (mc_log_tag(i) == tag && (a == -1 || mc_log_a(i) == a)) n++;
  return n;
}
inline int log_find(int tag, long a = -1, int from = 0) {
  for (int i = from; i < mc_log_size(); i++)
    if (mc_log_tag(i) == tag && (a == -1 || mc_log_a(i) == a)) return i;
  return -1;
}
