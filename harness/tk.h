// Shared by the task harnesses: result kinds, bodies that hop to fresh threads, locals with a life.
#pragma once
#include "common.h"
#include <kelcoro/task.hpp>

enum { BEGIN = 30, END, LOCALS_DEAD, OWNER_END, OWNER_GOES_ON };
struct Ctl {
  int id = 0;
  int written = 0;  // by the body; read by whoever waited for it
  int end_tid = -1;
  std::coroutine_handle<> parked;
};
struct Local {
  Ctl& c;
  Probe p{21};
  Local(Ctl& c) : c(c) {}
  Local(const Local&) = delete;
  ~Local() {
    MC_CHECK(p.get() == 21, "local damaged");
    mc_log(LOCALS_DEAD, c.id, 0);
  }
};
// goes on on a fresh thread
struct hop {
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    std::thread([h] { h.resume(); }).detach();
  }
  void await_resume() {}
};
// waits until somebody resumes c.parked
struct park {
  Ctl& c;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { c.parked = h; }
  void await_resume() {}
};
struct Triple {
  int a, b, c;
};
struct NoDefault {
  Probe p;
  explicit NoDefault(int v) : p(v) {}
};
inline int ref_target;
template <typename T>
struct V;
template <>
struct V<int> {
  static int make() { return 7; }
  static int other() { return 1; }
  static bool ok(int& x) { return x == 7; }
};
template <>
struct V<Probe> {
  static Probe make() { return Probe(8); }
  static Probe other() { return Probe(88); }
  static bool ok(Probe& x) { return x.get() == 8; }
};
template <>
struct V<std::unique_ptr<int>> {
  static std::unique_ptr<int> other() { return std::make_unique<int>(99); }
  static std::unique_ptr<int> make() { return std::make_unique<int>(9); }
  static bool ok(std::unique_ptr<int>& x) { return x && *x == 9; }
};
template <>
struct V<Triple> {
  static Triple other() { return {3, 2, 1}; }
  static Triple make() { return {1, 2, 3}; }
  static bool ok(Triple& x) { return x.a == 1 && x.b == 2 && x.c == 3; }
};
template <>
struct V<NoDefault> {
  static NoDefault make() { return NoDefault(4); }
  static bool ok(NoDefault& x) { return x.p.get() == 4; }
};
template <>
struct V<int&> {
  static int& make() { return ref_target; }
  static bool ok(int& x) { return &x == &ref_target; }
};
template <>
struct V<Amp> {
  static Amp make() { return Amp(14); }
  static Amp other() { return Amp(1); }
  static bool ok(Amp& x) { return x.get() == 14; }
};
template <>
struct V<AmpT> {
  static AmpT make() { return {15}; }
  static AmpT other() { return {1}; }
  static bool ok(AmpT& x) { return x.v == 15; }
};
inline AmpT amp_target;
template <>
struct V<AmpT&> {
  static AmpT& make() { return amp_target; }
  static bool ok(AmpT& x) { return std::addressof(x) == std::addressof(amp_target); }
};
// how a body ends; PLACE goes through the return place, PLACE_RETURN asks for it and returns something else
enum How { RETURN, THROW, PLACE, PLACE_TWICE, PLACE_THROW, PLACE_RETURN, NHOW };
template <typename T>
constexpr int nhow = std::is_void_v<T> || std::is_same_v<T, NoDefault> ? 2 : (int)NHOW;
inline bool throws(int how) { return how == THROW || how == PLACE_THROW; }

template <typename T>
dd::task<T> body(Ctl& c, int hops, int how) {
  Local local{c};
  mc_log(BEGIN, c.id, 0);
  while (hops-- > 0) co_await hop{};
  if constexpr (nhow<T> > 2) {
    if (how >= PLACE) {
      if constexpr (std::is_reference_v<T>) {
        auto*& p = co_await dd::this_coro::return_place;
        if (how != PLACE_RETURN) p = std::addressof(V<T>::make());
        if (how == PLACE_TWICE) (co_await dd::this_coro::return_place) = std::addressof(V<T>::make());
      } else {
        T& place = co_await dd::this_coro::return_place;
        place = how == PLACE_RETURN ? V<T>::other() : V<T>::make();
        if (how == PLACE_TWICE) {
          T& again = co_await dd::this_coro::return_place;
          again = V<T>::make();
        }
      }
    }
  }
  c.written = 5;
  c.end_tid = mc_self();
  mc_log(END, c.id, 0);
  if (throws(how)) throw Err{10 + c.id};
  if constexpr (std::is_void_v<T>) co_return;
  else if constexpr (nhow<T> > 2) {
    if (how >= PLACE && how != PLACE_RETURN) co_return dd::rvo;
    co_return V<T>::make();
  } else co_return V<T>::make();
}
inline void ended(Ctl& c) {
  MC_CHECK(log_count(BEGIN, c.id) == 1 && log_count(END, c.id) == 1, "begun %d times, ended %d times", log_count(BEGIN, c.id), log_count(END, c.id));
  MC_CHECK(log_count(LOCALS_DEAD, c.id) == 1, "locals destroyed %d times", log_count(LOCALS_DEAD, c.id));
  MC_CHECK(c.written == 5, "the body's effects are not visible");
}
inline void never_ran(Ctl& c) { MC_CHECK(log_count(BEGIN, c.id) == 0, "the body of a task that was not started ran"); }
