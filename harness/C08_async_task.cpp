// C08: async_task delivers its outcome to its owner and is freed exactly once
#include "exec.h"
#include "ret.h"
#include <kelcoro/async_task.hpp>

namespace {
enum { BODY_END = 30, LOCALS_DEAD };
int written;  // by the coroutine before it ends, read by the owner after waiting
int ref_target;
struct Local {
  Probe p{21};
  ~Local() {
    MC_CHECK(p.get() == 21, "local damaged");
    mc_log(LOCALS_DEAD, 0, 0);
  }
};
// the coroutine suspends until somebody resumes `parked`
std::coroutine_handle<> parked;
struct park {
  bool yes;
  bool await_ready() { return !yes; }
  void await_suspend(std::coroutine_handle<> h) { parked = h; }
  void await_resume() {}
};
enum Kind { VALUE, STRING, MOVEONLY, VOID, REF, THROW_VALUE, THROW_VOID, AMP, AMP_TRIVIAL, AMP_REF, UNRETURNABLE, NKIND };
AmpT amp_target;
struct Picky {
  Probe p;
  Picky(int code) : p(1) { throw Err{code}; }
};
#define A_BODY             \
  Local local;             \
  co_await park{hops};     \
  written = 5;             \
  mc_log(BODY_END, 0, 0);
dd::async_task<int> a_value(bool hops) { A_BODY co_return 7; }
dd::async_task<Probe> a_string(bool hops) { A_BODY co_return Probe(8); }
dd::async_task<std::unique_ptr<int>> a_moveonly(bool hops) { A_BODY co_return std::make_unique<int>(9); }
dd::async_task<void> a_void(bool hops) { A_BODY }
dd::async_task<int&> a_ref(bool hops) { A_BODY co_return ref_target; }
dd::async_task<Probe> a_throw(bool hops) {
  A_BODY throw Err{10};
  co_return Probe(1);
}
dd::async_task<Amp> a_amp(bool hops) { A_BODY co_return Amp(14); }
dd::async_task<AmpT> a_ampt(bool hops) { A_BODY co_return AmpT{15}; }
dd::async_task<AmpT&> a_ampref(bool hops) { A_BODY co_return amp_target; }
dd::async_task<Picky> a_picky(bool hops) { A_BODY co_return 33; }
dd::async_task<void> a_throwv(bool hops) { A_BODY throw Err{11}; }

void after_wait() { MC_CHECK(log_count(BODY_END) == 1 && written == 5, "waiting ended before the coroutine did"); }

// owner scripts on a task whose coroutine finishes concurrently
template <typename T>
void get_check(dd::async_task<T>& t, Kind k, bool threw_before) {
  (void)threw_before;
  try {
    if constexpr (std::is_void_v<T>) {
      t.get();
      MC_CHECK(k == VOID, "no exception");
    } else if constexpr (std::is_same_v<T, AmpT&>) {
      AmpT& x = t.get();
      MC_CHECK(std::addressof(x) == std::addressof(amp_target), "another object");
    } else if constexpr (std::is_same_v<T, Amp> || std::is_same_v<T, AmpT>) {
      T&& x = t.get();
      MC_CHECK(x.get() == (std::is_same_v<T, Amp> ? 14 : 15), "value");
    } else if constexpr (std::is_same_v<T, Picky>) {
      (void)t.get();
      mc_fail("no exception");
    } else if constexpr (std::is_reference_v<T>) {
      int& x = t.get();
      MC_CHECK(&x == &ref_target, "another object");
    } else if constexpr (std::is_same_v<T, int>) {
      MC_CHECK(t.get() == 7, "value");
    } else if constexpr (std::is_same_v<T, Probe>) {
      Probe&& x = t.get();
      MC_CHECK(k == STRING && x.get() == 8, "value");
    } else {
      std::unique_ptr<int>&& x = t.get();
      MC_CHECK(x && *x == 9, "value");
    }
  } catch (Err& e) {
    MC_CHECK((k == THROW_VALUE && e.code == 10) || (k == THROW_VOID && e.code == 11) || (k == UNRETURNABLE && e.code == 33), "exception %d", e.code);
  }
  after_wait();
  MC_CHECK(t.ready(), "not ready after get");
  MC_CHECK(!t.empty(), "empty after get");
}
template <typename T>
void owner(dd::async_task<T> t, Kind k, int depth) {
  MC_CHECK(!t.empty() && t, "empty task");
  bool waited = false;
  for (int i = 0; i < depth; i++) {
    switch (mc::choose(9, "op")) {
      case 0: return;  // destroy now
      case 1:
        get_check(t, k, false);
        waited = true;
        break;
      case 2:
        t.wait();
        after_wait();
        MC_CHECK(t.ready(), "not ready after wait");
        waited = true;
        break;
      case 3:
        if (t.ready()) {
          after_wait();
          waited = true;
        } else MC_CHECK(!waited, "ready once, but not any more");
        break;
      case 4:
        t.detach();
        MC_CHECK(t.empty() && !t && !t.ready(), "not empty after detach");
        t.detach();
        t.wait();  // does nothing when empty
        return;
      case 5: {
        dd::async_task<T> u(std::move(t));
        MC_CHECK(t.empty() && !t.ready() && !u.empty(), "moved");
        t.wait();
        t = std::move(u);
        MC_CHECK(u.empty() && !t.empty(), "moved back");
        break;
      }
      case 6: {
        swap(t, t);
        auto& same = t;
        t = std::move(same);
        MC_CHECK(!t.empty(), "empty after an assignment to itself");
        dd::async_task<T> u;
        swap(u, t);
        MC_CHECK(t.empty() && !u.empty(), "swapped");
        u.swap(t);
        break;
      }
      case 7: {
        dd::async_task<T> u(std::move(t));
        return;  // destroyed through u, and empty t
      }
      case 8: {
        dd::async_task<T> u;
        t = std::move(u);  // whoever holds it now, it dies at the end of this scope
        MC_CHECK(t.empty() || u.empty(), "two owners");
        return;
      }
    }
  }
}
void finish_checks() {
  MC_CHECK(log_count(BODY_END) == 1, "the coroutine ended %d times", log_count(BODY_END));
  MC_CHECK(log_count(LOCALS_DEAD) == 1, "its locals were destroyed %d times", log_count(LOCALS_DEAD));
}
void with_kind(Kind k, bool hops, auto f) {
  switch (k) {
    case VALUE: return f(a_value(hops));
    case STRING: return f(a_string(hops));
    case MOVEONLY: return f(a_moveonly(hops));
    case VOID: return f(a_void(hops));
    case REF: return f(a_ref(hops));
    case THROW_VALUE: return f(a_throw(hops));
    case AMP: return f(a_amp(hops));
    case AMP_TRIVIAL: return f(a_ampt(hops));
    case AMP_REF: return f(a_ampref(hops));
    case UNRETURNABLE: return f(a_picky(hops));
    default: return f(a_throwv(hops));
  }
}
void against_thread(Kind k, int depth) {
  written = 0;
  parked = nullptr;
  with_kind(k, true, [&](auto t) {
    std::thread finisher([] { parked.resume(); });
    owner(std::move(t), k, depth);
    finisher.join();
  });
  finish_checks();
}
}  // namespace

MC_SCENARIO(value_vs_owner, 20, 20, "int task finishing on another thread x owner scripts of 3 operations") { against_thread(VALUE, mc::depth(4, 5)); }
MC_SCENARIO(owning_vs_owner, 20, 20, "owning value") { against_thread(STRING, mc::depth(4, 5)); }
MC_SCENARIO(moveonly_vs_owner, 20, 20, "move-only value") { against_thread(MOVEONLY, mc::depth(3, 4)); }
MC_SCENARIO(void_vs_owner, 20, 20, "void") { against_thread(VOID, mc::depth(3, 4)); }
MC_SCENARIO(ref_vs_owner, 20, 20, "reference") { against_thread(REF, mc::depth(3, 4)); }
MC_SCENARIO(throw_vs_owner, 20, 20, "exception of a value task") { against_thread(THROW_VALUE, mc::depth(4, 5)); }
MC_SCENARIO(throwv_vs_owner, 20, 20, "exception of a void task") { against_thread(THROW_VOID, mc::depth(3, 4)); }

// finished before the owner gets it, or finished by the owner's thread in between
MC_SCENARIO(sequential, 0, 0, "all kinds, done at creation or resumed later by the owner's thread, scripts of 3-4 operations") {
  Kind k = (Kind)mc::choose(NKIND, "kind");
  written = 0;
  parked = nullptr;
  bool hops = mc::flip("suspends");
  with_kind(k, hops, [&](auto t) {
    if (!hops) {
      MC_CHECK(t.ready(), "not ready although the coroutine ended");
      owner(std::move(t), k, mc::depth(4, 5));
      return;
    }
    MC_CHECK(!t.ready(), "ready before the coroutine ended");
    if (mc::flip("detach first")) {
      if (mc::flip("by destruction")) auto u = std::move(t);
      else t.detach();
      MC_CHECK(t.empty(), "not empty");
      parked.resume();
    } else {
      parked.resume();
      owner(std::move(t), k, mc::depth(4, 5));
    }
  });
  finish_checks();
}
// the outcome can be taken as often as it is not moved from; exceptions every time
MC_SCENARIO(repeated_get, 0, 0, "get twice yields the same object or exception") {
  written = 0;
  parked = nullptr;
  if (mc::flip("throws")) {
    auto t = a_throw(false);
    for (int i = 0; i < 3; i++) try {
        t.get();
        mc_fail("no exception the %d-th time", i);
      } catch (Err& e) {
        MC_CHECK(e.code == 10, "exception");
      }
  } else {
    auto t = a_string(false);
    Probe&& r = t.get();
    Probe* a = &r;
    Probe&& r2 = t.get();
    Probe* b = &r2;
    MC_CHECK(a == b && a->get() == 8, "another object");
    Probe moved = std::move(t).get();
    MC_CHECK(moved.get() == 8, "value");
  }
}
static dd::async_task<int> a_two() {
  Local local;
  co_await park{true};
  mc_log(BODY_END, 0, 0);
  co_return 7;
}
// several tasks, one of them moved over another that is still running
MC_SCENARIO(assign_over_running, 20, 20, "assigning over a running task and swapping two running tasks") {
  written = 0;
  int mode = mc::choose(4, "how");
  {
    parked = nullptr;
    auto a = a_two();
    auto pa = parked;
    auto b = a_two();
    auto pb = parked;
    std::thread ta([pa] { pa.resume(); });
    switch (mode) {
      case 0: a = std::move(b); break;
      case 1: swap(a, b); break;
      case 2: a = dd::async_task<int>{}; break;
      case 3: {
        auto c = std::move(a);
        a = std::move(b);
        b = std::move(c);
      }
    }
    pb.resume();
    if (!a.empty()) MC_CHECK(a.get() == 7, "value");
    if (!b.empty()) MC_CHECK(b.get() == 7, "value");
    ta.join();
  }
  MC_CHECK(log_count(BODY_END) == 2 && log_count(LOCALS_DEAD) == 2, "ended %d, destroyed %d", log_count(BODY_END), log_count(LOCALS_DEAD));
}
// one waiter blocked while the coroutine moves over two workers
static dd::async_task<int> hopping(dd::worker& a, dd::worker& b) {
  Local local;
  if (!co_await dd::jump_on(a)) co_return -1;
  if (!co_await dd::jump_on(b)) co_return -1;
  written = 5;
  mc_log(BODY_END, 0, 0);
  co_return 7;
}
MC_SCENARIO(over_workers, 6, 10, "coroutine over two workers; owner gets, polls or detaches") {
  written = 0;
  {
    dd::worker a, b;
    auto t = hopping(a, b);
    switch (mc::choose(3, "owner")) {
      case 0: MC_CHECK(t.get() == 7, "value"); after_wait(); break;
      case 1:
        if (t.ready()) after_wait();
        else t.wait(), after_wait();
        break;
      case 2: t.detach(); mc_wait_quiescent(); break;
    }
  }
  finish_checks();
}
// the owner object travels to another thread, which takes the result
MC_SCENARIO(owner_moves_thread, 20, 20, "the owner object is handed to another thread while the coroutine finishes on a third") {
  written = 0;
  parked = nullptr;
  {
    auto t = a_string(true);
    std::thread f([] { parked.resume(); });
    std::thread o([u = std::move(t), x = mc::flip("get")]() mutable {
      if (x) {
        MC_CHECK(u.get().get() == 8, "value");
        after_wait();
      } else u.detach();
    });
    f.join();
    o.join();
  }
  finish_checks();
}
template <typename T>
using Returning = dd::async_task<T>;
MC_SCENARIO(returned, 0, 0, "what is returned (lvalues, rvalues, what it converts from) is copied or moved as written; four kinds of types") { ret::all<Returning>(false); }
int main(int c, char** v) { return mc_main(c, v); }
