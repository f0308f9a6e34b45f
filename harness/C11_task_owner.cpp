// C11: a task's frame has one owner at any time and is destroyed exactly once
#include "tk.h"
#include "exec.h"
#include "res.h"
#include <algorithm>

namespace {
enum St { ABSENT, NEW, PARKED, DONE, FREED };
enum { NCORO = 3 };
struct C : Ctl {
  int frames = 0;   // living argument objects
  int results = 0;  // living result objects
  St st = ABSENT;
  bool parks, throws;
  bool self_owned = false;  // detached: frees itself at its end
};
C cs[NCORO];
int made;
template <typename T>
struct Mk;
template <>
struct Mk<Counted> {
  static Counted make(C& c) { return Counted(&c.results, 7); }
};
template <>
struct Mk<int> {
  static int make(C&) { return 7; }
};
template <typename T>
dd::task<T> run(C& c, Counted arg) {
  Local local{c};
  mc_log(BEGIN, c.id, 0);
  if (c.parks) co_await park{c};
  MC_CHECK(arg.v == 3, "argument damaged");
  mc_log(END, c.id, 0);
  if (c.throws) throw Err{c.id};
  if constexpr (!std::is_void_v<T>) co_return Mk<T>::make(c);
}
template <typename T>
dd::task<T> run_r(C& c, Counted arg, dd::with_pmr_resource) {
  Local local{c};
  mc_log(BEGIN, c.id, 0);
  if (c.parks) co_await park{c};
  MC_CHECK(arg.v == 3, "argument damaged");
  mc_log(END, c.id, 0);
  if (c.throws) throw Err{c.id};
  if constexpr (!std::is_void_v<T>) co_return Mk<T>::make(c);
}
int args_alive[NCORO];
template <typename T>
struct World {
  Res* res = nullptr;
  dd::task<T> slot[2];
  int in[2] = {-1, -1};                                  // which coroutine the slot holds
  std::vector<std::pair<typename dd::task<T>::handle_type, int>> raw;  // handles owned by the script

  void check() {
    for (int s = 0; s < 2; s++) {
      MC_CHECK(slot[s].empty() == (in[s] < 0) && (bool)slot[s] == (in[s] >= 0), "slot %d empty: %d", s, slot[s].empty());
      MC_CHECK((slot[s].get_context() == nullptr) == (in[s] < 0), "context of slot %d", s);
      if (in[s] >= 0) MC_CHECK(slot[s].raw_handle() && slot[s].raw_handle().done() == (cs[in[s]].st == DONE), "done %d", cs[in[s]].st);
    }
    for (int k = 0; k < made; k++) {
      C& c = cs[k];
      MC_CHECK(args_alive[k] == (c.st != FREED), "coroutine %d: %d argument objects alive in state %d", k, args_alive[k], c.st);
      MC_CHECK(log_count(BEGIN, k) == (c.st != NEW && !(c.st == FREED && !log_count(BEGIN, k))), "coroutine %d begun %d times in state %d", k, log_count(BEGIN, k), c.st);
      MC_CHECK(log_count(LOCALS_DEAD, k) == (c.st == DONE || (c.st == FREED && log_count(BEGIN, k))), "coroutine %d: locals destroyed %d times in state %d", k, log_count(LOCALS_DEAD, k), c.st);
      if (c.st == DONE || (c.st == FREED && c.self_owned)) MC_CHECK(log_count(END, k) == 1, "coroutine %d ended %d times", k, log_count(END, k));
      if (c.st == FREED) MC_CHECK(c.results == 0, "result not destroyed");
    }
  }
  // the coroutine is resumed: new state
  void started(int k) { cs[k].st = cs[k].parks ? PARKED : cs[k].self_owned ? FREED : DONE; }
  void drop(int k) { cs[k].st = FREED; }
  bool create(int s) {
    if (made == NCORO) return false;
    int k = made++;
    cs[k] = C{};
    cs[k].id = k;
    cs[k].parks = mc::flip("parks");
    cs[k].throws = mc::flip("throws");
    args_alive[k] = 0;
    int old = in[s];
    if (res && mc::flip("resource")) slot[s] = run_r<T>(cs[k], Counted(&args_alive[k], 3), *res);
    else slot[s] = run<T>(cs[k], Counted(&args_alive[k], 3));
    if (old >= 0) drop(old);
    cs[k].st = NEW;
    in[s] = k;
    return true;
  }
  // ops a script can do; false: not applicable, path pruned
  bool op() {
    int o = mc::choose(14, "op");
    int s = 0;
    if (o <= 11) s = mc::choose(2, "slot");
    int k = in[s];
    switch (o) {
      case 0: return create(s);
      case 1: {  // move construction and destruction of both
        if (k < 0) return false;
        { dd::task<T> u(std::move(slot[s]));
          MC_CHECK(slot[s].empty() && !u.empty(), "moved from"); }
        in[s] = -1;
        drop(k);
        return true;
      }
      case 2: {  // assignment from the other slot; what the other one holds then is up to the task
        if (s == 1 && k < 0 && in[0] < 0) return false;
        slot[s] = std::move(slot[1 - s]);
        if (in[1 - s] >= 0) MC_CHECK(!slot[s].empty(), "assigned a full task, got an empty one");
        if (slot[1 - s].empty() && k >= 0 && in[1 - s] >= 0) { drop(k); in[s] = in[1 - s]; in[1 - s] = -1; }
        else std::swap(in[0], in[1]);
        return true;
      }
      case 3:  // swap
        if (s == 1) return false;
        std::swap(slot[0], slot[1]);
        std::swap(in[0], in[1]);
        return true;
      case 4:  // assignment from a temporary empty one
        if (k < 0) return false;
        slot[s] = dd::task<T>{};
        in[s] = -1;
        drop(k);
        return true;
      case 5: {  // release
        auto h = slot[s].release();
        MC_CHECK(slot[s].empty() && (bool)h == (k >= 0), "released");
        in[s] = -1;
        if (k < 0) return false;
        raw.push_back({h, k});
        return true;
      }
      case 6: {  // detach and run
        if (k >= 0 && cs[k].st != NEW) return false;
        auto h = slot[s].detach();
        MC_CHECK(slot[s].empty() && (bool)h == (k >= 0), "detached");
        if (k < 0) return false;
        in[s] = -1;
        cs[k].self_owned = true;
        h.resume();
        started(k);
        return true;
      }
      case 7: {  // start and detach
        auto h = slot[s].start_and_detach();
        MC_CHECK(slot[s].empty(), "not empty after start_and_detach");
        if (k < 0) {
          MC_CHECK(!h, "handle from an empty task");
          return false;
        }
        in[s] = -1;
        cs[k].self_owned = true;
        if (cs[k].st == DONE) drop(k);
        else started(k);
        return true;
      }
      case 8: {  // start and detach, stop at the end
        auto h = slot[s].start_and_detach(true);
        MC_CHECK(slot[s].empty() && (bool)h == (k >= 0), "handle");
        if (k < 0) return false;
        in[s] = -1;
        if (cs[k].st != DONE) started(k);
        raw.push_back({h, k});
        return true;
      }
      case 9: {  // awaited by a coroutine of its own that takes the task away
        if (k < 0) return false;
        bool waits = mc::flip("only wait");
        in[s] = -1;
        [](dd::task<T> t, int k, bool waits) -> co {
          try {
            if (waits) co_await t.wait();
            else co_await t;
            MC_CHECK(waits || !cs[k].throws, "no exception");
          } catch (Err& e) { MC_CHECK(!waits && cs[k].throws && e.code == k, "exception"); }
          MC_CHECK(log_count(END, k) == 1 && args_alive[k] == 1, "awaiter goes on before the end");
        }(std::move(slot[s]), k, waits);
        MC_CHECK(slot[s].empty(), "moved from");
        if (cs[k].st == NEW && cs[k].parks) {
          cs[k].st = PARKED;
          cs[k].self_owned = true;  // it goes with its awaiter
        } else
          drop(k);
        return true;
      }
      case 10: {  // awaited in place
        if (k < 0 || (cs[k].st == NEW && cs[k].parks)) return false;
        [](dd::task<T>& t, int k) -> co {
          try {
            co_await t;
            MC_CHECK(!cs[k].throws, "no exception");
          } catch (Err& e) { MC_CHECK(cs[k].throws && e.code == k, "exception"); }
        }(slot[s], k);
        cs[k].st = DONE;
        return true;
      }
      case 11: {  // blocking get
        if (k < 0 || (cs[k].st == NEW && cs[k].parks)) return false;
        bool was_done = cs[k].st == DONE;
        try {
          slot[s].get();
          MC_CHECK(!cs[k].throws, "no exception");
        } catch (Err& e) { MC_CHECK(cs[k].throws && e.code == k, "exception"); }
        MC_CHECK(!was_done || !slot[s].empty(), "a finished task is empty after get");
        if (slot[s].empty()) {
          in[s] = -1;
          drop(k);
        } else
          cs[k].st = DONE;
        return true;
      }
      case 12: {  // resume a parked coroutine
        std::vector<int> p;
        for (int i = 0; i < made; i++)
          if (cs[i].st == PARKED) p.push_back(i);
        if (p.empty()) return false;
        int i = p[mc::choose(p.size(), "which")];
        cs[i].parked.resume();
        cs[i].st = cs[i].self_owned ? FREED : DONE;
        return true;
      }
      case 13: {  // an owned handle: destroyed or given to a slot
        if (raw.empty()) return false;
        int i = mc::choose(raw.size(), "which");
        auto [h, k] = raw[i];
        bool wrap = mc::flip("wrap");
        if (wrap && (cs[k].st == PARKED || in[0] >= 0)) return false;
        raw.erase(raw.begin() + i);
        if (wrap) {
          slot[0] = dd::task<T>(h);
          in[0] = k;
        } else {
          h.destroy();
          drop(k);
        }
        return true;
      }
    }
    return false;
  }
};
template <typename T>
void script(int depth, bool resource) {
  Res r;
  made = 0;
  {
    World<T> w;
    if (resource) w.res = &r;
    w.create(0);
    w.check();
    for (int i = 0; i < depth; i++) {
      bool ok = w.op();
      w.check();
      if (!ok) break;  // nothing done: the shorter script
    }
    // the rest of the lives
    for (int k = 0; k < made; k++)
      if (cs[k].st == PARKED && cs[k].self_owned) {
        cs[k].parked.resume();
        cs[k].st = FREED;
      }
    w.check();
    for (auto [h, k] : w.raw) h.destroy();
  }
  for (int k = 0; k < made; k++) {
    MC_CHECK(args_alive[k] == 0 && cs[k].results == 0, "coroutine %d: %d arguments, %d results left", k, args_alive[k], cs[k].results);
    MC_CHECK(log_count(LOCALS_DEAD, k) == log_count(BEGIN, k), "locals of coroutine %d", k);
  }
  MC_CHECK(r.live.empty(), "memory left in the resource");
}
}  // namespace
MC_SCENARIO(script_owning, 0, 0, "scripts of ownership operations over two tasks and three coroutines, owning results") { script<Counted>(mc::depth(4, 5), false); }
MC_SCENARIO(script_void, 0, 0, "same, void") { script<void>(mc::depth(4, 5), false); }
MC_SCENARIO(script_trivial, 0, 0, "same, trivially destructible results") { script<int>(mc::depth(4, 5), false); }
MC_SCENARIO(script_resource, 0, 0, "same, frames of either kind of allocation mixed in the same tasks") { script<Counted>(mc::depth(3, 4), true); }

// destroyed in the middle: the whole chain of tasks it awaits goes with it
namespace {
Ctl ch[5];
dd::task<Probe> chain(int i, int n, Counted) {
  Local local{ch[i]};
  mc_log(BEGIN, i, 0);
  if (i + 1 == n) {
    co_await park{ch[i]};
    mc_log(END, i, 0);
    co_return Probe(1);
  }
  static int dummy[5];
  dummy[i] = 0;
  Probe r = co_await chain(i + 1, n, Counted(&dummy[i]));
  mc_log(END, i, 0);
  co_return Probe(r.get() + 1);
}
}  // namespace
MC_SCENARIO(destroyed_chain, 0, 0, "a suspended chain of 1-4 tasks: destroyed at the top, or resumed and then destroyed") {
  int n = 1 + mc::choose(4, "levels"), alive = 0;
  for (int i = 0; i < n; i++) ch[i] = Ctl{i};
  auto t = chain(0, n, Counted(&alive));
  auto h = t.start_and_detach(true);
  MC_CHECK(alive == 1, "argument");
  if (mc::flip("finish")) {
    ch[n - 1].parked.resume();
    MC_CHECK(h.done(), "not finished");
    Probe p = dd::task<Probe>(h).get();
    MC_CHECK(p.get() == n, "value");
  } else {
    h.destroy();
    MC_CHECK(log_count(END) == 0, "went on after its destruction");
  }
  MC_CHECK(alive == 0, "argument left");
  for (int i = 0; i < n; i++) MC_CHECK(log_count(LOCALS_DEAD, i) == 1, "locals of level %d", i);
}

// on other threads -------------------------------------------------------------------------------
namespace {
int args_t;
template <typename T>
dd::task<T> hops(Ctl& c, int n, bool throws, Counted) {
  Local local{c};
  mc_log(BEGIN, c.id, 0);
  while (n-- > 0) co_await hop{};
  c.written = 5;
  mc_log(END, c.id, 0);
  if (throws) throw Err{1};
  if constexpr (!std::is_void_v<T>) co_return 4;
}
co awaits(dd::task<Probe> t, bool throws) {
  try {
    Probe p = co_await t;
    MC_CHECK(!throws && p.get() == 4, "value");
  } catch (Err& e) { MC_CHECK(throws, "exception"); }
  mc_log(OWNER_END, 0, 0);
}
}  // namespace
MC_SCENARIO(detached_hops, 20, 20, "started detached, detached and run on a thread, awaited or got, with bodies moving over threads") {
  Ctl c{1};
  args_t = 0;
  bool th = mc::flip("throws"), stop = false;
  int n = mc::choose(mc::depth(3, 4), "hops");
  int how = mc::choose(5, "how");
  {
    auto t = hops<Probe>(c, n, th, Counted(&args_t));
    std::coroutine_handle<> h;
    switch (how) {
      case 0: t.start_and_detach(); break;
      case 1:
        h = t.start_and_detach(true);
        stop = true;
        break;
      case 2: {
        std::thread x([h = t.detach()] { h.resume(); });
        x.detach();
        break;
      }
      case 3: awaits(std::move(t), th); break;
      case 4:
        try {
          MC_CHECK(t.get().get() == 4 && !th, "value");
        } catch (Err& e) { MC_CHECK(th, "exception"); }
        break;
    }
    MC_CHECK(t.empty() || how == 4, "not empty");
    mc_wait_quiescent();
    if (stop) {
      MC_CHECK(h.done() && args_t == 1, "stopped at its end: done %d, frames %d", h.done(), args_t);
      h.destroy();
    }
    if (how == 3) MC_CHECK(log_count(OWNER_END) == 1, "awaiter");
  }
  ended(c);
  MC_CHECK(args_t == 0, "%d argument objects left", args_t);
}
// awaiter and task finish while another thread still is in the task's ramp
MC_SCENARIO(two_tasks, 20, 20, "two tasks of one awaiter, moving over threads, awaited one after the other or crosswise") {
  Ctl a{1}, b{2};
  int aa = 0, ab = 0;
  bool cross = mc::flip("wait for the second first");
  auto ta = hops<Probe>(a, 1, false, Counted(&aa));
  auto tb = hops<void>(b, 1, false, Counted(&ab));
  [](dd::task<Probe> x, dd::task<void> y, bool cross) -> co {
    if (cross) {
      co_await y.wait();
      dd::task<Probe> z = std::move(x);
      MC_CHECK((co_await z).get() == 4, "value");
      co_await y;
    } else {
      MC_CHECK((co_await std::move(x)).get() == 4, "value");
      x = dd::task<Probe>{};
      co_await y;
    }
    mc_log(OWNER_END, 0, 0);
  }(std::move(ta), std::move(tb), cross);
  mc_wait_quiescent();
  MC_CHECK(log_count(OWNER_END) == 1, "awaiter");
  ended(a);
  ended(b);
  MC_CHECK(aa == 0 && ab == 0, "left");
}
int main(int c, char** v) { return mc_main(c, v); }
