// C09: logical threads stop, join and detach like std::jthread
#include "exec.h"
#include "res.h"
#include <kelcoro/logical_thread.hpp>
#include <array>
#include <list>
#include <span>

namespace {
enum { BODY_END = 30, LOCALS_DEAD, STOP_ASKED, REQ, JOIN };
struct Ctl {
  int id;
  std::coroutine_handle<> parked;
  int written = 0;               // by the body, read by the owner after joining
  int order = 0;                 // by the owner before it requests the stop, read by a body that saw the request
  std::atomic<int> published{0};  // set by the owner after its request
};
struct Local {
  Ctl& c;
  Probe p{21};
  ~Local() {
    MC_CHECK(p.get() == 21, "local damaged");
    mc_log(LOCALS_DEAD, c.id, 0);
  }
};
struct park {
  Ctl& c;
  bool yes;
  bool await_ready() { return !yes; }
  void await_suspend(std::coroutine_handle<> h) { c.parked = h; }
  void await_resume() {}
};
void look(Ctl& c, const dd::stop_token& tok) {
  bool must = c.published.load(std::memory_order_acquire) != 0;
  bool saw = tok.stop_requested();
  if (must) MC_CHECK(saw, "a stop request made before is not seen");
  if (saw) {
    MC_CHECK(log_count(STOP_ASKED, c.id) > 0, "a stop request was invented");
    MC_CHECK(c.order == 5, "what was done before the stop request is not visible");
  }
}
enum { LOOK, SPIN };
#define LT_BODY                                          \
  Local local{c};                                        \
  dd::stop_token tok = co_await dd::this_coro::stop_token; \
  MC_CHECK(!tok.stop_requested(), "stop requested from the start"); \
  co_await park{c, hops};                                \
  if (mode == SPIN)                                      \
    while (!tok.stop_requested()) {                      \
    }                                                    \
  look(c, tok);                                          \
  look(c, tok);                                          \
  c.written = 5;                                         \
  mc_log(BODY_END, c.id, 0);
dd::logical_thread lt(Ctl& c, bool hops, int mode) { LT_BODY }
dd::logical_thread_r<dd::pmr::polymorphic_resource> lt_r(Ctl& c, bool hops, int mode) { LT_BODY }
dd::logical_thread lt_arg(Ctl& c, bool hops, int mode, dd::with_pmr_resource) { LT_BODY }

void ask(Ctl& c) {  // the owner is about to request a stop, explicitly or not
  if (!log_count(STOP_ASKED, c.id)) {
    c.order = 5;
    mc_log(STOP_ASKED, c.id, 0);
  }
}
void joined(Ctl& c) { MC_CHECK(c.written == 5 && log_count(BODY_END, c.id) == 1 && log_count(LOCALS_DEAD, c.id) == 1, "joined before the coroutine ended"); }

bool held(dd::logical_thread& t) {
  MC_CHECK(t.joinable() == t.stop_possible(), "joinable %d, stop possible %d", t.joinable(), t.stop_possible());
  return t.joinable();
}
void owner(dd::logical_thread t, Ctl& c, int depth, bool must_stop) {
  MC_CHECK(held(t), "new logical thread is not joinable");
  for (int i = 0; i < depth; i++) {
    switch (mc::choose(9, "op")) {
      case 0:
        ask(c);
        return;  // destroy: stops and joins
      case 1: {
        if (must_stop) {
          ask(c);
          t.request_stop();
        }
        t.join();
        joined(c);
        MC_CHECK(!held(t) && !t.request_stop(), "joinable after join");
        return;
      }
      case 2:
        if (must_stop) {
          ask(c);
          t.request_stop();
        }
        t.detach();
        MC_CHECK(!held(t) && !t.request_stop(), "joinable after detach");
        return;
      case 3:
        ask(c);
        MC_CHECK(t.request_stop(), "stop refused");
        MC_CHECK(held(t), "not joinable after a stop request");
        c.published.store(1, std::memory_order_release);
        break;
      case 4: {
        dd::logical_thread u(std::move(t));
        MC_CHECK(!held(t) && held(u), "moved");
        MC_CHECK(!t.request_stop(), "empty one takes a stop request");
        t = std::move(u);
        MC_CHECK(held(t) && !held(u), "moved back");
        break;
      }
      case 5: {
        dd::logical_thread u;
        MC_CHECK(!held(u), "default constructed is joinable");
        swap(u, t);
        MC_CHECK(!held(t) && held(u), "swapped");
        u.swap(t);
        MC_CHECK(held(t) && !held(u), "swapped back");
        break;
      }
      case 6:
        ask(c);
        t = dd::logical_thread{};  // stops and joins
        joined(c);
        MC_CHECK(!held(t), "joinable after it was assigned over");
        return;
      case 7: {
        ask(c);
        dd::logical_thread u(std::move(t));
        return;  // both die
      }
      case 8:
        ask(c);
        dd::stop(t);
        joined(c);
        MC_CHECK(!held(t), "joinable after stop");
        return;
    }
  }
  ask(c);
}
void finish_checks(Ctl& c) {
  MC_CHECK(log_count(BODY_END, c.id) == 1, "the coroutine ended %d times", log_count(BODY_END, c.id));
  MC_CHECK(log_count(LOCALS_DEAD, c.id) == 1, "its locals were destroyed %d times", log_count(LOCALS_DEAD, c.id));
}
}  // namespace

MC_SCENARIO(look_vs_owner, 20, 20, "coroutine finishing on another thread x owner scripts") {
  Ctl c{1};
  auto t = lt(c, true, LOOK);
  std::thread f([h = c.parked] { h.resume(); });
  owner(std::move(t), c, mc::depth(3, 4), false);
  f.join();
  finish_checks(c);
}
MC_SCENARIO(spin_vs_owner, 7, 10, "coroutine working until it is stopped x owner scripts") {
  Ctl c{1};
  auto t = lt(c, true, SPIN);
  std::thread f([h = c.parked] { h.resume(); });
  owner(std::move(t), c, mc::depth(3, 4), true);
  f.join();
  finish_checks(c);
}
MC_SCENARIO(sequential, 0, 0, "ended at creation, or resumed by the owner's thread after detaching") {
  Ctl c{1};
  if (mc::flip("suspends")) {
    auto t = lt(c, true, LOOK);
    if (mc::flip("stop")) {
      ask(c);
      MC_CHECK(t.request_stop() && t.request_stop(), "stop refused");
      c.published = 1;
    }
    if (mc::flip("detach before")) {
      t.detach();
      MC_CHECK(!held(t), "joinable after detach");
      c.parked.resume();
    } else {
      c.parked.resume();
      owner(std::move(t), c, 3, false);
    }
  } else
    owner(lt(c, false, LOOK), c, mc::depth(4, 5), false);
  finish_checks(c);
}
// frames in memory resources: same life
MC_SCENARIO(resourced, 20, 20, "frames from a memory resource x finishing x join, detach, destroy") {
  Res r;
  Ctl c{1};
  {
    dd::pmr::pass_resource(r);
    dd::logical_thread t = mc::flip("arg") ? lt_arg(c, true, LOOK, dd::with_pmr_resource{r}) : dd::logical_thread(lt_r(c, true, LOOK));
    std::thread f([h = c.parked] { h.resume(); });
    owner(std::move(t), c, mc::depth(2, 3), false);
    f.join();
  }
  finish_checks(c);
}
// two running threads: assigned over, swapped
MC_SCENARIO(two_running, 6, 10, "assigning a running logical thread over a running one, swapping, chains of moves") {
  Ctl a{1}, b{2};
  {
    bool spin = mc::flip("work until stopped");
    auto ta = lt(a, true, spin ? SPIN : LOOK), tb = lt(b, true, spin ? SPIN : LOOK);
    std::thread fa([h = a.parked] { h.resume(); }), fb([h = b.parked] { h.resume(); });
    switch (mc::choose(4, "how")) {
      case 0:
        ask(a);
        ta = std::move(tb);
        joined(a);
        MC_CHECK(held(ta) && !held(tb), "assigned");
        ask(b);
        break;
      case 1:
        swap(ta, tb);
        ask(a);
        MC_CHECK(tb.request_stop(), "stop");
        tb.join();
        joined(a);
        MC_CHECK(held(ta) && !held(tb), "swapped");
        ask(b);
        break;
      case 2: {
        dd::logical_thread tc(std::move(ta));
        ta = std::move(tb);
        tb = std::move(tc);
        ask(b);
        ta.request_stop();
        ta.join();
        joined(b);
        ask(a);
        break;
      }
      case 3:
        ask(a);
        ask(b);
        dd::stop(tb, ta);
        joined(a);
        joined(b);
    }
    fa.detach();
    fb.detach();
  }
  joined(a);
  joined(b);
  mc_wait_quiescent();
  finish_checks(a);
  finish_checks(b);
}
// one thread ends only after the other has seen its stop request
namespace {
dd::logical_thread needs_other(Ctl& c, std::atomic<int>& mine, std::atomic<int>& other) {
  Local local{c};
  dd::stop_token tok = co_await dd::this_coro::stop_token;
  co_await park{c, true};
  while (!tok.stop_requested()) {
  }
  mine.store(1);
  while (!other.load()) {
  }
  look(c, tok);
  c.written = 5;
  mc_log(BODY_END, c.id, 0);
}
}  // namespace
MC_SCENARIO(stop_all, 4, 7, "stopping several that end only when all were asked to") {
  Ctl a{1}, b{2};
  std::atomic<int> sa{0}, sb{0};
  {
    auto ta = needs_other(a, sa, sb), tb = needs_other(b, sb, sa);
    std::thread fa([h = a.parked] { h.resume(); }), fb([h = b.parked] { h.resume(); });
    fa.detach();
    fb.detach();
    ask(a);
    ask(b);
    switch (mc::choose(4, "how")) {
      case 0: dd::stop(ta, tb); break;
      case 1: dd::stop(tb, ta); break;
      case 2: {
        std::array<dd::logical_thread, 2> v{std::move(ta), std::move(tb)};
        dd::stop(v);
        MC_CHECK(!held(v[0]) && !held(v[1]), "joinable after stop");
        break;
      }
      case 3: {
        std::array<dd::logical_thread, 2> v{std::move(tb), std::move(ta)};
        dd::stop(std::span(v));
        break;
      }
    }
    joined(a);
    joined(b);
  }
  mc_wait_quiescent();
  finish_checks(a);
  finish_checks(b);
}
namespace {
struct Fake {
  int id;
  bool request_stop() {
    mc_log(REQ, id, 0);
    return id != 1;  // of no consequence
  }
  void join() { mc_log(JOIN, id, 0); }
};
}  // namespace
MC_SCENARIO(stop_order, 0, 0, "0..4 arguments or elements: each asked once, before any is joined, each joined once") {
  Fake f[4] = {{0}, {1}, {2}, {3}};
  int n = mc::choose(5, "n");
  switch (mc::choose(4, "form")) {
    case 0:
      switch (n) {
        case 0: break;
        case 1: dd::stop(f[0]); break;
        case 2: dd::stop(f[0], f[1]); break;
        case 3: dd::stop(f[0], f[1], f[2]); break;
        case 4: dd::stop(f[0], f[1], f[2], f[3]); break;
      }
      break;
    case 1: dd::stop(std::span(f, n)); break;
    case 2: {
      std::vector<Fake> v(f, f + n);
      dd::stop(v);
      break;
    }
    case 3: {
      std::list<Fake> v(f, f + n);
      dd::stop(v);
      break;
    }
  }
  for (int i = 0; i < n; i++) {
    MC_CHECK(log_count(REQ, i) >= 1 && log_count(JOIN, i) == 1, "%d of %d: asked %d times, joined %d times", i, n, log_count(REQ, i), log_count(JOIN, i));
    for (int j = 0; j < n; j++) MC_CHECK(log_find(REQ, j) < log_find(JOIN, i), "%d joined before %d was asked", i, j);
  }
  MC_CHECK(mc_log_size() == 2 * n, "others touched");
}
// the coroutine moves over workers
namespace {
dd::logical_thread hopping(Ctl& c, dd::worker& a, dd::worker& b) {
  Local local{c};
  dd::stop_token tok = co_await dd::this_coro::stop_token;
  if (!co_await dd::jump_on(a)) co_return;
  look(c, tok);
  if (!co_await dd::jump_on(b)) co_return;
  dd::stop_token again = co_await dd::this_coro::stop_token;
  look(c, again);
  look(c, tok);
  c.written = 5;
  mc_log(BODY_END, c.id, 0);
}
}  // namespace
MC_SCENARIO(over_workers, 6, 9, "coroutine over two workers; owner joins, destroys, stops or detaches") {
  Ctl c{1};
  {
    dd::worker a, b;
    auto t = hopping(c, a, b);
    switch (mc::choose(4, "owner")) {
      case 0: t.join(); joined(c); break;
      case 1: ask(c); break;
      case 2:
        ask(c);
        t.request_stop();
        c.published.store(1, std::memory_order_release);
        t.join();
        break;
      case 3: t.detach(); mc_wait_quiescent(); break;
    }
  }
  finish_checks(c);
}
// the owner object ends on another thread than the one that created it
MC_SCENARIO(owner_moves_thread, 20, 20, "the owner object is handed to another thread while the coroutine finishes on a third") {
  Ctl c{1};
  {
    auto t = lt(c, true, LOOK);
    std::thread f([h = c.parked] { h.resume(); });
    std::thread o([u = std::move(t), &c, x = mc::choose(3, "end")]() mutable {
      if (x == 0) {
        u.join();
        joined(c);
      } else if (x == 1) u.detach();
      else ask(c);
    });
    f.join();
    o.join();
  }
  finish_checks(c);
}
MC_SCENARIO(stop_many, 0, 0, "300 elements, and 300 logical threads that end on the request") {
  constexpr int N = 300;
  if (mc::flip("real")) {
    static int stopped[N];
    std::vector<std::coroutine_handle<>> parked;
    auto body = [](int i, std::vector<std::coroutine_handle<>>& parked) -> dd::logical_thread {
      dd::stop_token tok = co_await dd::this_coro::stop_token;
      co_await dd::this_coro::suspend_and([&](std::coroutine_handle<> h) { parked.push_back(h); });
      stopped[i] = tok.stop_requested() ? 1 : 2;
    };
    std::vector<dd::logical_thread> v;
    for (int i = 0; i < N; i++) {
      stopped[i] = 0;
      v.push_back(body(i, parked));
    }
    for (int i = 0; i < N; i += 2) v[i].request_stop();
    for (int i = 0; i < N; i += 3) parked[i].resume();
    for (int i = 1; i < N; i += 2) v[i].request_stop();
    for (int i = 0; i < N; i++)
      if (i % 3) parked[i].resume();
    dd::stop(v);
    for (int i = 0; i < N; i++) MC_CHECK(stopped[i] == (i % 3 == 0 && i % 2 ? 2 : 1) && !v[i].joinable(), "thread %d: %d", i, stopped[i]);
  } else {
    std::vector<Fake> v;
    for (int i = 0; i < N; i++) v.push_back({i});
    dd::stop(v);
    int seen = 0;
    for (int i = 0; i < 2 * N; i++) {
      MC_CHECK(mc_log_tag(i) == (i < N ? REQ : JOIN), "%d", i);
      seen += mc_log_a(i);
    }
    MC_CHECK(mc_log_size() == 2 * N && seen == N * (N - 1), "not each of them");
  }
}
int main(int c, char** v) { return mc_main(c, v); }
