// C05: dd::latch under all schedules of count downs, waits and arrivals.
#include "common.h"
#include <kelcoro/latch.hpp>
#include <kelcoro/thread_pool.hpp>

enum { DOWN = 1, WOKE, ARRIVED };
static int data_[8];  // written before each count down, read by every released waiter

static int total_down() {
  int n = 0;
  for (int i = 0; i < mc_log_size(); i++)
    if (mc_log_tag(i) == DOWN) n += mc_log_b(i);
  return n;
}

struct World {
  int count;
  int writers = 0;
  void down(dd::latch& l, int who, int n) {
    data_[who] = who + 100;
    mc_log(DOWN, who, n);  // logged before: a waiter may only run after all of these
    l.count_down(n);
  }
  void released(int id, int nwriters) {
    MC_CHECK(total_down() == count, "waiter %d released after %d of %d count downs", id, total_down(), count);
    for (int i = 0; i < nwriters; i++) MC_CHECK(data_[i] == i + 100, "waiter %d misses what writer %d did", id, i);
    mc_log(WOKE, id, 0);
  }
};

// finishes and frees its frame right after being released
static co waiter(dd::latch& l, World& w, int id, int nwriters) {
  Probe local(id);
  co_await l.wait();
  MC_CHECK(local.get() == id, "frame damaged");
  w.released(id, nwriters);
}
static co arriver(dd::latch& l, World& w, int id, int n, int nwriters) {
  Probe local(id);
  data_[id] = id + 100;
  mc_log(DOWN, id, n);
  co_await l.arrive_and_wait(n);
  MC_CHECK(local.get() == id, "frame damaged");
  w.released(id, nwriters);
}
static void finish(dd::latch& l, int waiters, int first) {
  MC_CHECK(l.ready(), "not ready at the end");
  for (int i = first; i < first + waiters; i++) MC_CHECK(log_count(WOKE, i) == 1, "waiter %d resumed %d times", i, log_count(WOKE, i));
  std::string s;
  for (int i = 0; i < mc_log_size(); i++) s += (mc_log_tag(i) == DOWN ? "d" : "w") + std::to_string(mc_log_a(i)) + "@" + std::to_string(mc_log_tid(i)) + " ";
  mc_outcome("%s", s.c_str());
}
static void reset() { for (int& d : data_) d = 0; }

MC_SCENARIO(wait_vs_count_down, 12, 20, "1 waiter, 1 count down, on 2 threads") {
  reset();
  dd::this_thread_executor_t e;
  dd::latch l(1, e);
  World w{1};
  std::thread a([&] { waiter(l, w, 5, 1); });
  w.down(l, 0, 1);
  a.join();
  finish(l, 1, 5);
}
MC_SCENARIO(two_waiters_two_downs, 5, 7, "2 waiters and 2 count downs on 4 threads") {
  reset();
  dd::this_thread_executor_t e;
  dd::latch l(2, e);
  World w{2};
  std::thread a([&] { waiter(l, w, 5, 2); });
  std::thread b([&] { waiter(l, w, 6, 2); });
  std::thread c([&] { w.down(l, 1, 1); });
  w.down(l, 0, 1);
  a.join();
  b.join();
  c.join();
  finish(l, 2, 5);
}
MC_SCENARIO(waiters_on_one_thread, 6, 9, "2 waiters on one thread, one of 3 ways to count down 3 on two others") {
  reset();
  dd::this_thread_executor_t e;
  dd::latch l(3, e);
  World w{3};
  int k = mc::choose(3, "split");
  std::thread a([&] { waiter(l, w, 5, 2); waiter(l, w, 6, 2); });
  std::thread c([&] { w.down(l, 1, k == 0 ? 1 : 2); });
  if (k == 2) { data_[0] = 100; mc_log(DOWN, 0, 0); l.count_down(0); w.down(l, 0, 1); }
  else w.down(l, 0, k == 0 ? 2 : 1);
  a.join();
  c.join();
  finish(l, 2, 5);
}
MC_SCENARIO(arrive_and_wait_two, 12, 20, "2 coroutines arrive and wait on 2 threads") {
  reset();
  dd::this_thread_executor_t e;
  dd::latch l(2, e);
  World w{2};
  std::thread a([&] { arriver(l, w, 0, 1, 2); });
  arriver(l, w, 1, 1, 2);
  a.join();
  finish(l, 2, 0);
}
MC_SCENARIO(arrive_and_wait_three, 4, 7, "3 coroutines arrive and wait on 3 threads") {
  reset();
  dd::this_thread_executor_t e;
  dd::latch l(3, e);
  World w{3};
  std::thread a([&] { arriver(l, w, 0, 1, 3); });
  std::thread b([&] { arriver(l, w, 1, 1, 3); });
  arriver(l, w, 2, 1, 3);
  a.join();
  b.join();
  finish(l, 3, 0);
}
MC_SCENARIO(mixed, 6, 10, "arrive and wait (n = 0, 1 or 2), wait and count down on 3 threads") {
  reset();
  dd::this_thread_executor_t e;
  int n = mc::choose(3, "n");
  dd::latch l(n + 1, e);
  World w{n + 1};
  std::thread a([&] { arriver(l, w, 0, n, n ? 2 : 0); });
  std::thread b([&] { waiter(l, w, 2, n ? 2 : 0); });
  w.down(l, 1, 1);
  a.join();
  b.join();
  MC_CHECK(log_count(WOKE, 0) == 1 && log_count(WOKE, 2) == 1, "waiters resumed %d and %d times", log_count(WOKE, 0), log_count(WOKE, 2));
  MC_CHECK(l.ready(), "");
}
MC_SCENARIO(on_a_worker, 6, 9, "released through the executor: waiters go on on the worker's thread") {
  reset();
  {
    dd::worker wo;
    dd::latch l(2, wo);
    World w{2};
    auto id = wo.get_id();
    auto wt = [](dd::latch& l, World& w, int id, std::thread::id wid) -> co {
      bool was_ready = l.ready();
      co_await l.wait();
      if (!was_ready && std::this_thread::get_id() != wid) mc_outcome("not suspended");
      w.released(id, 2);
    };
    std::thread a([&] { wt(l, w, 5, id); w.down(l, 1, 1); });
    auto ar = [](dd::latch& l, World& w, std::thread::id wid) -> co {
      data_[0] = 100;
      mc_log(DOWN, 0, 1);
      co_await l.arrive_and_wait();
      MC_CHECK(std::this_thread::get_id() == wid, "released on another thread than the executor's");
      w.released(6, 2);
    };
    ar(l, w, id);
    a.join();
    mc_wait_quiescent();
    MC_CHECK(l.ready(), "");
    finish(l, 2, 5);
  }
}
// an executor that only stores nodes; a second thread runs them
struct Deferred {
  dd::nonowner_lockfree_stack<dd::task_node> s;
  void attach(dd::task_node* n) {
    mc_log(ARRIVED, 0, 0);
    s.push(n);
  }
  int run() {
    int k = 0;
    dd::task_node* n = s.try_pop_all();
    while (n) {
      auto* nx = n->next;
      n->task.resume();
      n = nx;
      k++;
    }
    return k;
  }
};
MC_SCENARIO(deferred_executor, 7, 11, "waiters are given to the executor once each and run by another thread while the release goes on") {
  reset();
  Deferred e;
  dd::latch l(1, e);
  World w{1};
  std::thread a([&] { waiter(l, w, 5, 1); waiter(l, w, 6, 1); });
  std::thread b([&] { e.run(); });
  w.down(l, 0, 1);
  a.join();
  b.join();
  e.run();
  int direct = 2 - log_count(ARRIVED);
  MC_CHECK(direct >= 0, "a waiter was attached twice");
  finish(l, 2, 5);
}
MC_SCENARIO(through_the_executor, 12, 16, "1 to 3 coroutines suspended before the count down: each is given to the executor, none is resumed by the count down itself") {
  reset();
  Deferred e;
  int k = 1 + mc::choose(3, "waiters"), arr = mc::choose(2, "arriver");
  dd::latch l(1 + arr, e);
  World w{1 + arr};
  for (int i = 0; i < k - arr; i++) waiter(l, w, 5 + i, 1 + arr);
  if (arr) arriver(l, w, 1, 1, 1);
  MC_CHECK(log_count(ARRIVED) == 0 && log_count(WOKE) == 0, "");
  std::thread b([&] { w.down(l, 0, 1); });
  b.join();
  MC_CHECK(log_count(ARRIVED) == k, "%d of %d waiters were given to the executor", log_count(ARRIVED), k);
  MC_CHECK(log_count(WOKE) == 0, "a waiter was resumed although its executor did not run it");
  std::thread c([&] { e.run(); });
  e.run();
  c.join();
  {  // what the latch names as its executor is the same one
    int before = log_count(ARRIVED);
    auto on = [](dd::latch& l) -> co {
      dd::schedule_status ok = co_await dd::jump_on(l.get_executor());
      MC_CHECK((bool)ok, "told that it was cancelled");
      mc_log(WOKE, 20, 0);
    };
    on(l);
    MC_CHECK(log_count(ARRIVED) == before + 1 && log_count(WOKE, 20) == 0, "another executor named");
    e.run();
    MC_CHECK(log_count(WOKE, 20) == 1, "");
  }
  finish(l, k - arr, 5);
  if (arr) MC_CHECK(log_count(WOKE, 1) == 1, "");
}
MC_SCENARIO(zero_and_queries, 20, 20, "a latch at zero never blocks; ready() before and after") {
  reset();
  dd::this_thread_executor_t e;
  int c = mc::choose(3, "count");
  dd::latch l(c, e);
  World w{c};
  MC_CHECK(l.ready() == (c == 0), "");
  int when = mc::choose(3, "when");
  if (when == 0) waiter(l, w, 5, 0);
  MC_CHECK(log_count(WOKE) == (c == 0 && when == 0), "");
  for (int i = 0; i < c; i++) {
    MC_CHECK(!l.ready(), "ready with %d left", c - i);
    if (i == c - 1 && when == 1) waiter(l, w, 5, 0);
    MC_CHECK(log_count(WOKE) == 0, "woken early");
    w.down(l, i, 1);
  }
  if (when == 2 || (when == 1 && c == 0)) waiter(l, w, 5, 0);
  MC_CHECK(l.ready(), "");
  MC_CHECK(log_count(WOKE, 5) == 1, "%d", log_count(WOKE, 5));
  auto ar = [](dd::latch& l) -> co { co_await l.arrive_and_wait(0); mc_log(WOKE, 9, 0); };
  ar(l);
  MC_CHECK(log_count(WOKE, 9) == 1, "arrive_and_wait(0) on a finished latch");
  MC_CHECK(&l != nullptr && dd::latch::max() == std::numeric_limits<ptrdiff_t>::max(), "");
}

struct Counting {
  int attached = 0;
  void attach(dd::task_node* n) noexcept {
    attached++;
    n->task.resume();
  }
};
MC_SCENARIO(zero_goes_on, 4, 8, "waiting on a latch at zero goes on at once and does not need the executor, not even if there is none to run it") {
  static std::thread::id on;
  Counting e;
  dd::noop_executor_t never;
  int c = mc::choose(3, "count"), waits = 0;
  const bool no = mc::flip("executor that runs nothing"), other = mc::flip("counted down by another thread");
  dd::latch l(c, no ? dd::any_executor_ref(never) : dd::any_executor_ref(e));
  if (c) {
    if (other) {
      std::thread([&] { l.count_down(c); }).join();
    } else
      for (int i = 0; i < c; i++) l.count_down();
  }
  auto w = [](dd::latch& l, int& n) -> co {
    for (int i = 0; i < 3; i++) {
      co_await l.wait();
      on = std::this_thread::get_id();
      n++;
    }
  };
  w(l, waits);
  MC_CHECK(waits == 3 && on == std::this_thread::get_id(), "%d waits are over", waits);
  MC_CHECK(e.attached == 0, "waiting on a latch at zero used the executor");
}
MC_SCENARIO(big, 0, 1, "200 waiters, counts beyond 32 bits, big and small steps") {
  dd::this_thread_executor_t e;
  const ptrdiff_t counts[] = {70000, (ptrdiff_t(1) << 32) + 5, ptrdiff_t(1) << 62, dd::latch::max()};
  ptrdiff_t c = counts[mc::choose(4, "count")];
  dd::latch l(c, e);
  static std::atomic<int> woke;
  woke = 0;
  auto w = [](dd::latch& l) -> co { co_await l.wait(); woke.fetch_add(1); };
  for (int i = 0; i < 200; i++) w(l);
  ptrdiff_t left = c;
  for (ptrdiff_t step : {ptrdiff_t(1), ptrdiff_t(256), ptrdiff_t(65536), c - 65536 - 257 - 3}) {
    if (step > left - 3) step = left - 3;
    l.count_down(step);
    left -= step;
    MC_CHECK(!l.ready() && woke == 0, "%ld left, %d awake", (long)left, woke.load());
  }
  l.count_down(left - 1);
  MC_CHECK(!l.ready() && woke == 0, "one left, %d awake", woke.load());
  std::thread a([&] { w(l); });
  l.count_down();
  a.join();
  MC_CHECK(l.ready() && woke == 201, "%d awake", woke.load());
}

int main(int c, char** v) { return mc_main(c, v); }
