// C27: fire-and-forget jobs and scheduled callables
#include <cstring>
#include "exec.h"
#include "res.h"
#include <kelcoro/events.hpp>
#include <kelcoro/job.hpp>

namespace {
enum { START = 20, STEP, END, DEAD, CALL, BORN };

// lives in the frame: its destruction is logged
struct Tag {
  int id;
  bool own = true;
  Probe p;
  Tag(int id) : id(id), p(id) {}
  Tag(Tag&& o) noexcept : id(o.id), own(std::exchange(o.own, false)), p(std::move(o.p)) {}
  Tag(const Tag& o) = delete;
  ~Tag() {
    if (own) {
      MC_CHECK(p.get() == id, "object %d damaged", id);
      mc_log(DEAD, id, 0);
    }
  }
};
// what a stopping executor does with what was never run
void cancel_all(dd::task_queue& q) {
  for (dd::task_node* n = q.pop_all(); n;) {
    std::coroutine_handle<> h = n->task;
    n->status = dd::schedule_errc::cancelled;
    n = n->next;
    h.resume();
  }
}
// a job over up to two executors; hops[i]: 0 worker a, 1 worker b, 2 inline, 3 new thread
struct Places {
  dd::worker *a, *b;
};
template <typename R>
dd::job hop(Places w, int id, Tag arg, std::vector<int> hops, R) {
  Tag local(id + 1);
  mc_log(START, id, mc_self());
  for (int h : hops) {
    bool ok;
    switch (h) {
      case 0: ok = (bool)co_await dd::jump_on(*w.a); break;
      case 1: ok = (bool)co_await dd::jump_on(*w.b); break;
      case 2: ok = (bool)co_await dd::jump_on(dd::this_thread_executor); break;
      default: ok = (bool)co_await dd::jump_on(dd::new_thread_executor); break;
    }
    MC_CHECK(arg.p.get() == id && local.p.get() == id + 1, "frame damaged");
    mc_log(STEP, id, ok);
    if (!ok) break;
    if (h == 0) MC_CHECK(std::this_thread::get_id() == w.a->get_id(), "wrong thread");
    if (h == 1) MC_CHECK(std::this_thread::get_id() == w.b->get_id(), "wrong thread");
  }
  mc_log(END, id, 0);
}
struct none {};
void dead_once(int id) {
  MC_CHECK(log_count(END, id) == 1, "body of job %d ended %d times", id, log_count(END, id));
  for (int k : {id, id + 1}) {
    MC_CHECK(log_count(DEAD, k) == 1, "object %d of the job was destroyed %d times", k, log_count(DEAD, k));
    MC_CHECK(log_find(DEAD, k) > log_find(END, id), "object %d destroyed before the end of the body", k);
  }
}
void started_here(int id) {
  int i = log_find(START, id);
  MC_CHECK(i >= 0, "job %d did not start when called", id);
  MC_CHECK(mc_log_b(i) == mc_self(), "job %d did not start on the caller's thread", id);
}
template <typename R>
void hops_scenario(R r) {
  {
    dd::worker a, b;
    int n = mc::choose(3, "hops");
    std::vector<int> h;
    for (int i = 0; i < n; i++) h.push_back(mc::choose(4, "hop"));
    dd::job j = hop(Places{&a, &b}, 1, Tag(1), h, r);
    started_here(1);
    // whatever happens to the object the job goes on
    switch (mc::choose(3, "return object")) {
      case 0: break;
      case 1: j = dd::job{}; break;
      case 2: {
        dd::job k = j;
        j = k;
        (void)k;
      }
    }
    mc_wait_quiescent();
    dead_once(1);
  }
  dead_once(1);
}
}  // namespace
MC_SCENARIO(hops, 7, 11, "a job over up to 2 hops on workers, inline, new threads; its object is dropped or copied") { hops_scenario(none{}); }
MC_SCENARIO(hops_resource, 7, 11, "the same with its frame on a resource") {
  Res r;
  hops_scenario(dd::with_pmr_resource(r));
  MC_CHECK(r.count == 1 && r.live.empty(), "frame memory");
}
MC_SCENARIO(cancelled, 7, 11, "the executors die: jobs end by cancelled jumps and free themselves") {
  {
    std::optional<dd::worker> a, b;
    a.emplace();
    b.emplace();
    hop(Places{&*a, &*a}, 1, Tag(1), {0, 1}, none{});
    hop(Places{&*b, &*b}, 11, Tag(11), {1}, none{});
    started_here(1);
    started_here(11);
    b.reset();
    a.reset();
  }
  dead_once(1);
  dead_once(11);
}
// resumed with a cancelled status by hand
MC_SCENARIO(cancelled_queue, 0, 0, "a queue that nobody serves is cancelled: each job ends once") {
  int n = mc::choose(4, "jobs");
  {
    dd::task_queue q;
    auto one = [](dd::task_queue& q, int id, Tag arg) -> dd::job {
      Tag local(id + 1);
      mc_log(START, id, mc_self());
      bool ok = (bool)co_await dd::jump_on(q);
      MC_CHECK(!ok, "a cancelled jump reports success");
      mc_log(END, id, 0);
    };
    for (int i = 0; i < n; i++) {
      one(q, i * 10 + 1, Tag(i * 10 + 1));
      started_here(i * 10 + 1);
    }
    cancel_all(q);
  }
  for (int i = 0; i < n; i++) dead_once(i * 10 + 1);
}
// jobs that start jobs, on an event resumed from another thread
static dd::job waits(dd::event<void>& e, int id, Tag arg, int children) {
  Tag local(id + 1);
  mc_log(START, id, mc_self());
  if (children) {
    waits(e, id + 10, Tag(id + 10), children - 1);
    started_here(id + 10);
  }
  co_await e;
  MC_CHECK(arg.p.get() == id && local.p.get() == id + 1, "frame damaged");
  mc_log(END, id, 0);
}
MC_SCENARIO(tree_on_event, 20, 20, "jobs started by jobs, resumed from two threads") {
  dd::event<void> e;
  waits(e, 1, Tag(1), 2);
  started_here(1);
  auto n = [&] { e.notify_all(dd::this_thread_executor); };
  std::thread a(n), b(n);
  a.join();
  b.join();
  for (int id : {1, 11, 21}) dead_once(id);
}

// callables -----------------------------------------------------------------------------------------
namespace {
int copies;  // made of a callable
struct Counting {
  int id;
  bool own = true;
  Probe p;
  Counting(int id) : id(id), p(id) {}
  Counting(Counting&& o) noexcept : id(o.id), own(std::exchange(o.own, false)), p(std::move(o.p)) {}
  Counting(const Counting& o) : id(o.id), p(o.p) {
    MC_CHECK(o.own, "copied after it was moved from");
    copies++;
    mc_log(BORN, id, 0);
  }
  ~Counting() {
    if (own) mc_log(DEAD, id, 0);
  }
  void operator()() {
    MC_CHECK(own && p.get() == id, "callable %d damaged", id);
    mc_log(CALL, id, mc_self());
    mc_point("in the callable");
    MC_CHECK(own && p.get() == id, "callable %d damaged while it ran", id);
    mc_log(ENDRUN, id, 0);
  }
};
struct MoveOnly : Counting {
  MoveOnly(int id) : Counting(id) {}
  MoveOnly(MoveOnly&&) = default;
};
// after all: invoked (or not) at most once, destroyed once after that
void callable_done(int id, bool must_run) {
  int runs = log_count(CALL, id), lives = 1 + log_count(BORN, id);
  MC_CHECK(runs <= 1 && (!must_run || runs == 1), "callable %d was invoked %d times", id, runs);
  MC_CHECK(log_count(DEAD, id) == lives, "callable %d: %d instances, %d destroyed", id, lives, log_count(DEAD, id));
  if (runs) MC_CHECK(log_find(DEAD, id, log_find(ENDRUN, id)) >= 0, "callable %d was destroyed before its invocation ended", id);
}
template <typename E>
void schedule_kind(E& e, int id, int kind, Res& r) {
  copies = 0;
  switch (kind) {
    case 0: dd::schedule_to(e, Counting(id)); break;
    case 1: dd::schedule_to(e, MoveOnly(id)); break;
    case 2: {
      Counting c(id);
      dd::schedule_to(e, c);
      MC_CHECK(copies == 1, "%d copies of an lvalue", copies);
      return;
    }
    case 3: dd::schedule_to(e, MoveOnly(id), dd::with_pmr_resource(r)); break;
    case 4: {
      Counting c(id);
      dd::schedule_to(e, std::move(c), dd::with_pmr_resource(r));
      break;
    }
  }
  MC_CHECK(copies == 0, "an rvalue callable was copied %d times", copies);
}
}  // namespace
MC_SCENARIO(callable_worker, 12, 20, "every kind of callable scheduled to a worker that runs it or dies before") {
  Res r;
  int kind = mc::choose(5, "kind");
  bool wait = mc::flip("wait");
  {
    dd::worker w;
    schedule_kind(w, 1, kind, r);
    if (wait) mc_wait_quiescent();
  }
  callable_done(1, wait);
  MC_CHECK(r.live.empty() && r.count == (kind >= 3), "frame memory: %d allocations", r.count);
}
MC_SCENARIO(callable_inline, 0, 0, "every kind of callable scheduled inline: runs before schedule_to returns, on this thread") {
  Res r;
  int kind = mc::choose(5, "kind");
  schedule_kind(dd::this_thread_executor, 1, kind, r);
  MC_CHECK(log_count(CALL, 1) == 1 && mc_log_b(log_find(CALL, 1)) == 0, "not run inline");
  callable_done(1, true);
  MC_CHECK(r.live.empty() && r.count == (kind >= 3), "frame memory");
}
MC_SCENARIO(callable_new_thread, 20, 20, "every kind of callable scheduled to a new thread") {
  Res r;
  int kind = mc::choose(5, "kind");
  schedule_kind(dd::new_thread_executor, 1, kind, r);
  mc_wait_quiescent();
  MC_CHECK(mc_log_b(log_find(CALL, 1)) != 0, "not run on a fresh thread");
  callable_done(1, true);
  MC_CHECK(r.live.empty() && r.count == (kind >= 3), "frame memory");
}
MC_SCENARIO(callable_pool, 9, 14, "callables scheduled to a pool by schedule(), with and without hash; the pool dies") {
  Res r;
  int kind = mc::choose(3, "kind");
  bool hash = mc::flip("hash");
  {
    dd::thread_pool p(1 + mc::choose(2, "threads"), dd::default_worker_job, r);
    copies = 0;
    Counting c(1);
    if (kind == 0) hash ? p.schedule(Counting(2), 1) : p.schedule(Counting(2));
    if (kind == 1) hash ? p.schedule(MoveOnly(2), 1) : p.schedule(MoveOnly(2));
    if (kind == 2) {
      Counting d(2);
      hash ? p.schedule(d, 1) : p.schedule(d);
      MC_CHECK(copies == 1, "%d copies", copies);
    } else MC_CHECK(copies == 0, "%d copies", copies);
    if (mc::flip("wait")) {
      mc_wait_quiescent();
      MC_CHECK(log_count(CALL, 2) == 1, "not run");
    }
  }
  callable_done(2, false);
  MC_CHECK(r.live.empty(), "memory");
}
MC_SCENARIO(callable_cancelled, 0, 0, "callables of a queue that is cancelled are destroyed, not invoked") {
  Res r;
  int kind = mc::choose(5, "kind");
  {
    dd::task_queue q;
    schedule_kind(q, 1, kind, r);
    MC_CHECK(log_count(CALL, 1) == 0, "ran");
    cancel_all(q);
  }
  MC_CHECK(log_count(CALL, 1) == 0, "a cancelled callable was invoked");
  callable_done(1, false);
  MC_CHECK(r.live.empty() && r.count == (kind >= 3), "frame memory");
}
// a callable that schedules another one and ends the one it was scheduled with
static void chain(dd::worker& w, int left) {
  if (left) dd::schedule_to(w, [&w, left, x = Probe(left)] {
    MC_CHECK(x.get() == left, "callable damaged");
    chain(w, left - 1);
    MC_CHECK(x.get() == left, "callable damaged");
    mc_log(CALL, left, 0);
  });
}
MC_SCENARIO(callable_chain, 12, 20, "callables that schedule the next one to their own worker") {
  {
    dd::worker w;
    chain(w, 3);
    mc_wait_quiescent();
    for (int i = 1; i <= 3; i++) MC_CHECK(log_count(CALL, i) == 1, "callable %d ran %d times", i, log_count(CALL, i));
  }
}
// callables of other kinds
namespace {
int fp_runs;
void plain_function() { fp_runs++; }
struct OddFunctor {  // its & is no address, and it has overloads
  Probe p{9};
  int* n;
  NO_ADDRESS_OF(OddFunctor)
  void operator()() { MC_CHECK(p.get() == 9, "callable damaged"); ++*n; }
  void operator()(int) { mc_fail("the wrong overload"); }
};
struct BigFunctor {
  unsigned char a[40000];
  int* n;
  void operator()() {
    for (auto x : a)
      if (x != 0x3C) mc_fail("callable damaged");
    ++*n;
  }
};
template <typename E>
void odd_callable(E& e, int kind, int& n) {
  switch (kind) {
    case 0: fp_runs = 0; dd::schedule_to(e, plain_function); break;
    case 1: fp_runs = 0; dd::schedule_to(e, &plain_function); break;
    case 2: {
      OddFunctor f;
      f.n = &n;
      dd::schedule_to(e, f);
      break;
    }
    case 3: {
      BigFunctor f;
      memset(f.a, 0x3C, sizeof f.a);
      f.n = &n;
      dd::schedule_to(e, f);
      break;
    }
    case 4: {
      const auto f = [&n] { ++n; };
      dd::schedule_to(e, f);
      break;
    }
    case 5: {
      std::function<void()> f = [&n, p = Probe(4)] {
        MC_CHECK(p.get() == 4, "callable damaged");
        ++n;
      };
      dd::schedule_to(e, std::move(f));
      break;
    }
    case 6: dd::schedule_to(e, [&n, p = std::make_unique<int>(4)]() mutable {
      MC_CHECK(*p == 4, "callable damaged");
      ++n;
      return std::move(p);  // whatever it returns is dropped
    }); break;
    case 7: dd::schedule_to(e, [&n]() noexcept { ++n; }, dd::with_default_resource{}); break;
    case 8: {
      int x = 0;
      auto f = [&n, &x]() mutable { n += ++x; };
      dd::schedule_to(e, std::ref(f));
      mc_wait_quiescent();
      break;
    }
  }
}
}  // namespace
MC_SCENARIO(odd_callables, 0, 2, "functions, big, odd, const, returning, wrapped callables; inline, to a worker, to a pool, to a queue that is cancelled") {
  int kind = mc::choose(9, "kind"), n = 0;
  int where = mc::choose(4, "executor");
  if (where == 0) odd_callable(dd::this_thread_executor, kind, n);
  else if (where == 1) {
    dd::worker w;
    odd_callable(w, kind, n);
    mc_wait_quiescent();
  } else if (where == 2) {
    dd::thread_pool p(2);
    odd_callable(p, kind, n);
    mc_wait_quiescent();
  } else {
    dd::task_queue q;
    if (kind != 8) odd_callable(q, kind, n);
    cancel_all(q);
  }
  if (kind < 2) n = fp_runs;
  MC_CHECK(n == (where < 3), "ran %d times", n);
}
MC_SCENARIO(many_callables, 0, 1, "600 callables in a row to one worker, a third of them schedules another one") {
  constexpr int N = 600;
  static int runs[2 * N];
  for (int& x : runs) x = 0;
  {
    dd::worker w;
    for (int i = 0; i < N; i++)
      dd::schedule_to(w, [&w, i, p = Probe(i)] {
        MC_CHECK(p.get() == i, "callable damaged");
        runs[i]++;
        if (i % 3 == 0) dd::schedule_to(w, [i, p = Probe(i)] { runs[N + i] += p.get() == i; });
      });
    mc_wait_quiescent();
  }
  for (int i = 0; i < N; i++) MC_CHECK(runs[i] == 1 && runs[N + i] == (i % 3 == 0), "callable %d ran %d times, its own %d", i, runs[i], runs[N + i]);
}
int main(int c, char** v) { return mc_main(c, v); }
