// C02: work of one queue runs one at a time, in submission order; equal hashes, equal queue.
#include "exec.h"
#include <kelcoro/task.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/logical_thread.hpp>
#include <functional>
#include <semaphore>

static int guarded;       // written by every piece of work: overlapping or unordered work is a race
static std::atomic<int> inside;

// one at a time and in the order of submissions: a submission that ended before another began runs first
static void check_order(const std::vector<int>& ids) {
  for (int i : ids)
    for (int j : ids)
      if (i != j && log_find(SUBMITTED, i) >= 0 && log_find(SUBMIT, j) >= 0 && log_find(SUBMITTED, i) < log_find(SUBMIT, j)) {
        int ri = log_find(RUN, i), rj = log_find(RUN, j);
        MC_CHECK(ri >= 0 && rj >= 0, "work %d or %d did not run", i, j);
        MC_CHECK(ri < rj, "work %d was submitted before %d but ran after it", i, j);
        int ei = log_find(ENDRUN, i);
        MC_CHECK(ei >= 0 && ei < rj, "work %d ran while %d was running", j, i);
      }
}
struct Job {
  int id;
  Probe p;
  Job(int id) : id(id), p(id) {}
  void operator()() {
    MC_CHECK(inside.exchange(1) == 0, "two pieces of work at once");
    MC_CHECK(sent[id] == id + 1000, "effects of the submitter not visible");
    guarded++;
    mc_log(RUN, id, 0);
    mc_point("work");
    guarded++;
    mc_log(ENDRUN, id, 0);
    inside.store(0, std::memory_order_relaxed);
  }
};
template <typename E>
static co jmp(E& e, int id) {
  Job j(id);
  if (co_await dd::jump_on(e)) j();
}
template <typename E>
static void sub(E& e, int id, int kind) {
  submit_begin(id);
  if (kind) dd::schedule_to(e, Job(id));
  else jmp(e, id);
  submit_end(id);
}
static void reset() {
  guarded = 0;
  inside = 0;
}
MC_SCENARIO(worker, 4, 6, "2 threads x 3 submissions to a worker, jumps and callables mixed") {
  reset();
  dd::worker w;
  std::thread a([&] { sub(w, 0, 0); sub(w, 1, 1); sub(w, 2, 0); });
  sub(w, 3, 1);
  sub(w, 4, 0);
  sub(w, 5, 1);
  a.join();
  mc_wait_quiescent();
  all_ran_once(0, 6);
  check_order({0, 1, 2, 3, 4, 5});
  order_outcome();
}
MC_SCENARIO(submitted_across_threads, 5, 8, "a submission that follows another one by a join or a flag runs after it") {
  reset();
  dd::worker w;
  static std::atomic<int> flag;
  flag = 0;
  std::thread a([&] { sub(w, 0, 0); flag.store(1); sub(w, 1, 1); });
  if (flag.load()) sub(w, 2, 0);
  else sub(w, 3, 0);
  a.join();
  sub(w, 4, 1);
  mc_wait_quiescent();
  check_order({0, 1, 2, 3, 4});
  order_outcome();
}
static co chain(dd::worker& w, int id) {
  submit_begin(id);
  co_await dd::jump_on(w);
  Job{id}();
  sub(w, id + 1, 1);
  sub(w, id + 2, 0);
  submit_begin(id + 3);
  auto s = dd::jump_on(w);
  mc_log(SUBMITTED, id + 3, 0);
  co_await s;
  Job{id + 3}();
}
MC_SCENARIO(from_inside, 6, 10, "work that submits to its own worker runs after what was queued before it") {
  reset();
  dd::worker w;
  chain(w, 0);
  sub(w, 10, 0);
  std::thread a([&] { sub(w, 11, 1); });
  a.join();
  mc_wait_quiescent();
  for (int i : {0, 1, 2, 3, 10, 11}) all_ran_once(i, i + 1);
  check_order({0, 1, 2, 10, 11});
  MC_CHECK(log_find(RUN, 2) < log_find(RUN, 3), "");
  order_outcome();
}
static raw_co rc(int id) {
  Job{id}();
  co_return;
}
MC_SCENARIO(lists, 4, 7, "lists of 3 and 2 and single nodes from 2 threads keep their order, also contiguity") {
  reset();
  dd::worker w;
  auto& q = dd::strand(w).get_queue();
  static raw_co c[7];
  static dd::task_node n[7];
  for (int i = 0; i < 7; i++) {
    c[i] = rc(i);
    n[i] = dd::task_node{nullptr, c[i].h};
  }
  n[0].next = &n[1];
  n[1].next = &n[2];
  n[4].next = &n[5];
  int how = mc::choose(2, "how");
  std::thread a([&] {
    for (int i : {0, 1, 2}) submit_begin(i);
    if (how) q.push_list(&n[0], &n[2]);
    else q.push_list(&n[0]);
    for (int i : {0, 1, 2}) submit_end(i);
    submit_begin(3);
    q.push(&n[3]);
    submit_end(3);
  });
  for (int i : {4, 5}) submit_begin(i);
  q.push_list(&n[4]);
  for (int i : {4, 5}) submit_end(i);
  submit_begin(6);
  w.attach(&n[6]);
  submit_end(6);
  a.join();
  mc_wait_quiescent();
  all_ran_once(0, 7);
  check_order({0, 3, 4, 6});
  auto at = [](int i) { return log_find(RUN, i); };
  auto next_run = [](int from) {
    int i = log_find(RUN, -1, from + 1);
    return i < 0 ? -1 : (int)mc_log_a(i);
  };
  MC_CHECK(next_run(at(0)) == 1 && next_run(at(1)) == 2, "the list 0 1 2 was not run in order, without a gap");
  MC_CHECK(next_run(at(4)) == 5, "the list 4 5 was not run in order, without a gap");
  for (auto& x : c) x.h.destroy();
  order_outcome();
}
MC_SCENARIO(two_workers_independent, 2, 3, "order per worker when 2 threads feed 2 workers") {
  reset();
  static int own[2];
  own[0] = own[1] = 0;
  dd::worker w[2];
  auto feed = [&](int t) {
    for (int i = 0; i < 2; i++)
      for (int k = 0; k < 2; k++) {
        int id = t * 10 + k * 2 + i;
        submit_begin(id);
        dd::schedule_to(w[k], [id, k] { own[k]++; mc_log(RUN, id, 0); mc_log(ENDRUN, id, 0); });
        submit_end(id);
      }
  };
  std::thread a(feed, 0);
  feed(1);
  a.join();
  mc_wait_quiescent();
  check_order({0, 1, 10, 11});
  check_order({2, 3, 12, 13});
}
MC_SCENARIO(pool_same_hash, 4, 6, "2 threads schedule to a pool of 2 under one hash (0, 4 or 7; also through a strand and hash + 2)") {
  reset();
  dd::thread_pool p(2);
  const size_t hashes[] = {4, 7, 0};
  size_t h = hashes[mc::choose(3, "hash")];
  dd::strand s = p.get_strand(h + 2);
  std::thread a([&] {
    submit_begin(0);
    p.schedule(Job(0), h);
    submit_end(0);
    submit_begin(1);
    p.schedule(Job(1), h);
    submit_end(1);
  });
  sub(s, 2, 0);
  submit_begin(3);
  p.schedule(Job(3), h);
  submit_end(3);
  a.join();
  mc_wait_quiescent();
  all_ran_once(0, 4);
  check_order({0, 1, 2, 3});
  order_outcome();
}
// the operation hash of a coroutine: every jump of it goes to the same worker and sees its queue's order
static co same_coro(dd::thread_pool& p, int id, int* runs) {
  std::thread::id first;
  for (int i = 0; i < 3; i++) {
    MC_CHECK((bool)co_await dd::jump_on(p), "");
    if (i == 0) first = std::this_thread::get_id();
    MC_CHECK(std::this_thread::get_id() == first, "the same coroutine ran on two workers");
    auto h = co_await dd::this_coro::operation_hash;
    auto hh = co_await dd::this_coro::handle;
    MC_CHECK(h == dd::calculate_operation_hash(hh), "");
    MC_CHECK(&p.select_queue(h) == &p.get_strand(h).get_queue(), "");
    int ix = &p.select_queue(h) - p.queues_range().data();
    MC_CHECK(p.workers_range()[ix].get_id() == first, "the jump used another queue than the one of the coroutine's hash");
  }
  ++*runs;
}
MC_SCENARIO(pool_same_coroutine, 5, 8, "coroutines that jump on a pool of 3 again and again stay on their worker") {
  reset();
  dd::thread_pool p(3);
  static int runs[2];
  runs[0] = runs[1] = 0;
  same_coro(p, 0, &runs[0]);
  same_coro(p, 1, &runs[1]);
  mc_wait_quiescent();
  MC_CHECK(runs[0] == 1 && runs[1] == 1, "");
}
static co attach_vs_jump(dd::thread_pool& p, dd::task_node* n, bool* done) {
  struct aw {
    dd::thread_pool& p;
    dd::task_node* n;
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> h) {
      n->task = h;
      auto& p_ = p;
      p_.attach(n);
    }
    void await_resume() {}
  };
  MC_CHECK((bool)co_await dd::jump_on(p), "");
  auto id = std::this_thread::get_id();
  co_await aw{p, n};
  MC_CHECK(std::this_thread::get_id() == id, "attach and jump_on send the same coroutine to different workers");
  *done = true;
}
MC_SCENARIO(pool_attach_and_jump, 3, 6, "attach and jump_on agree on the queue of a coroutine (pools of 1 to 4)") {
  reset();
  dd::thread_pool p(1 + mc::choose(4, "threads"));
  static dd::task_node n[3];
  static bool done[3];
  for (int i = 0; i < 3; i++) attach_vs_jump(p, &n[i], &done[i]);
  mc_wait_quiescent();
  for (bool& d : done) {
    MC_CHECK(d, "");
    d = false;
  }
}
// every kind of coroutine, whoever awaits it: one queue, in whatever way it gets to the pool
namespace {
struct by_attach : dd::task_node {
  dd::thread_pool& p;
  explicit by_attach(dd::thread_pool& p) : p(p) {}
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) {
    task = h;
    auto& p_ = p;
    p_.attach(this);
  }
  dd::schedule_status await_resume() { return dd::schedule_status{status}; }
};
int stayed;
#define ALL_WAYS                                                                                                        \
  MC_CHECK((bool)co_await dd::jump_on(p), "");                                                                          \
  auto id = std::this_thread::get_id();                                                                                 \
  MC_CHECK((bool)co_await by_attach(p), "");                                                                            \
  MC_CHECK(std::this_thread::get_id() == id, "attach and jump_on send the same coroutine to different workers");        \
  dd::any_executor_ref ref(p);                                                                                          \
  MC_CHECK((bool)co_await dd::jump_on(ref), "");                                                                        \
  MC_CHECK(std::this_thread::get_id() == id, "a reference to the pool sends the coroutine to another worker");          \
  MC_CHECK((bool)co_await dd::jump_on(p), "");                                                                          \
  MC_CHECK(std::this_thread::get_id() == id, "the coroutine went to another worker");                                   \
  stayed++;
dd::job ways_job(dd::thread_pool& p, auto...) { ALL_WAYS }
dd::async_task<void> ways_async(dd::thread_pool& p, auto...) { ALL_WAYS }
dd::logical_thread ways_logical(dd::thread_pool& p, auto...) { ALL_WAYS }
dd::task<int> ways_task(dd::thread_pool& p, auto...) {
  ALL_WAYS
  co_return 1;
}
dd::task<int> ways_outer(dd::thread_pool& p) {
  {
    ALL_WAYS
    int r = co_await ways_task(p);
    MC_CHECK(r == 1, "");
    // back to where this coroutine belongs
    MC_CHECK((bool)co_await dd::jump_on(p), "");
    MC_CHECK(std::this_thread::get_id() == id, "the coroutine went to another worker after awaiting another one");
  }
  co_return 2;
}
dd::channel<int> ways_leaf(dd::thread_pool& p) {
  ALL_WAYS
  co_yield 1;
}
dd::channel<int> ways_channel(dd::thread_pool& p) {
  ALL_WAYS
  co_yield dd::elements_of(ways_leaf(p));
  MC_CHECK((bool)co_await dd::jump_on(p), "");
  MC_CHECK(std::this_thread::get_id() == id, "the coroutine went to another worker after yielding another one's elements");
  co_yield 2;
  MC_CHECK((bool)co_await dd::jump_on(p), "");
  MC_CHECK(std::this_thread::get_id() == id, "the coroutine went to another worker after a value");
}
dd::job consume(dd::thread_pool& p) {
  ALL_WAYS
  auto c = ways_channel(p);
  while (auto* v = co_await c.next()) MC_CHECK(*v == 1 || *v == 2, "");
  MC_CHECK((bool)co_await dd::jump_on(p), "");
  MC_CHECK(std::this_thread::get_id() == id, "the coroutine went to another worker after consuming a channel");
}
}  // namespace
MC_SCENARIO(every_coroutine, 1, 2, "jobs, async tasks, logical threads, (nested) tasks and channels, of two allocation flavours, stay on one worker however they get to the pool") {
  stayed = 0;
  dd::thread_pool p(2 + mc::choose(4, "threads"));
  auto& r = *std::pmr::new_delete_resource();
  int expect = 1;
  switch (mc::choose(9, "kind")) {
    case 0: ways_job(p); break;
    case 1: ways_job(p, dd::with_pmr_resource{r}); break;
    case 2: { auto a = ways_async(p); a.wait(); break; }
    case 3: { auto a = ways_async(p, dd::with_pmr_resource{r}); a.wait(); break; }
    case 4: ways_logical(p).detach(); break;
    case 5: ways_logical(p, dd::with_pmr_resource{r}).detach(); break;
    case 6: MC_CHECK(ways_task(p, dd::with_pmr_resource{r}).get() == 1, ""); break;
    case 7:
      expect = 2;
      MC_CHECK(ways_outer(p).get() == 2, "");
      break;
    case 8:
      expect = 3;
      consume(p);
      break;
  }
  mc_wait_quiescent();
  MC_CHECK(stayed == expect, "%d of %d coroutines went on", stayed, expect);
}
static co many_jumps(dd::thread_pool& p, int times, int* runs) {
  std::thread::id first;
  for (int i = 0; i < times; i++) {
    MC_CHECK((bool)co_await dd::jump_on(p), "");
    if (i == 0) first = std::this_thread::get_id();
    MC_CHECK(std::this_thread::get_id() == first, "jump %d took the coroutine to another worker", i);
  }
  ++*runs;
}
MC_SCENARIO(long_history, 0, 0, "600 jumps of a coroutine and 600 callables of each of two hashes: neither worker nor order changes") {
  dd::thread_pool p(2);
  static int runs, seq[2];
  runs = seq[0] = seq[1] = 0;
  many_jumps(p, 600, &runs);
  static std::thread::id at[2];
  at[0] = at[1] = {};
  for (int i = 0; i < 600; i++)
    for (int h = 0; h < 2; h++)
      p.schedule([i, h] {
        MC_CHECK(seq[h]++ == i, "callable %d of hash %d ran at place %d", i, h, seq[h] - 1);
        if (i == 0) at[h] = std::this_thread::get_id();
        MC_CHECK(std::this_thread::get_id() == at[h], "callable %d of hash %d went to another worker", i, h);
      }, h);
  mc_wait_quiescent();
  MC_CHECK(runs == 1 && seq[0] == 600 && seq[1] == 600, "%d %d %d", runs, seq[0], seq[1]);
}
// the k-th submission has to be the k-th to run; the jobs add to the queue themselves. All wait for the gate first
static int fifo_next, fifo_ran;
static std::binary_semaphore fifo_gate{0};
template <typename S>
static void fifo_add(S& submit, int total) {
  int k = fifo_next++;
  submit([&submit, k, total] {
    if (k == 0) fifo_gate.acquire();
    MC_CHECK(fifo_ran++ == k, "submission %d ran at place %d", k, fifo_ran - 1);
    for (int i = k % 7 == 3 ? 1 : k % 31 == 0 ? 2 : 0; i > 0 && fifo_next < total; i--) fifo_add(submit, total);
  });
}
template <typename S>
static void fifo(S submit) {
  fifo_next = fifo_ran = 0;
  static const int sizes[] = {9, 40, 150, 700};
  int first = sizes[mc::choose(4, "pending")], total = first * 3 / 2;
  while (fifo_next < first) fifo_add(submit, total);
  fifo_gate.release();
  mc_wait_quiescent();
  MC_CHECK(fifo_ran == fifo_next && fifo_ran > first, "%d of %d ran", fifo_ran, fifo_next);
}
MC_SCENARIO(long_queue, 0, 1, "up to 700 pieces of work pending together, which add to the queue when they run (worker, strand, queue, pool of 1, hash)") {
  int where = mc::choose(6, "where");
  if (where < 3) {
    dd::worker w;
    dd::strand s(w);
    if (where == 0) fifo([&](auto f) { dd::schedule_to(w, f); });
    if (where == 1) fifo([&](auto f) { dd::schedule_to(s, f); });
    if (where == 2) fifo([&](auto f) { dd::schedule_to(s.get_queue(), f); });
  } else {
    dd::thread_pool p(where == 5 ? 2 : 1);
    if (where == 3) fifo([&](auto f) { dd::schedule_to(p, f); });
    if (where == 4) fifo([&](auto f) { p.schedule(f); });
    if (where == 5) fifo([&](auto f) { p.schedule(f, 3); });
  }
}
template <typename E, typename Q>
static co again(E& e, Q queue_other, int* done) {
  int before = 0;
  static int ran;
  ran = 0;
  MC_CHECK((bool)co_await dd::jump_on(e), "");
  auto id = std::this_thread::get_id();
  for (int i = 1; i <= 3; i++) {
    for (int k = 0; k < i; k++, before++) queue_other([] { ran++; });
    MC_CHECK((bool)co_await dd::jump_on(e), "");
    MC_CHECK(ran == before, "went ahead of %d pieces of work that were queued before", before - ran);
    MC_CHECK(std::this_thread::get_id() == id, "another worker");
  }
  ++*done;
}
MC_SCENARIO(jump_again, 8, 12, "a coroutine that jumps to the worker it is on goes behind what is queued there (worker, strand, queue, reference, pools)") {
  static int done;
  done = 0;
  int where = mc::choose(7, "where");
  std::optional<dd::worker> w;
  std::optional<dd::thread_pool> p;
  if (where < 4) {
    w.emplace();
    dd::strand s(*w);
    dd::any_executor_ref r(*w);
    auto on_w = [&](auto f) { dd::schedule_to(*w, f); };
    if (where == 0) again(*w, on_w, &done);
    if (where == 1) again(s, on_w, &done);
    if (where == 2) again(s.get_queue(), on_w, &done);
    if (where == 3) again(r, on_w, &done);
    mc_wait_quiescent();
  } else {
    p.emplace(where == 6 ? 2 : 1);
    dd::any_executor_ref r(*p);
    auto on_p = [&](auto f) { p->schedule(f, p->workers_range()[0].get_id() == std::this_thread::get_id() ? 0 : 1); };
    if (where == 4) again(*p, on_p, &done);
    if (where == 5) again(r, on_p, &done);
    if (where == 6) again(*p, on_p, &done);
    mc_wait_quiescent();
  }
  MC_CHECK(done == 1, "");
}
MC_SCENARIO(hash_to_queue, 0, 0, "equal hashes select the same queue, every queue of a pool can be selected") {
  dd::thread_pool p(1 + mc::choose(4, "threads"));
  auto q = p.queues_range();
  std::vector<int> hit(q.size());
  for (size_t h : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(4), size_t(11), ~size_t(0), ~size_t(0) - 1, size_t(1) << 63}) {
    auto* a = &p.select_queue(h);
    MC_CHECK(a == &p.select_queue(h) && a == &p.get_strand(h).get_queue(), "");
    MC_CHECK(a >= q.data() && a < q.data() + q.size(), "queue out of the pool");
    hit[a - q.data()]++;
  }
  for (int x : hit) MC_CHECK(x > 0, "a queue is never selected");
  std::function<void()> f = [] {}, g = [] {};
  MC_CHECK(dd::calculate_operation_hash(f) == dd::calculate_operation_hash(f), "");
  auto c = rc(0);
  std::coroutine_handle<> e = c.h;
  MC_CHECK(dd::calculate_operation_hash(e) == dd::calculate_operation_hash(c.h), "the hash of a coroutine depends on the handle's type");
  c.h.destroy();
}

int main(int c, char** v) { return mc_main(c, v); }
