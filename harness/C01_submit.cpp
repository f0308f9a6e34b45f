// C01: everything submitted to a live executor runs exactly once on one of its workers.
#include "exec.h"

MC_SCENARIO(worker_two_submitters, 5, 8, "2 threads x 2 submissions (jump or callable) to a worker that is starting, working or going to sleep") {
  dd::worker w;
  Expect x{w.get_id()};
  int kinds = mc::choose(4, "kinds");
  std::thread a([&] { submit(w, 0, kinds & 1, x); submit(w, 1, 0, x); });
  submit(w, 2, kinds >> 1 & 1, x);
  submit(w, 3, 1, x);
  a.join();
  MC_CHECK(mc_wait_quiescent() == 1, "the worker's thread ended");
  all_ran_once(0, 4);
  order_outcome();
}
MC_SCENARIO(worker_three_submitters, 5, 8, "3 threads submit once each") {
  dd::worker w;
  Expect x{w.get_id()};
  std::thread a([&] { submit(w, 0, 0, x); });
  std::thread b([&] { submit(w, 1, 1, x); });
  submit(w, 2, 0, x);
  a.join();
  b.join();
  mc_wait_quiescent();
  all_ran_once(0, 3);
  order_outcome();
}
MC_SCENARIO(wakes_again, 10, 14, "submissions to a sleeping worker, several rounds") {
  dd::worker w;
  Expect x{w.get_id()};
  for (int i = 0; i < 3; i++) {
    submit(w, 2 * i, i & 1, x);
    if (i != 1) submit(w, 2 * i + 1, 1, x);
    else submit(w, 2 * i + 1, 0, x);
    mc_wait_quiescent();
    all_ran_once(0, 2 * i + 2);
  }
}
static co nested(dd::worker& w, int id, Expect x, int depth) {
  submit_begin(id);
  bool ok = (bool)co_await dd::jump_on(w);
  MC_CHECK(ok, "");
  ran(id, x);
  for (int i = 1; i <= depth; i++) nested(w, id * 3 + i, x, depth - 1);
}
MC_SCENARIO(from_the_worker, 12, 14, "work that submits more work to its own worker while another thread submits") {
  dd::worker w;
  Expect x{w.get_id()};
  std::thread a([&] { submit(w, 20, 1, x); });
  nested(w, 1, x, 2);  // 1 -> 4, 5; 4 -> 13, 5 -> 16
  a.join();
  mc_wait_quiescent();
  for (int i : {1, 4, 5, 13, 16, 20}) all_ran_once(i, i + 1);
}
static co hop(dd::worker& a, dd::worker& b, int id, Expect xa, Expect xb) {
  Probe local(id);
  for (int i = 0; i < 2; i++) {
    submit_begin(id + 2 * i);
    MC_CHECK((bool)co_await dd::jump_on(a), "");
    ran(id + 2 * i, xa);
    submit_begin(id + 2 * i + 1);
    MC_CHECK((bool)co_await dd::jump_on(b), "");
    ran(id + 2 * i + 1, xb);
  }
  MC_CHECK(local.get() == id, "");
}
MC_SCENARIO(two_workers, 5, 7, "2 coroutines hop between two workers") {
  dd::worker a, b;
  Expect xa{a.get_id()}, xb{b.get_id()};
  hop(a, b, 0, xa, xb);
  hop(b, a, 10, xb, xa);
  MC_CHECK(mc_wait_quiescent() == 2, "");
  all_ran_once(0, 4);
  all_ran_once(10, 14);
}
MC_SCENARIO(strand_and_worker, 7, 11, "copies of a strand and its worker used by 2 threads") {
  dd::worker w;
  Expect x{w.get_id()};
  dd::strand s(w);
  std::thread a([&, s]() mutable { dd::strand t = s; submit(t, 0, 0, x); submit(s, 1, 1, x); });
  submit(w, 2, 0, x);
  submit(s, 3, 0, x);
  a.join();
  mc_wait_quiescent();
  all_ran_once(0, 4);
}
// a consumer of the user, built on the queue's interface
static void drain(dd::task_node* n) {
  while (n) {
    auto* t = n;
    n = n->next;
    t->task.resume();
  }
}
MC_SCENARIO(queue_two_consumers, 12, 14, "a task queue with one blocking and one polling consumer, 2 submitting threads") {
  dd::task_queue q;
  static std::atomic<int> done;
  done = 0;
  std::thread c([&] {
    while (done.load() < 2) {
      drain(q.pop_all_not_empty());
      done.fetch_add(1);
    }
  });
  std::thread a([&] { submit(q, 0, 0, {}); });
  submit(q, 1, 1, {});
  drain(q.pop_all());
  a.join();
  mc_wait_quiescent();
  all_ran_once(0, 2);
  if (mc_threads_alive()) {  // the consumer may legitimately still wait
    submit(q, 2, 0, {});
    mc_wait_quiescent();
    all_ran_once(2, 3);
    if (mc_threads_alive()) { submit(q, 3, 0, {}); mc_wait_quiescent(); all_ran_once(3, 4); }
  }
  c.join();
  MC_CHECK(q.pop_all() == nullptr, "");
}
MC_SCENARIO(queue_two_blocking, 4, 7, "a task queue with two blocking consumers, one of which may end while the other one sleeps") {
  dd::task_queue q;
  // each takes one list, and nothing after that
  auto consume = [&] {
    auto* n = q.pop_all_not_empty();
    MC_CHECK(n != nullptr, "nothing to take");
    drain(n);
  };
  const bool settle = mc::flip("both asleep first"), by_other = mc::flip("submitted by two threads");
  std::thread a(consume), b(consume);
  if (settle) mc_wait_quiescent();
  if (by_other) {
    std::thread s([&] { submit(q, 0, 0, {}); });
    submit(q, 1, 1, {});
    s.join();
  } else {
    submit(q, 0, 0, {});
    submit(q, 1, 1, {});
  }
  mc_wait_quiescent();
  all_ran_once(0, 2);
  // both may have been in one list: the other consumer has none so far
  if (mc_threads_alive()) {
    submit(q, 2, 0, {});
    mc_wait_quiescent();
    all_ran_once(2, 3);
  }
  MC_CHECK(mc_threads_alive() == 0, "a consumer sleeps though something was submitted");
  a.join();
  b.join();
  MC_CHECK(q.pop_all() == nullptr, "");
}
MC_SCENARIO(queue_lists, 7, 11, "lists and single nodes pushed by 2 threads into a worker's queue") {
  dd::worker w;
  dd::task_queue& q = dd::strand(w).get_queue();
  struct Node {
    raw_co c;
    dd::task_node n;
  };
  static Node nodes[5];
  auto body = [](int i, std::thread::id id) -> raw_co {
    ran(i, Expect{id});
    co_return;
  };
  for (int i = 0; i < 5; i++) {
    nodes[i].c = body(i, w.get_id());
    nodes[i].n = dd::task_node{nullptr, nodes[i].c.h};
  }
  int how = mc::choose(3, "how");
  std::thread a([&] {
    sent[0] = 1000;
    sent[1] = 1001;
    nodes[0].n.next = &nodes[1].n;
    if (how == 0) q.push_list(&nodes[0].n);
    if (how == 1) q.push_list(&nodes[0].n, &nodes[1].n);
    if (how == 2) dd::attach_list(w, &nodes[0].n);
  });
  sent[2] = 1002;
  sent[3] = 1003;
  sent[4] = 1004;
  nodes[2].n.next = &nodes[0].n;  // a single push does not care about a stale next
  q.push(&nodes[2].n);
  nodes[3].n.next = &nodes[4].n;
  q.push_list(&nodes[3].n);
  q.push_list(nullptr);
  a.join();
  mc_wait_quiescent();
  all_ran_once(0, 5);
  for (auto& n : nodes) n.c.h.destroy();
  order_outcome();
}
MC_SCENARIO(list_wakes, 6, 12, "one list of 1 to 5 nodes (pushed in 2 ways or attached, to a worker, a strand or a pool) wakes a worker that starts, works or sleeps") {
  int k = 1 + mc::choose(5, "nodes"), how = mc::choose(5, "how");
  struct Node {
    raw_co c;
    dd::task_node n;
  };
  static Node nodes[6];
  auto body = [](int i) -> raw_co {
    ran(i, Expect{});
    co_return;
  };
  for (int i = 0; i < k; i++) {
    nodes[i].c = body(i);
    nodes[i].n = dd::task_node{i + 1 < k ? &nodes[i + 1].n : nullptr, nodes[i].c.h};
    sent[i] = 1000 + i;
  }
  if (how == 4) {
    dd::thread_pool p(1);
    if (mc::flip("asleep")) mc_wait_quiescent();
    dd::attach_list(p, &nodes[0].n);
    mc_wait_quiescent();
    all_ran_once(0, k);
  } else {
    dd::worker w;
    if (mc::flip("asleep")) mc_wait_quiescent();
    dd::strand s(w);
    if (how == 0) s.get_queue().push_list(&nodes[0].n);
    if (how == 1) s.get_queue().push_list(&nodes[0].n, &nodes[k - 1].n);
    if (how == 2) dd::attach_list(w, &nodes[0].n);
    if (how == 3) dd::attach_list(s, &nodes[0].n);
    mc_wait_quiescent();
    all_ran_once(0, k);
  }
  for (int i = 0; i < k; i++) nodes[i].c.h.destroy();
}
MC_SCENARIO(pool_two_submitters, 3, 6, "a pool of 2: jumps, callables with and without hash, from 2 threads") {
  dd::thread_pool p(2);
  Expect x{{}, &p};
  std::thread a([&] {
    submit_begin(0);
    p.schedule(Work(0, x), 0);
    submit(p, 1, 0, x);
  });
  submit_begin(2);
  p.schedule(Work(2, x), 1);
  submit_begin(3);
  p.schedule(Work(3, x));
  a.join();
  MC_CHECK(mc_wait_quiescent() == 2, "");
  all_ran_once(0, 4);
  order_outcome();
}
MC_SCENARIO(pool_attach_list, 4, 7, "a list of nodes attached to a pool of 2 and 3, each runs once") {
  dd::thread_pool p(2 + mc::choose(2, "threads"));
  Expect x{{}, &p};
  struct Node {
    raw_co c;
    dd::task_node n;
  };
  static Node nodes[4];
  auto body = [](int i, Expect x) -> raw_co {
    ran(i, x);
    co_return;
  };
  for (int i = 0; i < 4; i++) {
    sent[i] = 1000 + i;
    nodes[i].c = body(i, x);
    nodes[i].n = dd::task_node{i < 3 ? &nodes[i + 1].n : nullptr, nodes[i].c.h};
  }
  dd::attach_list(p, &nodes[0].n);
  mc_wait_quiescent();
  all_ran_once(0, 4);
  for (auto& n : nodes) n.c.h.destroy();
}
static co pool_nested(dd::thread_pool& p, int id, Expect x) {
  submit_begin(id);
  MC_CHECK((bool)co_await dd::jump_on(p), "");
  ran(id, x);
  submit_begin(id + 1);
  p.schedule(Work(id + 1, x), 0);
  submit_begin(id + 2);
  p.schedule(Work(id + 2, x), 1);
}
MC_SCENARIO(pool_from_workers, 5, 8, "work on a pool of 2 that submits to both queues") {
  dd::thread_pool p(2);
  Expect x{{}, &p};
  pool_nested(p, 0, x);
  pool_nested(p, 10, x);
  mc_wait_quiescent();
  all_ran_once(0, 3);
  all_ran_once(10, 13);
}
MC_SCENARIO(pool_of_one, 10, 14, "a pool of 1 (and of 0 = 1) with 2 submitting threads") {
  dd::thread_pool p(mc::choose(2, "threads"));
  Expect x{{}, &p};
  std::thread a([&] { submit(p, 0, 0, x); submit(p, 1, 1, x); });
  submit_begin(2);
  p.schedule(Work(2, x));
  a.join();
  MC_CHECK(mc_wait_quiescent() == 1, "");
  all_ran_once(0, 3);
}
MC_SCENARIO(pool_strand, 4, 7, "strands of a pool used by 2 threads") {
  dd::thread_pool p(2);
  Expect x{{}, &p};
  dd::strand s0 = p.get_strand(4), s1 = p.get_strand(5);
  std::thread a([&] { submit(s0, 0, 0, x); });
  submit(s1, 1, 1, x);
  submit(s0, 2, 0, x);
  a.join();
  mc_wait_quiescent();
  all_ran_once(0, 3);
}

MC_SCENARIO(many, 0, 1, "200 callables and 200 jumps from two threads, and a list of 200 nodes, on a pool of 3") {
  struct Node {
    raw_co c;
    dd::task_node n;
  };
  constexpr int N = 200;
  static int times[3 * N];
  for (int& x : times) x = 0;
  auto* nodes = new Node[N];
  {
    dd::thread_pool p(3);
    auto body = [](int* n) -> raw_co { ++*n; co_return; };
    auto jumper = [](dd::thread_pool& p, int* n) -> co {
      MC_CHECK((bool)co_await dd::jump_on(p), "");
      ++*n;
    };
    std::thread a([&] {
      for (int i = 0; i < N; i++) jumper(p, &times[i]);
    });
    for (int i = 0; i < N; i++) {
      nodes[i].c = body(&times[2 * N + i]);
      nodes[i].n = dd::task_node{i + 1 < N ? &nodes[i + 1].n : nullptr, nodes[i].c.h};
    }
    for (int i = 0; i < N; i++) p.schedule([i] { times[N + i]++; });
    dd::attach_list(p, &nodes[0].n);
    a.join();
    MC_CHECK(mc_wait_quiescent() == 3, "");
    for (int i = 0; i < 3 * N; i++) MC_CHECK(times[i] == 1, "work %d ran %d times", i, times[i]);
  }
  for (int i = 0; i < N; i++) nodes[i].c.h.destroy();
  delete[] nodes;
}

// one function object for several submissions: each has its own copy, the object itself stays as it was
namespace {
struct Shared {
  Probe p{42};
  int mine = 0;
  void operator()() {
    MC_CHECK(p.get() == 42, "the function object of a submission was moved away");
    MC_CHECK(mine++ == 0, "submissions share one function object");
    mc_log(RUN, 0, 0);
  }
};
struct ConstShared : Shared {
  void operator()() const { Shared(*this)(); }
};
}  // namespace
MC_SCENARIO(callable_objects, 1, 3, "one function object (variable, constant, temporary) for up to 4 submissions to a pool (hashed or not, as executor), a worker, this thread") {
  int n = 1 + mc::choose(mc::depth(2, 3), "submissions");
  Shared f;
  const ConstShared cf;
  {
    dd::thread_pool p(2);
    for (int i = 0; i < n; i++) {
      int where = mc::choose(5, "where");
      dd::strand st = p.get_strand(1);
      dd::this_thread_executor_t here;
      auto sub = [&](auto&& x) {
        switch (where) {
          case 0: p.schedule(std::forward<decltype(x)>(x)); break;
          case 1: p.schedule(std::forward<decltype(x)>(x), i); break;
          case 2: dd::schedule_to(p, std::forward<decltype(x)>(x)); break;
          case 3: dd::schedule_to(st, std::forward<decltype(x)>(x), dd::with_resource{p.get_resource()}); break;
          case 4: dd::schedule_to(here, std::forward<decltype(x)>(x)); break;
        }
      };
      switch (mc::choose(3, "object")) {
        case 0: sub(f); break;
        case 1: sub(cf); break;
        case 2: sub(Shared{}); break;
      }
      MC_CHECK(f.p.get() == 42 && f.mine == 0 && cf.p.get() == 42, "the function object was moved from by submission %d", i);
    }
    mc_wait_quiescent();
  }
  MC_CHECK(log_count(RUN) == n, "%d of %d ran", log_count(RUN), n);
  MC_CHECK(f.p.get() == 42 && f.mine == 0, "the function object was used");
}
int main(int c, char** v) { return mc_main(c, v); }
