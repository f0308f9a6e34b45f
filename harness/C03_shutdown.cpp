// C03: shutdown resumes every accepted task exactly once and terminates.
#include "exec.h"

// a jump whose outcome (run or cancelled) is logged once; the callable form destroys its cell either way
static void resumed_as(int id, bool ok) {
  // the scenario's thread is the one that shuts down: what it resumes has to be told that it is cancelled
  MC_CHECK(!ok || mc_self() != 0, "task %d was resumed with an ok status on a thread that is no worker", id);
  mc_log(ok ? RUN : CANCEL, id, 0);
}
static int resumed(int id) { return log_count(RUN, id) + log_count(CANCEL, id); }
static void all_resumed_once(int from, int to) {
  for (int i = from; i < to; i++) MC_CHECK(resumed(i) == 1, "task %d was run %d times and cancelled %d times", i, log_count(RUN, i), log_count(CANCEL, i));
}
static void nothing_left(int submitted_callables_ran = 0) {
  MC_CHECK(mc_threads_alive() == 0, "%d threads are left after the shutdown", mc_threads_alive());
}
// logs whether its callable was invoked, and its destruction
struct Call {
  int id;
  Probe p;
  bool owner = true;
  Call(int id) : id(id), p(id) {}
  Call(Call&& o) noexcept : id(o.id), p(std::move(o.p)), owner(std::exchange(o.owner, false)) {}
  Call(const Call& o) = delete;
  ~Call() {
    if (owner) mc_log(ENDRUN, id, 0);
  }
  void operator()() {
    MC_CHECK(owner && p.get() == id, "callable %d damaged", id);
    resumed_as(id, true);
  }
};
template <typename E>
static void call(E& e, int id) { dd::schedule_to(e, Call(id)); }

MC_SCENARIO(worker_dtor, 12, 20, "a worker with 3 tasks is destroyed at any point of their execution") {
  {
    dd::worker w;
    sent[0] = 1000; sent[2] = 1002;
    jump(w, 0, {w.get_id()});
    call(w, 1);
    jump(w, 2, {w.get_id()});
  }
  nothing_left();
  all_resumed_once(0, 1);
  all_resumed_once(2, 3);
  MC_CHECK(log_count(RUN, 1) <= 1 && log_count(ENDRUN, 1) == 1, "callable: run %d destroyed %d", log_count(RUN, 1), log_count(ENDRUN, 1));
  order_outcome();
}
// tasks that submit more tasks to the worker being destroyed
static co spawner(dd::worker& w, int id, int depth) {
  Probe local(id);
  bool ok = (bool)co_await dd::jump_on(w);
  MC_CHECK(local.get() == id, "");
  resumed_as(id, ok);
  if (ok && depth) {
    spawner(w, id * 2 + 1, depth - 1);
    spawner(w, id * 2 + 2, depth - 1);
  }
}
MC_SCENARIO(worker_dtor_spawning, 12, 14, "running tasks submit more while the worker is destroyed") {
  {
    dd::worker w;
    spawner(w, 0, 2);
    spawner(w, 10, 1);
  }
  nothing_left();
  for (int i = 0; i < 30; i++) MC_CHECK(resumed(i) <= 1, "task %d resumed %d times", i, resumed(i));
  for (int i : {0, 1, 2, 10, 21, 22}) {
    bool parent_ran = i == 0 || i == 10 || log_count(RUN, i == 1 || i == 2 ? 0 : 10);
    MC_CHECK(resumed(i) == (parent_ran ? 1 : 0), "task %d resumed %d times", i, resumed(i));
  }
  order_outcome();
}
static co hopper(dd::worker& a, dd::worker& b, int id) {
  Probe local(id);
  for (int i = 0; i < 3; i++) {
    bool ok = (bool)co_await dd::jump_on(i & 1 ? b : a);
    if (!ok) {
      mc_log(CANCEL, id, 0);
      co_return;
    }
  }
  mc_log(RUN, id, 0);
}
MC_SCENARIO(two_workers_dtor, 7, 10, "a coroutine hops between two workers that are destroyed one after the other") {
  {
    dd::worker a;
    {
      dd::worker b;
      hopper(a, b, 0);
      mc_wait_quiescent();
      MC_CHECK(log_count(RUN, 0) == 1, "");
    }
    hopper(a, a, 1);
    spawner(a, 2, 1);
  }
  nothing_left();
  all_resumed_once(0, 2);
}
// the submitting thread is not waited for: the worker may go as soon as the work it was given has run
static co announce(dd::worker& w, int id, std::atomic<int>& ran_) {
  Probe local(id);
  bool ok = (bool)co_await dd::jump_on(w);
  resumed_as(id, ok);
  std::atomic<int>& r = ran_;
  r.fetch_add(1);
  r.notify_one();
}
MC_SCENARIO(submitter_left_behind, 7, 10, "a worker is destroyed once the work of a thread has run, maybe before that thread returned from submitting it") {
  static std::atomic<int> ran_;
  ran_ = 0;
  int kind = mc::choose(2, "kind");
  auto* w = new dd::worker;
  std::thread a([w, kind] {
    if (kind == 0) announce(*w, 1, ran_);
    else dd::schedule_to(*w, [p = Probe(1)] {
      resumed_as(1, p.get() == 1);
      ran_.fetch_add(1);
      ran_.notify_one();
    });
  });
  ran_.wait(0);
  delete w;
  a.join();
  nothing_left();
  all_resumed_once(1, 2);
}
// ------------------------------------------------------------------------------------------ pools
static co pjump(dd::thread_pool& p, int id, int more = 0) {
  Probe local(id);
  bool ok = (bool)co_await dd::jump_on(p);
  MC_CHECK(local.get() == id, "");
  resumed_as(id, ok);
  if (ok && more) pjump(p, id + 10, more - 1);
}
// on queue q of the pool; if it runs, submits id + 10 to queue 1 - q, `more` times over
static void pcall(dd::thread_pool& p, int id, int q, int more) {
  struct F {
    dd::thread_pool& p;
    int id, q, more;
    Probe c;
    void operator()() {
      MC_CHECK(c.get() == id, "");
      resumed_as(id, true);
      if (more) pcall(p, id + 10, 1 - q, more - 1);
    }
  };
  mc_log(SUBMIT, id, 0);
  p.schedule(F{p, id, q, more, Probe(id)}, q);
}
static co qjump(dd::thread_pool& p, int id, int q, int more) {
  mc_log(SUBMIT, id, 0);
  Probe local(id);
  dd::strand s = p.get_strand(q);
  bool ok = (bool)co_await dd::jump_on(s);
  MC_CHECK(local.get() == id, "");
  resumed_as(id, ok);
  if (ok && more) qjump(p, id + 10, 1 - q, more - 1);
}
static void every_submitted_resumed() {
  for (int i = 0; i < mc_log_size(); i++)
    if (mc_log_tag(i) == SUBMIT) {
      int id = mc_log_a(i);
      MC_CHECK(resumed(id) == 1, "task %d was run %d times and cancelled %d times", id, log_count(RUN, id), log_count(CANCEL, id));
    }
}
MC_SCENARIO(pool_dtor, 5, 8, "a pool of 2 with tasks that submit to the other queue is destroyed") {
  {
    dd::thread_pool p(2);
    qjump(p, 1, 0, 1);
    qjump(p, 2, 1, 2);
  }
  nothing_left();
  every_submitted_resumed();
  order_outcome();
}
MC_SCENARIO(pool_dtor_calls, 3, 5, "the same with callables and coroutine jumps; the pool of 2 or 3 dies") {
  {
    dd::thread_pool p(2 + mc::choose(2, "threads"));
    pcall(p, 1, 0, 1);
    pcall(p, 2, 1, 2);
    pjump(p, 3, 1);
  }
  nothing_left();
  for (int i = 0; i < 40; i++) MC_CHECK(resumed(i) <= 1, "task %d resumed %d times", i, resumed(i));
  all_resumed_once(3, 4);
  order_outcome();
}
MC_SCENARIO(stop_then_dtor, 4, 6, "request_stop (once or twice), tasks before and after it, then the destructor") {
  {
    dd::thread_pool p(2);
    int when = mc::choose(3, "when");
    if (when != 0) { qjump(p, 1, 1, 2); qjump(p, 2, 0, 1); }
    p.request_stop();
    if (when != 1) qjump(p, 3, 1, 1);
    if (when == 2) p.request_stop();
    if (when != 1) qjump(p, 4, 0, 1);
  }
  nothing_left();
  every_submitted_resumed();
  order_outcome();
}
MC_SCENARIO(stop_then_wait, 4, 6, "request_stop and wait_stop with tasks that submit more") {
  {
    dd::thread_pool p(2);
    int when = mc::choose(3, "when");
    if (when != 0) { qjump(p, 1, 1, 2); qjump(p, 2, 0, 1); }
    p.request_stop();
    if (when != 1) qjump(p, 3, 1, 1);
    if (when == 2) p.request_stop();
    if (when != 1) qjump(p, 4, 0, 1);
    std::move(p).wait_stop();
    nothing_left();
    every_submitted_resumed();
  }
  every_submitted_resumed();
  order_outcome();
}
MC_SCENARIO(stop_from_two_threads, 5, 8, "2 threads request the stop at once, one of them submitting, then wait_stop or the destructor") {
  {
    dd::thread_pool p(2);
    std::thread a([&] { qjump(p, 1, 1, 1); p.request_stop(); });
    p.request_stop();
    a.join();
    if (mc::flip("wait")) std::move(p).wait_stop();
  }
  nothing_left();
  every_submitted_resumed();
  order_outcome();
}
static co stopper(dd::thread_pool& p, int id, int q) {
  mc_log(SUBMIT, id, 0);
  dd::strand s = p.get_strand(q);
  bool ok = (bool)co_await dd::jump_on(s);
  resumed_as(id, ok);
  if (ok) {
    p.request_stop();
    qjump(p, id + 1, 1 - q, 0);
    p.request_stop();
  }
}
MC_SCENARIO(stop_from_worker, 5, 8, "a worker requests the stop twice and goes on submitting; wait_stop or the destructor") {
  {
    dd::thread_pool p(2);
    int q = mc::choose(2, "queue");
    stopper(p, 1, q);
    qjump(p, 5, 1 - q, 1);
    if (mc::flip("wait")) std::move(p).wait_stop();
  }
  nothing_left();
  every_submitted_resumed();
  order_outcome();
}
MC_SCENARIO(one_thread_pool, 12, 14, "a pool of 1: request_stop up to 3 times between 3 tasks, then either ending") {
  {
    dd::thread_pool p(1);
    int k = 0;
    for (int i = 0; i < 3; i++) {
      if (mc::flip("stop")) {
        p.request_stop();
        k++;
      }
      qjump(p, 1 + i, 0, i == 1);
    }
    if (k && mc::flip("wait")) std::move(p).wait_stop();
  }
  nothing_left();
  every_submitted_resumed();
  order_outcome();
}
MC_SCENARIO(empty_pools, 12, 14, "pools without work: destructor, stop, stop + wait") {
  int how = mc::choose(4, "how");
  {
    dd::thread_pool p(1 + mc::choose(2, "threads"));
    if (how >= 1) p.request_stop();
    if (how >= 2) p.request_stop();
    if (how == 3) std::move(p).wait_stop();
  }
  nothing_left();
}
MC_SCENARIO(pool_submitter_left_behind, 5, 7, "the same for a pool: jump, callable or strand") {
  static std::atomic<int> ran_;
  ran_ = 0;
  int kind = mc::choose(3, "kind");
  auto* p = new dd::thread_pool(1 + mc::choose(2, "threads"));
  std::thread a([p, kind] {
    auto work = [c = Probe(1)] {
      resumed_as(1, c.get() == 1);
      ran_.fetch_add(1);
      ran_.notify_one();
    };
    auto jumper = [](auto& e) -> co {
      resumed_as(1, (bool)co_await dd::jump_on(e));
      ran_.fetch_add(1);
      ran_.notify_one();
    };
    if (kind == 0) jumper(*p);
    if (kind == 1) p->schedule(std::move(work));
    if (kind == 2) {
      dd::strand s = p->get_strand(1);
      dd::schedule_to(s, std::move(work));
    }
  });
  ran_.wait(0);
  delete p;
  a.join();
  nothing_left();
  all_resumed_once(1, 2);
}
static void my_job(dd::task_queue& q) noexcept {
  mc_log(JUMP_OK, 1, 0);
  dd::default_worker_job(q);
  mc_log(JUMP_OK, 2, 0);
}
MC_SCENARIO(custom_job, 6, 9, "worker and pool with a custom job built on the default one") {
  {
    dd::worker w(my_job);
    sent[30] = 1030;
    jump(w, 30, {});
  }
  MC_CHECK(log_count(JUMP_OK, 1) == 1 && log_count(JUMP_OK, 2) == 1, "");
  {
    dd::thread_pool p(2, my_job);
    qjump(p, 1, 1, 1);
  }
  MC_CHECK(log_count(JUMP_OK, 1) == 3 && log_count(JUMP_OK, 2) == 3, "the job was started %d times", log_count(JUMP_OK, 1));
  nothing_left();
  every_submitted_resumed();
}
// a job written by the user from what it is told to do: run tasks until the dead pill, cancel the pending ones
static void own_loop(dd::task_queue& q) noexcept {
  mc_log(JUMP_OK, 1, 0);
  bool stop = false;
  while (!stop) {
    dd::task_node* n = q.pop_all_not_empty();
    while (n) {
      dd::task_node* next = n->next;
      if (stop) {
        std::coroutine_handle<> h = n->task;
        if (!n->is_deadpill()) {
          n->status = dd::schedule_errc::cancelled;
          h.resume();
        }
      } else if (n->is_deadpill()) stop = true;
      else n->task.resume();
      n = next;
    }
  }
  mc_log(JUMP_OK, 2, 0);
}
MC_SCENARIO(own_loop_worker, 12, 16, "a worker with a job of the user's own: executes up to the dead pill and cancels the rest") {
  {
    dd::worker w(own_loop);
    spawner(w, 0, 1);
    call(w, 5);
  }
  MC_CHECK(log_count(JUMP_OK, 1) == 1 && log_count(JUMP_OK, 2) == 1, "");
  nothing_left();
  all_resumed_once(0, 1);
  MC_CHECK(log_count(RUN, 5) <= 1 && log_count(ENDRUN, 5) == 1, "callable: run %d destroyed %d", log_count(RUN, 5), log_count(ENDRUN, 5));
  order_outcome();
}
MC_SCENARIO(own_loop_pool, 4, 6, "a pool of 2 with such a job: stop, wait or the destructor") {
  {
    dd::thread_pool p(2, own_loop);
    qjump(p, 1, 0, 1);
    if (mc::flip("stop")) {
      p.request_stop();
      qjump(p, 3, 1, 0);
      if (mc::flip("wait")) std::move(p).wait_stop();
    }
  }
  MC_CHECK(log_count(JUMP_OK, 1) == 2 && log_count(JUMP_OK, 2) == 2, "the job was started %d times", log_count(JUMP_OK, 1));
  nothing_left();
  every_submitted_resumed();
  order_outcome();
}
// the cancelled jump reports failure, the callable is not invoked; forced by a worker that never gets to it
static co blocker(dd::thread_pool& p, std::atomic<int>& gate) {
  dd::strand s = p.get_strand(0);
  co_await dd::jump_on(s);
  gate.store(1);
  gate.notify_all();
  gate.wait(1);
  p.request_stop();
}
MC_SCENARIO(cancelled_status, 12, 20, "tasks queued behind a stop are cancelled: jump reports it, callables are not invoked but destroyed") {
  {
    std::atomic<int> gate{0};
    dd::thread_pool p(1);
    blocker(p, gate);
    gate.wait(0);
    p.request_stop();
    sent[5] = 1005;
    jump(p, 5, {});
    p.schedule(Call(6), 0);
    call(p.queues_range()[0], 7);
    gate.store(2);
    gate.notify_all();
    if (mc::flip("wait")) std::move(p).wait_stop();
  }
  nothing_left();
  MC_CHECK(log_count(CANCEL, 5) == 1 && log_count(RUN, 5) == 0, "queued behind the stop, run %d cancelled %d", log_count(RUN, 5), log_count(CANCEL, 5));
  for (int i : {6, 7}) MC_CHECK(log_count(RUN, i) == 0 && log_count(ENDRUN, i) == 1, "callable %d: run %d destroyed %d", i, log_count(RUN, i), log_count(ENDRUN, i));
}

MC_SCENARIO(many, 0, 1, "a pool of 3 with 60 tasks per queue is stopped behind a blocked queue, waited for or destroyed") {
  constexpr int T = 3, N = 60;
  static int seen[T * N];
  for (int& x : seen) x = 0;
  {
    std::atomic<int> gate{0};
    dd::thread_pool p(T);
    auto jumper = [](dd::thread_pool& p, int q, int* n) -> co {
      dd::strand s = p.get_strand(q);
      (void)co_await dd::jump_on(s);
      ++*n;
    };
    p.schedule([&] { gate.wait(0); }, 0);
    for (int i = 0; i < N; i++)
      for (int q = 0; q < T; q++) {
        jumper(p, q, &seen[q * N + i]);
        if (i == N / 2 && q == 1) p.request_stop();
      }
    gate.store(1);
    gate.notify_all();
    if (mc::flip("wait")) std::move(p).wait_stop();
  }
  nothing_left();
  for (int i = 0; i < T * N; i++) MC_CHECK(seen[i] == 1, "task %d was resumed %d times", i, seen[i]);
}

int main(int c, char** v) { return mc_main(c, v); }
