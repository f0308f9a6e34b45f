// C26: building pools and workers when threads or memory run out.
#include "exec.h"
#include "res.h"
#include <system_error>

static void works(dd::thread_pool& p, size_t n) {
  size_t want = std::max<size_t>(1, n);
  MC_CHECK(p.queues_range().size() == want && p.workers_range().size() == want, "%zu queues, %zu threads, asked for %zu", p.queues_range().size(), p.workers_range().size(), n);
  for (size_t i = 0; i < want; i++) {
    sent[i] = i + 1000;
    p.schedule(Work(i, Expect{p.workers_range()[i].get_id(), &p}), i);
  }
  mc_wait_quiescent();
  all_ran_once(0, want);
  MC_CHECK(mc_threads_started() == (int)want, "%d threads started", mc_threads_started());
}
MC_SCENARIO(pool_threads_fail, 6, 9, "a pool of 1 to 4; creating any of the threads may fail") {
  bool failed = false;
  int n = mc::choose(5, "threads");
  long live = mc_live_blocks();
  try {
    mc_faults_thread(1);
    dd::thread_pool p(n);
    mc_faults_thread(0);
    MC_CHECK(mc_faults_taken() == 0, "creating a thread failed but the constructor did not throw");
    if (n < 3) works(p, n);
  } catch (const std::system_error&) {
    failed = true;
    mc_faults_thread(0);
    MC_CHECK(mc_faults_taken() == 1, "the constructor threw although nothing failed");
  }
  MC_CHECK(mc_threads_alive() == 0, "%d threads left", mc_threads_alive());
  MC_CHECK(mc_live_blocks() == live, "%ld blocks left", mc_live_blocks() - live);
  mc_outcome("%d failed %d started %d", n, failed, mc_threads_started());
}
MC_SCENARIO(pool_memory_fails, 11, 14, "any allocation made while a pool of 1 to 3 is built may fail") {
  bool failed = false;
  int n = 1 + mc::choose(3, "threads");
  long live = mc_live_blocks();
  try {
    mc_faults_new(1);
    dd::thread_pool p(n);
    mc_faults_new(0);
    MC_CHECK(mc_faults_taken() == 0, "an allocation failed but the constructor did not throw");
  } catch (const std::bad_alloc&) {
    failed = true;
    mc_faults_new(0);
    MC_CHECK(mc_faults_taken() >= 1, "the constructor threw although nothing failed");
  }
  MC_CHECK(mc_threads_alive() == 0, "%d threads left", mc_threads_alive());
  MC_CHECK(mc_live_blocks() == live, "%ld blocks left", mc_live_blocks() - live);
  mc_outcome("%d failed %d started %d", n, failed, mc_threads_started());
}
MC_SCENARIO(pool_resource, 4, 6, "a pool of 0 to 3 on a resource of its own that may fail at any allocation; threads may fail too") {
  Res r;
  int n = mc::choose(4, "threads");
  r.fail_at = mc::choose(4, "fail") - 1;
  bool failed = false;
  {
    std::optional<dd::thread_pool> p;
    try {
      mc_faults_thread(1);
      p.emplace(n, dd::default_worker_job, r);
      mc_faults_thread(0);
    } catch (const std::bad_alloc&) {
      failed = true;
      mc_faults_thread(0);
      MC_CHECK(r.fail_at >= 0 && r.count > r.fail_at, "");
    } catch (const std::system_error&) {
      failed = true;
      mc_faults_thread(0);
      MC_CHECK(mc_faults_taken() > 0, "");
    }
    if (!failed) {
      MC_CHECK(&p->get_resource() == &r, "the pool names another resource than the one given");
      MC_CHECK(r.count > 0, "nothing was allocated from the pool's resource");
      r.fail_at = -1;
      works(*p, n);
    } else
      MC_CHECK(r.live.empty(), "%zu blocks not given back after the failure", r.live.size());
  }
  MC_CHECK(r.live.empty() && (failed || r.freed == r.count), "%zu blocks not given back", r.live.size());
  MC_CHECK(mc_threads_alive() == 0, "");
}
MC_SCENARIO(pool_resource_schedule, 12, 20, "a pool on its own resource with scheduled callables: every block goes back there") {
  Res r;
  {
    dd::thread_pool p(2, dd::default_worker_job, r);
    MC_CHECK(&p.get_resource() == &r, "");
    int before = r.count;
    sent[0] = 1000;
    sent[1] = 1001;
    p.schedule(Work(0, Expect{{}, &p}), 0);
    mc_wait_quiescent();
    p.schedule(Work(1, Expect{{}, &p}));
    mc_wait_quiescent();
    MC_CHECK(r.count == before + 2, "%d blocks taken from the pool's resource for 2 callables", r.count - before);
  }
  MC_CHECK(r.live.empty() && r.freed == r.count, "");
}
MC_SCENARIO(worker_fails, 12, 20, "creating a worker's thread or any allocation may fail") {
  bool failed = false;
  long live = mc_live_blocks();
  int n = 0;
  try {
    mc_faults_thread(1);
    mc_faults_new(1);
    dd::worker w;
    mc_faults_thread(0);
    mc_faults_new(0);
    MC_CHECK(mc_faults_taken() == 0, "");
    sent[0] = 1000;
    submit(w, 0, 1, Expect{w.get_id()});
    mc_wait_quiescent();
    all_ran_once(0, 1);
  } catch (const std::system_error&) {
    n = 1;
    mc_faults_thread(0);
    mc_faults_new(0);
  } catch (const std::bad_alloc&) {
    n = 2;
    mc_faults_thread(0);
    mc_faults_new(0);
  }
  MC_CHECK(mc_threads_alive() == 0, "");
  MC_CHECK(mc_live_blocks() == live, "%ld blocks left", mc_live_blocks() - live);
  mc_outcome("%d", n);
}
MC_SCENARIO(default_count, 10, 14, "the default number of threads is at least 1 and what default_thread_count says") {
  int hw = mc::choose(4, "hardware threads");
  mc_hw_concurrency(hw);
  MC_CHECK(dd::thread_pool::default_thread_count() == (size_t)std::max(1, hw - 1), "");
  dd::thread_pool p;
  works(p, dd::thread_pool::default_thread_count());
}
// a thread of the half-built pool may already be running when the failure comes
static void slow_job(dd::task_queue& q) noexcept {
  mc_point("started");
  dd::default_worker_job(q);
  mc_log(RUN, 50, 0);
}
MC_SCENARIO(rollback_joins, 12, 20, "the constructor's failure is reported only after every started thread has stopped") {
  int started = -1;
  try {
    mc_faults_thread(1);
    dd::thread_pool p(3, slow_job);
    mc_faults_thread(0);
    mc_stop_here();
  } catch (const std::system_error&) {
    mc_faults_thread(0);
    MC_CHECK(mc_threads_alive() == 0, "%d threads still run when the exception arrives", mc_threads_alive());
    started = mc_threads_started();
    MC_CHECK(log_count(RUN, 50) == started, "%d of %d threads have finished their job", log_count(RUN, 50), started);
  }
  mc_outcome("%d", started);
}
MC_SCENARIO(many_fail, 2, 3, "a pool of 5 or 7: any one thread or allocation may fail") {
  long live = mc_live_blocks();
  int started = -1;
  bool threads = mc::flip("threads or memory");
  try {
    threads ? mc_faults_thread(1) : mc_faults_new(1);
    {
      dd::thread_pool p(mc::flip("size") ? 7 : 5);
      threads ? mc_faults_thread(0) : mc_faults_new(0);
      mc_stop_here();
    }
  } catch (const std::system_error&) {
    mc_faults_thread(0);
    MC_CHECK(threads, "");
  } catch (const std::bad_alloc&) {
    mc_faults_new(0);
    MC_CHECK(!threads, "");
  }
  MC_CHECK(mc_threads_alive() == 0, "%d threads still run when the exception arrives", mc_threads_alive());
  MC_CHECK(mc_live_blocks() == live, "%ld blocks left", mc_live_blocks() - live);
  started = mc_threads_started();
  mc_outcome("%d", started);
}
MC_SCENARIO(many, 0, 0, "a pool of 10: every queue and every thread works") {
  constexpr int N = 10;
  static std::thread::id at[N];
  static int n[N];
  for (int& x : n) x = 0;
  {
    dd::thread_pool p(N);
    MC_CHECK(p.queues_range().size() == N && p.workers_range().size() == N && mc_threads_alive() == N, "%d threads", mc_threads_alive());
    for (int i = 0; i < N; i++)
      p.schedule([i] {
        at[i] = std::this_thread::get_id();
        n[i]++;
      }, i);
    MC_CHECK(mc_wait_quiescent() == N, "");
    for (int i = 0; i < N; i++) {
      MC_CHECK(n[i] == 1, "work %d ran %d times", i, n[i]);
      for (int k = 0; k < i; k++) MC_CHECK(at[i] != at[k], "queues %d and %d have one thread", i, k);
    }
  }
  MC_CHECK(mc_threads_alive() == 0, "%d threads left", mc_threads_alive());
}

int main(int c, char** v) { return mc_main(c, v); }
