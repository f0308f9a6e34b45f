// Helpers for the executor harnesses (C01, C02, C03, C26).
#pragma once
#include "common.h"
#include <kelcoro/thread_pool.hpp>

enum { RUN = 1, CANCEL, SUBMIT, SUBMITTED, ENDRUN, JUMP_OK };
inline int sent[32];  // written by the submitter before submitting, read by the work

struct Expect {
  std::thread::id on{};          // required thread, if set
  dd::thread_pool* pool = nullptr;  // required pool, if set
};
inline void ran(int id, const Expect& x) {
  MC_CHECK(sent[id] == id + 1000, "work %d does not see what its submitter did", id);
  if (x.on != std::thread::id{}) MC_CHECK(std::this_thread::get_id() == x.on, "work %d ran on a wrong thread", id);
  if (x.pool) MC_CHECK(x.pool->is_worker(), "work %d ran on a thread that is no worker of the pool", id);
  mc_log(RUN, id, 0);
}
// a callable that owns a heap cell: destroyed exactly once whether invoked or cancelled
struct Work {
  int id;
  Expect x;
  Probe p;
  Work(int id, Expect x) : id(id), x(x), p(id) {}
  void operator()() {
    MC_CHECK(p.get() == id, "callable %d damaged", id);
    ran(id, x);
    mc_point("work");
    mc_log(ENDRUN, id, 0);
  }
};
template <typename E>
static co jump(E& e, int id, Expect x) {
  Probe local(id);
  dd::schedule_status s = co_await dd::jump_on(e);
  MC_CHECK(local.get() == id, "frame damaged");
  if (s) {
    ran(id, x);
    mc_point("work");
    mc_log(ENDRUN, id, 0);
  } else {
    MC_CHECK(s.what == dd::schedule_errc::cancelled, "status %d", (int)s.what);
    mc_log(CANCEL, id, 0);
  }
}
inline void submit_begin(int id) {
  sent[id] = id + 1000;
  mc_log(SUBMIT, id, 0);
}
inline void submit_end(int id) { mc_log(SUBMITTED, id, 0); }
// two ways every executor has: a coroutine that jumps, a callable
template <typename E>
static void submit(E& e, int id, int kind, Expect x) {
  submit_begin(id);
  if (kind == 0) jump(e, id, x);
  else dd::schedule_to(e, Work(id, x));
  submit_end(id);
}
inline void all_ran_once(int from, int to) {
  for (int i = from; i < to; i++) MC_CHECK(log_count(RUN, i) == 1, "work %d ran %d times, %d threads asleep", i, log_count(RUN, i), mc_threads_alive());
}
inline void order_outcome() {
  std::string s;
  for (int i = 0; i < mc_log_size(); i++)
    if (mc_log_tag(i) == RUN || mc_log_tag(i) == CANCEL)
      s += (mc_log_tag(i) == RUN ? "r" : "c") + std::to_string(mc_log_a(i)) + "@" + std::to_string(mc_log_tid(i)) + " ";
  mc_outcome("%s", s.c_str());
}
