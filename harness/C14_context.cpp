// C14: task contexts observe the lifecycle of every task
#include "tk.h"
#include "exec.h"
#include "res.h"
#include <kelcoro/algorithm.hpp>
#include <kelcoro/job.hpp>

namespace {
// the handle told belongs to the task of this context (where the promise names its context so)
template <typename T, typename X>
bool is_task_of(std::coroutine_handle<T> t, X* x) {
  if constexpr (requires { std::addressof(t.promise().ctx); }) return std::addressof(t.promise().ctx) == x;
  else return true;
}
enum { CTX_OWNER = 40, CTX_START, CTX_END };
enum Where { SYNC, PARK, HOP };
constexpr int MAXN = 5;
struct Ctx {
  int id = -1;
  int owners = 0, starts = 0, ends = 0;
  void* owner = nullptr;
  int failed = -1;  // not known
  Probe p{5};
  NO_ADDRESS_OF(Ctx)
  void alive() const { MC_CHECK(p.get() == 5 && id >= 0, "context damaged"); }
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) {
    alive();
    MC_CHECK(o && t && !t.done(), "null or finished");
    MC_CHECK(is_task_of(t, this), "handle of another task");
    MC_CHECK(owners == 0 && starts == 0 && ends == 0, "task %d: owner set after %d owners, %d starts, %d ends", id, owners, starts, ends);
    owners++;
    owner = o.address();
    mc_log(CTX_OWNER, id, (long)o.address());
  }
  template <typename T>
  void on_start(std::coroutine_handle<T> t) {
    alive();
    MC_CHECK(t && !t.done() && is_task_of(t, this), "handle of another task");
    MC_CHECK(starts == 0 && ends == 0 && log_count(BEGIN, id) == 0, "task %d: started again or after its body", id);
    starts++;
    mc_log(CTX_START, id, 0);
  }
  template <typename T>
  void on_end(std::coroutine_handle<T> t) {
    alive();
    MC_CHECK(t && is_task_of(t, this), "handle of another task");
    MC_CHECK(ends == 0 && starts <= 1, "task %d ended again", id);
    ends++;
    if constexpr (requires { (bool)t.promise().exception; }) failed = (bool)t.promise().exception;
    if (id < 10) MC_CHECK(log_count(END, id) == 1 && log_count(LOCALS_DEAD, id) == 1, "task %d: end told before its body ended", id);
    mc_log(CTX_END, id, failed);
  }
};
Ctl cs[MAXN];
int where[MAXN];
bool fails[MAXN];
Ctx* ctx_of[MAXN];
template <typename T>
dd::task<T, Ctx> child_(int i, auto...) {
  Local local{cs[i]};
  MC_CHECK(log_count(BEGIN, i) == 0, "begun again");
  mc_log(BEGIN, i, 0);
  Ctx& ctx = co_await dd::this_coro::context;
  MC_CHECK(std::addressof(ctx) == ctx_of[i], "task %d: another context inside than outside", i);
  if (where[i] == HOP) co_await hop{};
  if (where[i] == PARK) co_await park{cs[i]};
  Ctx& again = co_await dd::this_coro::context;
  MC_CHECK(std::addressof(ctx) == std::addressof(again) && ctx.ends == 0, "context");
  cs[i].written = 5;
  mc_log(END, i, 0);
  if (fails[i]) throw Err{10 + i};
  if constexpr (!std::is_void_v<T>) co_return 100 + i;
}
Res* res;
template <typename T>
auto child(int i) {
  auto t = res ? child_<T>(i, dd::with_pmr_resource{*res}) : child_<T>(i);
  ctx_of[i] = t.get_context();
  MC_CHECK(ctx_of[i] && ctx_of[i]->owners == 0 && ctx_of[i]->starts == 0, "fresh context");
  ctx_of[i]->id = i;
  return t;
}
void setup(int n, int nwhere) {
  for (int i = 0; i < n; i++) {
    cs[i] = Ctl{i};
    where[i] = mc::choose(nwhere, "where");
    fails[i] = mc::flip("fails");
    ctx_of[i] = nullptr;
  }
}
void resume_parked(int n) {
  for (;;) {
    std::vector<int> p;
    for (int i = 0; i < n; i++)
      if (cs[i].parked) p.push_back(i);
    if (p.empty()) return;
    std::exchange(cs[p[mc::choose(p.size(), "which")]].parked, nullptr).resume();
  }
}
// the events of task i in the log; at least one awaited task
void check_events(int i, bool owned, bool started, bool ran) {
  int o = log_find(CTX_OWNER, i), s = log_find(CTX_START, i), e = log_find(CTX_END, i), b = log_find(BEGIN, i);
  MC_CHECK(log_count(CTX_OWNER, i) == owned, "task %d: told %d owners", i, log_count(CTX_OWNER, i));
  MC_CHECK(log_count(CTX_START, i) == started, "task %d: told %d starts", i, log_count(CTX_START, i));
  MC_CHECK(log_count(CTX_END, i) == ran && log_count(END, i) == ran, "task %d: told %d ends, ended %d times", i, log_count(CTX_END, i), log_count(END, i));
  if (owned) MC_CHECK(o < s, "task %d: start told before the owner", i);
  if (started) MC_CHECK(b < 0 || s < b, "task %d: body ran before the start was told", i);
  if (ran) {
    if (mc_log_b(e) != -1) MC_CHECK(mc_log_b(e) == fails[i], "task %d: told that it %s", i, mc_log_b(e) ? "failed" : "succeeded");
    MC_CHECK(log_find(LOCALS_DEAD, i) < e, "task %d: end told before its body ended", i);
  }
}
struct learn_self {
  void* h;
  bool await_ready() { return false; }
  bool await_suspend(std::coroutine_handle<> x) {
    h = x.address();
    return false;
  }
  void* await_resume() { return h; }
};
// the awaiting coroutine, whatever kind it is
template <typename T>
void goes_on(Ctx* x, int i, void* me) {
  MC_CHECK(x->ends == 1, "task %d: %d ends told before the awaiter goes on", i, x->ends);
  MC_CHECK(x->owners == 1 && x->owner == me, "task %d: another owner than the one who awaits", i);
  mc_log(OWNER_GOES_ON, i, 0);
}
#define AWAIT_BODY                                  \
  void* me = co_await learn_self{};                 \
  Ctx* x = t.get_context();                         \
  int i = x->id;                                    \
  if (only_wait) {                                  \
    co_await t.wait();                              \
    goes_on<T>(x, i, me);                           \
  }                                                 \
  try {                                             \
    co_await t;                                     \
    MC_CHECK(!fails[i], "no exception");            \
  } catch (Err& e) { MC_CHECK(fails[i], "exception"); } \
  if (!only_wait) goes_on<T>(x, i, me);             \
  try {                                             \
    co_await t;                                     \
  } catch (Err& e) {}                               \
  MC_CHECK(t.get_context() == x, "context");        \
  mc_log(OWNER_END, i, 0);                          \
  start_again(t);
// a task that ended is started once more: nothing happens, and nothing is told
template <typename T>
static void start_again(dd::task<T, Ctx>& t) {
  switch (mc::choose(3, "end")) {
    case 1: MC_CHECK(!t.start_and_detach(), "a handle to a destroyed task"); break;
    case 2: {
      auto h = t.start_and_detach(true);
      MC_CHECK(h && h.done() && t.empty(), "");
      h.destroy();
    }
  }
}
template <typename T>
co by_co(dd::task<T, Ctx> t, bool only_wait) { AWAIT_BODY }
template <typename T>
dd::job by_job(dd::task<T, Ctx> t, bool only_wait) { AWAIT_BODY }
template <typename T>
dd::async_task<void> by_async(dd::task<T, Ctx> t, bool only_wait) { AWAIT_BODY }
template <typename T>
dd::task<void> by_task(dd::task<T, Ctx> t, bool only_wait) { AWAIT_BODY }
template <typename T>
dd::task<void, Ctx> by_ctx_task(dd::task<T, Ctx> t, bool only_wait) { AWAIT_BODY }
template <typename T>
dd::task<void, Ctx> by_ctx_task_r(dd::task<T, Ctx> t, bool only_wait, dd::with_pmr_resource) { AWAIT_BODY }

enum { CO, JOB, ASYNC, TASK, CTX_TASK, CTX_TASK_R, GET, DETACHED, DETACHED_STOP, HANDLE, DROPPED, NDRIVE };
template <typename T>
void drive(int nwhere) {
  setup(1, nwhere);
  Res r;
  res = mc::flip("resource") ? &r : nullptr;
  int how = mc::choose(NDRIVE, "driven by");
  bool w = how <= CTX_TASK_R && mc::flip("wait first");
  bool owned = true, started = true, ran = true;
  if (how == GET && where[0] == PARK) return;
  {
    auto t = child<T>(0);
    std::coroutine_handle<> h;
    dd::task<void, Ctx> outer;
    switch (how) {
      case CO: by_co(std::move(t), w); break;
      case JOB: by_job(std::move(t), w); break;
      case ASYNC: {
        auto a = by_async(std::move(t), w);
        break;
      }
      case TASK: by_task(std::move(t), w).start_and_detach(); break;
      case CTX_TASK:
      case CTX_TASK_R: {
        outer = how == CTX_TASK ? by_ctx_task(std::move(t), w) : by_ctx_task_r(std::move(t), w, r);
        Ctx* x = outer.get_context();
        x->id = 10;
        auto oh = outer.start_and_detach(true);
        h = oh;
        MC_CHECK(x->starts == 1 && x->owners == 0, "outer: told %d starts, %d owners", x->starts, x->owners);
        break;
      }
      case GET: {
        Ctx* x = ctx_of[0];
        (void)x;
        try {
          t.get();
          MC_CHECK(!fails[0], "no exception");
        } catch (Err& e) { MC_CHECK(fails[0], "exception"); }
        break;
      }
      case DETACHED:
        owned = false;
        t.start_and_detach();
        break;
      case DETACHED_STOP: {
        owned = false;
        auto th = t.start_and_detach(true);
        h = th;
        break;
      }
      case HANDLE:  // run by hand: nothing tells that it starts
        owned = started = false;
        t.detach().resume();
        break;
      case DROPPED:
        owned = started = ran = false;
        t = dd::task<T, Ctx>{};
        break;
    }
    resume_parked(1);
    mc_wait_quiescent();
    if (how == CTX_TASK || how == CTX_TASK_R) MC_CHECK(log_count(CTX_END, 10) == 1 && log_count(CTX_START, 10) == 1 && log_count(CTX_OWNER, 10) == 0, "outer: events");
    if (h) {
      MC_CHECK(h.done(), "not done");
      h.destroy();
    }
  }
  check_events(0, owned, started, ran);
  if (how <= CTX_TASK_R) {
    MC_CHECK(log_count(OWNER_END, 0) == 1, "awaiter");
    MC_CHECK(log_find(CTX_END, 0) < log_find(OWNER_GOES_ON, 0), "awaiter went on before the end was told");
  }
  MC_CHECK(r.live.empty(), "left in the resource");
}
}  // namespace
MC_SCENARIO(one_int, 0, 0, "task with a context x who drives it (11 ways) x endings x frame allocation") { drive<int>(2); }
MC_SCENARIO(one_void, 0, 0, "same, void") { drive<void>(2); }
MC_SCENARIO(one_hops, 20, 20, "same, body moving to a fresh thread") { drive<int>(3); }

namespace {
template <typename W>
void check_combined(W& t, int n, void* combining, bool any) {
  for (int i = 0; i < n; i++) {
    if (any && log_count(CTX_START, i) == 0) {  // decided before it was started
      check_events(i, false, false, false);
      continue;
    }
    check_events(i, true, true, true);
    if (!any) MC_CHECK(mc_log_b(log_find(CTX_OWNER, i)) == (long)combining, "task %d: its owner is not the combining task", i);
  }
}
co awaits(auto t, int n, bool any) {
  void* me = co_await learn_self{};
  Ctx* x = t.get_context();
  x->id = 10;
  co_await t.wait();
  MC_CHECK(x->owners == 1 && x->owner == me && x->starts == 1 && x->ends == 1, "combining task: events");
  mc_log(OWNER_GOES_ON, 0, 0);
  if (!any)
    for (int i = 0; i < n; i++) MC_CHECK(log_count(CTX_END, i) == 1, "task %d: end not told before the awaiter goes on", i);
  mc_log(OWNER_END, 0, 0);
}
void combined(int n, bool vec, bool any, int nwhere) {
  setup(n, nwhere);
  res = nullptr;
  auto run = [&](auto t) {
    void* h = t.raw_handle().address();
    bool all_sync = true;
    for (int i = 0; i < n; i++) all_sync &= where[i] == SYNC;
    awaits(std::move(t), n, any);
    if (!any)
      for (int i = 0; i < n; i++)
        if (where[i] == PARK && cs[i].parked) MC_CHECK(ctx_of[i]->owner == h, "task %d: its owner is not the combining task", i);
    resume_parked(n);
    mc_wait_quiescent();
    check_combined(t, n, h, any);
    MC_CHECK(log_count(OWNER_END) == 1, "awaiter");
  };
  if (vec) {
    std::vector<dd::task<int, Ctx>> v;
    for (int i = 0; i < n; i++) v.push_back(child<int>(i));
    run(dd::when_all(std::move(v)));
  } else if (any) {
    if (n == 1) run(dd::when_any(child<int>(0)));
    if (n == 2) run(dd::when_any(child<int>(0), child<void>(1)));
    if (n == 3) run(dd::when_any(child<int>(0), child<void>(1), child<int>(2)));
  } else {
    if (n == 1) run(dd::when_all(child<int>(0)));
    if (n == 2) run(dd::when_all(child<int>(0), child<void>(1)));
    if (n == 3) run(dd::when_all(child<int>(0), child<void>(1), child<int>(2)));
  }
}
}  // namespace
MC_SCENARIO(all_seq, 0, 0, "1-3 tasks under when_all, at once or parked") { combined(1 + mc::choose(3, "n"), false, false, 2); }
MC_SCENARIO(all_vector_seq, 0, 0, "1-4 tasks in a vector") { combined(1 + mc::choose(4, "n"), true, false, 2); }
MC_SCENARIO(any_seq, 0, 0, "1-3 tasks under when_any") { combined(1 + mc::choose(3, "n"), false, true, 2); }
MC_SCENARIO(all_hops, 20, 20, "2 tasks under when_all, moving to threads") {
  combined(2, mc::flip("vector"), false, 3);
}
MC_SCENARIO(all3_hops, 20, 20, "3 tasks under when_all, moving to threads") {
  combined(3, mc::flip("vector"), false, 3);
}
MC_SCENARIO(any_hops, 4, 7, "2 tasks under when_any, moving to threads") { combined(2, false, true, 3); }

// a chain of tasks, each with a context, each awaiting the next
namespace {
void* handle_of[MAXN];
dd::task<int, Ctx> level(int i, int n) {
  Local local{cs[i]};
  mc_log(BEGIN, i, 0);
  Ctx& ctx = co_await dd::this_coro::context;
  MC_CHECK(std::addressof(ctx) == ctx_of[i], "context");
  auto self = co_await dd::this_coro::handle;
  MC_CHECK(self.address() == handle_of[i], "handle");
  if (i + 1 < n) {
    auto t = level(i + 1, n);
    handle_of[i + 1] = t.raw_handle().address();
    ctx_of[i + 1] = t.get_context();
    ctx_of[i + 1]->id = i + 1;
    if (where[i] == HOP) co_await hop{};
    try {
      co_await t;
    } catch (Err&) {}
    MC_CHECK(ctx_of[i + 1]->owner == handle_of[i], "level %d: owner", i + 1);
    MC_CHECK(ctx_of[i + 1]->ends == 1, "level %d: end not told", i + 1);
  } else {
    if (where[i] == PARK) co_await park{cs[i]};
    if (where[i] == HOP) co_await hop{};
  }
  cs[i].written = 5;
  mc_log(END, i, 0);
  if (fails[i]) throw Err{i};
  co_return 1;
}
}  // namespace
MC_SCENARIO(chain, 20, 20, "1-4 tasks awaiting each other: owners and order of the events at every level") {
  int n = 1 + mc::choose(4, "levels");
  setup(n, 3);
  auto t = level(0, n);
  handle_of[0] = t.raw_handle().address();
  ctx_of[0] = t.get_context();
  ctx_of[0]->id = 0;
  auto h = t.start_and_detach(true);
  mc_wait_quiescent();
  resume_parked(n);
  mc_wait_quiescent();
  MC_CHECK(h.done(), "not done");
  for (int i = 0; i < n; i++) {
    check_events(i, i > 0, true, true);
    if (i) MC_CHECK(log_find(CTX_START, i) > log_find(CTX_START, i - 1) && log_find(CTX_END, i) < log_find(CTX_END, i - 1), "order of levels");
  }
  h.destroy();
}

// a task awaited on behalf of another coroutine: that one is the owner told, the awaiter is the one who goes on
namespace {
struct proxy_told {
  template <typename P>
  static void check(Ctx* x, std::coroutine_handle<P> h) {
    MC_CHECK(x->owners == 1 && x->owner == h.address(), "another owner than the coroutine named");
  }
};
template <typename P>
co waits_for(dd::task<int, Ctx> t, std::coroutine_handle<P> owner, int i) {
  Ctx* x = t.get_context();
  co_await t.wait_with_proxy_owner(owner);
  MC_CHECK(x->ends == 1, "task %d: goes on before the end is told", i);
  proxy_told::check(x, owner);
  mc_log(OWNER_GOES_ON, i, 0);
  // asked again: already finished, nothing is told again
  co_await t.wait_with_proxy_owner(owner);
  MC_CHECK(x->owners == 1 && x->starts == 1 && x->ends == 1, "told again");
  try {
    int r = t.get();
    MC_CHECK(!fails[i] && r == 100 + i, "task %d: got %d", i, r);
  } catch (Err& e) { MC_CHECK(fails[i] && e.code == 10 + i, "task %d: exception %d", i, e.code); }
  mc_log(OWNER_END, i, 0);
}
dd::task<void> proxy_body(bool* resumed) {
  *resumed = true;
  co_return;
}
void proxied(int n, int nwhere) {
  setup(n, nwhere);
  Res r;
  res = mc::flip("resource") ? &r : nullptr;
  bool touched = false;
  {
    auto p = proxy_body(&touched);
    const int owner = mc::choose(3, "kind of owner");
    for (int i = 0; i < n; i++) {
      if (owner == 2) waits_for(child<int>(i), std::coroutine_handle<>(p.raw_handle()), i);
      else if (owner == 1) waits_for(child<int>(i), std::noop_coroutine(), i);
      else waits_for(child<int>(i), p.raw_handle(), i);
    }
    resume_parked(n);
    mc_wait_quiescent();
    MC_CHECK(!touched && !p.raw_handle().done(), "the owner named was resumed");
  }
  for (int i = 0; i < n; i++) {
    check_events(i, true, true, true);
    MC_CHECK(log_count(OWNER_GOES_ON, i) == 1 && log_count(OWNER_END, i) == 1, "awaiter %d went on %d times", i, log_count(OWNER_GOES_ON, i));
    MC_CHECK(log_find(CTX_END, i) < log_find(OWNER_GOES_ON, i), "awaiter went on before the end was told");
  }
  MC_CHECK(r.live.empty(), "left in the resource");
}
}  // namespace
MC_SCENARIO(proxy, 0, 0, "1-3 tasks awaited on behalf of one other coroutine, at once or parked") { proxied(1 + mc::choose(3, "n"), 2); }
MC_SCENARIO(proxy_hops, 20, 20, "2 tasks awaited on behalf of another coroutine, moving to threads") { proxied(2, 3); }
// great depth and width
namespace {
struct Level;
std::vector<Level*> levels;
int nstarted, nended;
struct Level {
  int at = -1, owners = 0, starts = 0, ends = 0;
  Level() { levels.push_back(this); }
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O>, std::coroutine_handle<T>) {
    MC_CHECK(owners++ == 0 && starts == 0, "owner set again or late");
  }
  template <typename T>
  void on_start(std::coroutine_handle<T> t) {
    MC_CHECK(starts++ == 0 && is_task_of(t, this), "started again");
    at = nstarted++;
  }
  template <typename T>
  void on_end(std::coroutine_handle<T>) {
    MC_CHECK(ends++ == 0 && starts == 1, "ended again or not started");
    nended++;
  }
};
dd::task<int, Level> deep(int n) {
  MC_CHECK(nstarted == (int)levels.size(), "not told of the start before the body");
  if (n == 0) co_return 0;
  int at = nstarted;
  auto t = deep(n - 1);
  int r = co_await t;
  MC_CHECK(t.get_context()->at == at && t.get_context()->ends == 1 && t.get_context()->owners == 1, "context of level %d", at);
  co_return r + 1;
}
dd::task<int, Level> leaf(int i) {
  if (i % 4 == 1) throw Err{i};
  co_return i;
}
}  // namespace
MC_SCENARIO(deep_and_wide, 0, 0, "300 tasks with contexts awaiting each other; 300 under when_all, some failing") {
  levels.clear();
  nstarted = nended = 0;
  if (mc::flip("deep")) {
    auto t = deep(300);
    MC_CHECK(t.get() == 300, "value");
    MC_CHECK(nstarted == 301 && nended == 301, "%d started, %d ended", nstarted, nended);
  } else {
    std::vector<dd::task<int, Level>> v;
    for (int i = 0; i < 300; i++) v.push_back(leaf(i));
    auto all = dd::when_all(std::move(v));
    auto r = all.get();
    for (int i = 0; i < 300; i++) MC_CHECK(r[i].has_value() == (i % 4 != 1), "outcome %d", i);
    MC_CHECK(nstarted == 301 && nended == 301, "%d started, %d ended", nstarted, nended);
  }
}
int main(int c, char** v) { return mc_main(c, v); }
