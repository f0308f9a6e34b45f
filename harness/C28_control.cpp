// C28: control transfer, destruction and scope helpers, in every kind of coroutine that accepts them
#include "res.h"
#include <kelcoro/async_task.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/job.hpp>
#include <kelcoro/logical_thread.hpp>
#include <kelcoro/task.hpp>

namespace {
enum { BEGIN = 1, AFTER, DEAD, TARGET, FN, BACK, EXIT };
std::coroutine_handle<> self;      // the coroutine under test, as it finds itself
std::coroutine_handle<> target;    // where it transfers to
struct Local {
  Probe p{3};
  ~Local() {
    MC_CHECK(p.get() == 3, "local damaged");
    mc_log(DEAD, 0, 0);
  }
};
struct learn_self {
  bool await_ready() { return false; }
  bool await_suspend(std::coroutine_handle<> h) {
    self = h;
    return false;
  }
  void await_resume() {}
};
raw_co target_body() {
  for (;;) {
    mc_log(TARGET, 0, 0);
    co_await std::suspend_always{};
  }
}
// what the coroutine under test does
enum What { TRANSFER, TRANSFER_NULL, DESTROY, DESTROY_TRANSFER, DESTROY_TRANSFER_NULL, AND_VOID, AND_TRUE, AND_FALSE, AND_HANDLE, AND_SELF, AND_RESUMES, AND_DESTROYS, AND_LVALUE, HANDLE, HASH, NWHAT };

template <typename H>
void in_fn(H h) {
  MC_CHECK(h.address() == self.address(), "the function got another handle");
  mc_log(FN, 0, 0);
}
#define BODY(what)                                                                                          \
  Local local;                                                                                              \
  co_await learn_self{};                                                                                    \
  mc_log(BEGIN, 0, 0);                                                                                      \
  switch (what) {                                                                                           \
    case TRANSFER: co_await dd::transfer_control_to{target}; break;                                         \
    case TRANSFER_NULL: co_await dd::transfer_control_to{nullptr}; break;                                   \
    case DESTROY: co_await dd::this_coro::destroy; mc_fail("went on after its destruction");                \
    case DESTROY_TRANSFER: co_await dd::this_coro::destroy_and_transfer_control_to(target); mc_fail("went on after its destruction"); \
    case DESTROY_TRANSFER_NULL: co_await dd::this_coro::destroy_and_transfer_control_to(nullptr); mc_fail("went on after its destruction"); \
    case AND_VOID: co_await dd::this_coro::suspend_and([](auto h) { in_fn(h); }); break;                    \
    case AND_TRUE: co_await dd::this_coro::suspend_and([](auto h) { in_fn(h); return true; }); break;       \
    case AND_FALSE: co_await dd::this_coro::suspend_and([](auto h) { in_fn(h); return false; }); break;     \
    case AND_HANDLE: co_await dd::this_coro::suspend_and([](auto h) -> std::coroutine_handle<> { in_fn(h); return target; }); break; \
    case AND_SELF: co_await dd::this_coro::suspend_and([](auto h) -> std::coroutine_handle<> { in_fn(h); return h; }); break; \
    case AND_RESUMES: co_await dd::this_coro::suspend_and([](auto h) { in_fn(h); h.resume(); }); break;     \
    case AND_DESTROYS: co_await dd::this_coro::suspend_and([](auto h) { in_fn(h); h.destroy(); }); mc_fail("went on after its destruction"); \
    case AND_LVALUE: {                                                                                      \
      Probe kept(8);                                                                                        \
      auto fn = [kept](std::coroutine_handle<> h) {                                                         \
        MC_CHECK(kept.get() == 8, "the function is damaged");                                               \
        in_fn(h);                                                                                           \
      };                                                                                                    \
      co_await dd::this_coro::suspend_and(fn);                                                              \
      break;                                                                                                \
    }                                                                                                       \
    case HANDLE: {                                                                                          \
      auto h = co_await dd::this_coro::handle;                                                              \
      MC_CHECK(h.address() == self.address(), "handle of another coroutine");                              \
      auto h2 = co_await dd::this_coro::handle;                                                             \
      MC_CHECK(h2 == h && !h.done(), "second handle");                                                     \
      break;                                                                                                \
    }                                                                                                       \
    case HASH: {                                                                                            \
      auto x = co_await dd::this_coro::operation_hash;                                                      \
      auto y = co_await dd::this_coro::operation_hash;                                                      \
      MC_CHECK(x == y, "operation hash changes");                                                           \
      break;                                                                                                \
    }                                                                                                       \
  }                                                                                                         \
  MC_CHECK(local.p.get() == 3, "local damaged");                                                            \
  mc_log(AFTER, 0, 0);

struct plain {  // owned by nobody
  struct promise_type {
    plain get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { mc_fail("escaped"); }
  };
};
plain k_plain(int what) { BODY(what) }
dd::job k_job(int what) { BODY(what) }
dd::job k_job_res(int what, dd::with_pmr_resource) { BODY(what) }
dd::task<int> k_task(int what) { BODY(what) co_return 1; }
dd::task<void> k_task_res(int what, dd::with_pmr_resource) { BODY(what) }
dd::async_task<int> k_async(int what) { BODY(what) co_return 1; }
dd::async_task<void> k_async_res(int what, dd::with_pmr_resource) { BODY(what) }
dd::logical_thread k_lt(int what) { BODY(what) }
dd::logical_thread k_lt_res(int what, dd::with_pmr_resource) { BODY(what) }
dd::channel<int> k_chan(int what) { BODY(what) co_yield 1; }
dd::channel<int> k_chan_res(int what, dd::with_pmr_resource) { BODY(what) co_yield 1; }
dd::generator<int> k_gen(int what) { BODY(what) co_yield 1; }
dd::generator<int> k_gen_res(int what, dd::with_pmr_resource) { BODY(what) co_yield 1; }
enum { NKIND = 13 };

bool ends_itself(int what) { return what == DESTROY || what == DESTROY_TRANSFER || what == DESTROY_TRANSFER_NULL || what == AND_DESTROYS; }
bool suspends(int what) { return what == TRANSFER || what == AND_VOID || what == AND_TRUE || what == AND_HANDLE || what == AND_LVALUE; }
// after it was started for the first time
void check_started(int what) {
  MC_CHECK(log_count(BEGIN) == 1, "started %d times", log_count(BEGIN));
  int t = what == TRANSFER || what == DESTROY_TRANSFER || what == AND_HANDLE;
  MC_CHECK(log_count(TARGET) == t, "the target was resumed %d times", log_count(TARGET));
  bool f = what >= AND_VOID && what <= AND_LVALUE;
  MC_CHECK(log_count(FN) == f, "the function was called %d times", log_count(FN));
  MC_CHECK(log_count(AFTER) == !(ends_itself(what) || suspends(what)), "what %d: %s", what, log_count(AFTER) ? "went on" : "did not go on");
  if (ends_itself(what)) {
    MC_CHECK(log_count(DEAD) == 1, "locals destroyed %d times", log_count(DEAD));
    if (t) MC_CHECK(log_find(DEAD) < log_find(TARGET), "the target ran before the coroutine was destroyed");
  }
}
void check_end(int what) {
  MC_CHECK(log_count(AFTER) == !ends_itself(what), "ended %d times", log_count(AFTER));
  MC_CHECK(log_count(DEAD) == 1, "locals destroyed %d times", log_count(DEAD));
}
co consume(dd::channel<int>& c, int& n) {
  co_foreach(int x, c) {
    MC_CHECK(x == 1, "value");
    n++;
  }
}
template <typename Kind>
void drop(Kind& k) {  // the frame is gone: the owner must not touch it
  if constexpr (requires { (void)k.release(); }) (void)k.release();
}
}  // namespace

MC_SCENARIO(helpers, 0, 0, "13 coroutine kinds x 15 helpers: resumptions, order, destructions, suspension") {
  Res r;
  self = nullptr;
  raw_co tgt = target_body();
  target = tgt.h;
  int what = mc::choose(NWHAT, "what"), kind = mc::choose(NKIND, "kind");
  bool hash_only = what == HASH;
  (void)hash_only;
  auto go_on = [&] {
    if (suspends(what)) {
      MC_CHECK(!self.done(), "");
      mc_log(BACK, 0, 0);
      self.resume();
    }
  };
  switch (kind) {
    case 0: k_plain(what); check_started(what); go_on(); break;
    case 1: k_job(what); check_started(what); go_on(); break;
    case 2: k_job_res(what, r); check_started(what); go_on(); break;
    case 3: k_task(what).start_and_detach(); check_started(what); go_on(); break;
    case 4: k_task_res(what, r).start_and_detach(); check_started(what); go_on(); break;
    case 5:
    case 6:
    case 7:
    case 8: {
      // these have an owner that would wait for the end: only what does not end them
      if (ends_itself(what)) mc_stop_here();
      if (kind == 5) {
        auto t = k_async(what);
        check_started(what);
        go_on();
        MC_CHECK(t.ready() && t.get() == 1, "value");
      } else if (kind == 6) {
        auto t = k_async_res(what, r);
        check_started(what);
        go_on();
        MC_CHECK(t.ready(), "not ready");
      } else {
        dd::logical_thread t = kind == 7 ? k_lt(what) : k_lt_res(what, r);
        check_started(what);
        go_on();
        t.join();
      }
      break;
    }
    case 9:
    case 10: {
      dd::channel<int> c = kind == 9 ? k_chan(what) : k_chan_res(what, r);
      int n = 0;
      if (ends_itself(what)) mc_stop_here();
      consume(c, n);
      check_started(what);
      go_on();
      MC_CHECK(n == 1, "values %d", n);
      break;
    }
    case 11:
    case 12: {
      // only helpers that do not really suspend, as the documentation demands
      if (ends_itself(what) || suspends(what)) mc_stop_here();
      dd::generator<int> g = kind == 11 ? k_gen(what) : k_gen_res(what, r);
      int n = 0;
      for (int x : g) n += x;
      check_started(what);
      MC_CHECK(n == 1, "values %d", n);
      break;
    }
  }
  check_end(what);
  if (ends_itself(what) && !r.live.empty()) mc_fail("frame memory not returned");
  tgt.h.destroy();
  MC_CHECK(r.live.empty(), "frame memory not returned");
}

// the hash a coroutine gets is the one the executors compute for its handle
static size_t hash_seen;
static std::coroutine_handle<> handle_seen;
static dd::job hash_job() {
  hash_seen = co_await dd::this_coro::operation_hash;
  auto h = co_await dd::this_coro::handle;
  handle_seen = h;
  MC_CHECK(hash_seen == dd::calculate_operation_hash(h), "hash of the handle differs");
}
static dd::task<int> hash_task() {
  size_t a = co_await dd::this_coro::operation_hash;
  auto h = co_await dd::this_coro::handle;
  MC_CHECK(a == dd::calculate_operation_hash(h), "hash of the handle differs");
  hash_seen = a;
  handle_seen = h;
  co_return 1;
}
static dd::task<int> hash_parent() {
  co_await hash_task();
  size_t child = hash_seen;
  auto h = co_await dd::this_coro::handle;
  MC_CHECK(child == dd::calculate_operation_hash(std::coroutine_handle<>(h)), "a child task counts as the operation of its owner");
  co_return 1;
}
MC_SCENARIO(hash_values, 0, 0, "operation hashes agree with calculate_operation_hash; a child task has its owner's") {
  if (mc::flip("task")) hash_parent().get();
  else hash_job();
}

// stop tokens --------------------------------------------------------------------------------------
static std::coroutine_handle<> parked;
struct park {
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { parked = h; }
  void await_resume() {}
};
template <typename... R>
static dd::logical_thread stoppable(bool& seen_before, bool& seen_after, R...) {
  auto token = co_await dd::this_coro::stop_token;
  mc_log(BEGIN, 0, 0);
  seen_before = token.stop_requested();
  co_await park{};
  const auto& again = co_await dd::this_coro::stop_token;
  seen_after = token.stop_requested();
  MC_CHECK(again.stop_requested() == seen_after, "two tokens of one coroutine disagree");
}
MC_SCENARIO(stop_token, 0, 0, "the stop token does not suspend and shows exactly its own thread's requests") {
  Res r;
  bool a0 = true, a1 = true, b0 = true, b1 = true;
  bool res = mc::flip("resource");
  dd::logical_thread a = res ? stoppable<dd::with_pmr_resource>(a0, a1, r) : stoppable(a0, a1);
  MC_CHECK(log_count(BEGIN) == 1, "obtaining the stop token suspended the coroutine");
  auto pa = parked;
  dd::logical_thread b = stoppable(b0, b1);
  auto pb = parked;
  bool sa = mc::flip("stop a"), sb = mc::flip("stop b");
  if (sa) MC_CHECK(a.request_stop(), "");
  if (sb) MC_CHECK(b.request_stop(), "");
  pa.resume();
  pb.resume();
  MC_CHECK(!a0 && !b0 && a1 == sa && b1 == sb, "stop requests: a %d seen %d, b %d seen %d", sa, a1, sb, b1);
}

// scope_exit ---------------------------------------------------------------------------------------
static int acted;
static void leave(int how) {
  dd::scope_exit guard{[x = Probe(4)] {
    MC_CHECK(x.get() == 4, "the action is damaged");
    acted++;
  }};
  MC_CHECK(acted == 0, "acted before the exit");
  if (how == 0) return;
  if (how == 1) throw Err{1};
  for (int i = 0; i < 2; i++) {
    int inner = 0;
    {
      auto f = [&] { inner++; };
      dd::scope_exit g(f);
      if (i) continue;
    }
    MC_CHECK(inner == 1, "inner guard acted %d times", inner);
  }
}
static dd::task<int> leave_coro(int how) {
  dd::scope_exit guard{[x = Probe(4)] { acted += x.get() == 4; }};
  if (how == 1) throw Err{1};
  if (how == 2) co_await park{};
  co_return 1;
}
MC_SCENARIO(scope_exit, 0, 0, "a scope guard acts once on return, exception, destruction of the coroutine") {
  acted = 0;
  int how = mc::choose(4, "how");
  if (mc::flip("coroutine")) {
    auto h = leave_coro(how).start_and_detach(true);
    if (how == 2) {
      MC_CHECK(acted == 0, "acted before the exit");
      if (mc::flip("resume")) {
        parked.resume();
        MC_CHECK(acted == 1, "acted %d times", acted);
      }
    } else MC_CHECK(acted == 1, "acted %d times", acted);
    h.destroy();
  } else
    try {
      leave(how);
      MC_CHECK(how != 1, "");
    } catch (Err& e) {
      MC_CHECK(how == 1 && e.code == 1, "");
    }
  MC_CHECK(acted == 1, "acted %d times", acted);
}
static dd::task<int> act_and_throw() {
  Probe local(3);
  dd::scope_exit guard{[] {
    acted++;
    throw Err{7};
  }};
  co_return 1;
}
MC_SCENARIO(scope_exit_throws, 0, 0, "an action that throws: whoever left the scope gets the exception, once") {
  acted = 0;
  const bool coroutine = mc::flip("coroutine"), loop = mc::flip("breaks off");
  int caught = 0, after = 0;
  try {
    if (coroutine) {
      (void)act_and_throw().get();
    } else
      for (int i = 0; i < 2; i++) {
        Probe outer(1);
        dd::scope_exit guard{[x = Probe(2)] {
          acted += x.get() == 2;
          throw Err{7};
        }};
        if (loop) break;
      }
    after++;
  } catch (Err& e) {
    MC_CHECK(e.code == 7, "exception %d", e.code);
    caught++;
  }
  MC_CHECK(acted == 1 && caught == 1 && after == 0, "acted %d times, %d exceptions, %d", acted, caught, after);
}
// chains: each coroutine destroys itself and transfers to the next, across two threads
static plain link(int n, std::coroutine_handle<> next) {
  Local local;
  co_await learn_self{};
  auto me = self;
  co_await dd::this_coro::suspend_and([](auto) {});
  mc_log(AFTER, n, 0);
  (void)me;
  co_await dd::this_coro::destroy_and_transfer_control_to(next);
}
MC_SCENARIO(chain, 0, 0, "chains of self-destroying coroutines of length 0-4") {
  std::coroutine_handle<> next = nullptr;
  int n = mc::choose(5, "length");
  for (int i = 0; i < n; i++) {
    link(i, next);
    next = self;
  }
  if (next) next.resume();
  for (int i = 0; i < n; i++) MC_CHECK(log_count(AFTER, i) == 1, "link %d ran %d times", i, log_count(AFTER, i));
  MC_CHECK(log_count(DEAD) == n, "%d of %d destroyed", log_count(DEAD), n);
}
// suspend_and hands the coroutine to another thread, which may resume and end it before the function returns
static plain handed(int how, std::vector<std::thread>& ts) {
  Local local;
  co_await learn_self{};
  co_await dd::this_coro::suspend_and([how, &ts, x = Probe(6)](std::coroutine_handle<> h) {
    auto& t = ts;
    t.emplace_back([h, how] {
      if (how) h.resume();
      else h.destroy();
    });
  });
  mc_log(AFTER, 0, 0);
}
MC_SCENARIO(handed_over, 20, 20, "another thread resumes or destroys the coroutine while the function still returns") {
  std::vector<std::thread> ts;
  int how = mc::choose(2, "resume");
  handed(how, ts);
  ts[0].join();
  MC_CHECK(log_count(AFTER) == how && log_count(DEAD) == 1, "went on %d, destroyed %d", log_count(AFTER), log_count(DEAD));
}
// long chains take no stack
static long links_run, links_dead;
struct LinkLife {
  ~LinkLife() { links_dead++; }
};
static plain quiet_link(std::coroutine_handle<> next, int i) {
  LinkLife life;
  co_await learn_self{};
  co_await dd::this_coro::suspend_and([](auto) {});
  MC_CHECK(links_run == i, "link %d after %ld", i, links_run);
  links_run++;
  co_await dd::this_coro::destroy_and_transfer_control_to(next);
}
MC_SCENARIO(long_chain, 0, 0, "a chain of 20000 self-destroying coroutines") {
  links_run = links_dead = 0;
  constexpr int N = 20000;
  std::coroutine_handle<> next = nullptr;
  for (int i = N - 1; i >= 0; i--) {
    quiet_link(next, i);
    next = self;
  }
  next.resume();
  MC_CHECK(links_run == N && links_dead == N, "%ld ran, %ld destroyed", links_run, links_dead);
}
// build_awaiter finds the awaiter that co_await finds, without a copy
namespace awaiters {
enum { SELF = 1, MEMBER, MEMBER_LV, MEMBER_RV, GLOBAL_LV, GLOBAL_RV };
struct Own {  // an awaiter itself, which may not be copied or moved
  int id = SELF;
  Own() = default;
  Own(const Own&) = delete;
  bool await_ready() { return true; }
  void await_suspend(std::coroutine_handle<>) {}
  int await_resume() { return id; }
};
struct Other {  // what the operators return
  int id;
  const void* of;
  bool await_ready() { return true; }
  void await_suspend(std::coroutine_handle<>) {}
  int await_resume() { return id; }
};
struct Both : Own {  // an awaiter whose co_await gives another one: the language prefers the operator
  Both() { id = SELF; }
};
struct Mem {
  Mem() = default;
  Mem(const Mem&) = delete;
  Other operator co_await() const { return {MEMBER, this}; }
};
struct MemQ {
  MemQ() = default;
  MemQ(const MemQ&) = delete;
  Other operator co_await() & { return {MEMBER_LV, this}; }
  Other operator co_await() && { return {MEMBER_RV, this}; }
};
struct Glob {
  Glob() = default;
  Glob(const Glob&) = delete;
};
Other operator co_await(Glob& g) { return {GLOBAL_LV, std::addressof(g)}; }
Other operator co_await(Glob&& g) { return {GLOBAL_RV, std::addressof(g)}; }
template <typename T>
plain same(bool lvalue, int& language) {
  T x;
  if (lvalue) language = co_await x;
  else language = co_await std::move(x);
}
template <typename T>
void one(bool lvalue) {
  T x;
  int language = 0;
  same<T>(lvalue, language);
  auto look = [&](auto&& a) {
    using A = std::remove_cvref_t<decltype(a)>;
    if constexpr (std::is_same_v<A, Other>) MC_CHECK(a.of == std::addressof(x), "the awaiter of another object");
    else MC_CHECK((const void*)std::addressof(a) == std::addressof(x), "another awaiter");
    MC_CHECK(a.await_resume() == language, "awaiter %d instead of %d", a.await_resume(), language);
  };
  if (lvalue) look(dd::build_awaiter(x));
  else look(dd::build_awaiter(std::move(x)));
}
}  // namespace awaiters
MC_SCENARIO(built_awaiters, 0, 0, "build_awaiter on awaiters, members and functions, lvalues and rvalues, against co_await itself") {
  using namespace awaiters;
  bool lvalue = mc::flip("lvalue");
  switch (mc::choose(5, "type")) {
    case 0: return one<Own>(lvalue);
    case 1: return one<Both>(lvalue);
    case 2: return one<Mem>(lvalue);
    case 3: return one<MemQ>(lvalue);
    case 4: return one<Glob>(lvalue);
  }
}
int main(int c, char** v) { return mc_main(c, v); }
