// Self-test of the model checker: ok_* scenarios must pass exhaustively, bad_* must be violated.
#include "mc.h"
#include <atomic>
#include <condition_variable>
#include <coroutine>
#include <memory>
#include <mutex>
#include <stop_token>
#include <stdexcept>
#include <thread>
#include <semaphore>
#include <latch>
#include <future>

MC_SCENARIO(bad_lost_update, 2, 2, "load;store is not atomic") {
  std::atomic<int> x{0};
  auto f = [&] { int v = x.load(); x.store(v + 1); };
  std::thread a(f), b(f);
  a.join(); b.join();
  MC_CHECK(x.load() == 2, "x=%d", x.load());
}
MC_SCENARIO(ok_fetch_add, 2, 3, "") {
  std::atomic<int> x{0};
  auto f = [&] { x.fetch_add(1, std::memory_order_relaxed); };
  std::thread a(f), b(f), c(f);
  a.join(); b.join(); c.join();
  MC_CHECK(x.load() == 3, "x=%d", x.load());
}
MC_SCENARIO(bad_race_relaxed, 2, 2, "relaxed publication") {
  static int data; static std::atomic<int> flag;
  std::thread a([] { data = 1; flag.store(1, std::memory_order_relaxed); });
  if (flag.load(std::memory_order_acquire)) MC_CHECK(data == 1, "");
  a.join();
}
MC_SCENARIO(ok_release, 2, 2, "") {
  static int data; static std::atomic<int> flag;
  std::thread a([] { data = 1; flag.store(1, std::memory_order_release); });
  if (flag.load(std::memory_order_acquire)) MC_CHECK(data == 1, "");
  a.join();
  mc_outcome("%d", data);
}
MC_SCENARIO(ok_fence, 2, 2, "") {
  static int data; static std::atomic<int> flag;
  std::thread a([] { data = 1; std::atomic_thread_fence(std::memory_order_release); flag.store(1, std::memory_order_relaxed); });
  if (flag.load(std::memory_order_relaxed)) { std::atomic_thread_fence(std::memory_order_acquire); MC_CHECK(data == 1, ""); }
  a.join();
}
MC_SCENARIO(ok_mutex_cv, 2, 3, "") {
  std::mutex m; std::condition_variable cv; int n = 0;
  std::thread a([&] { std::unique_lock l(m); while (!n) cv.wait(l); n = 2; });
  std::thread b([&] { std::lock_guard l(m); n = 1; cv.notify_one(); });
  a.join(); b.join();
  MC_CHECK(n == 2, "");
}
MC_SCENARIO(bad_cv_if, 2, 3, "if instead of while") {
  std::mutex m; std::condition_variable cv; int n = 0;
  std::thread a([&] { std::unique_lock l(m); if (!n) cv.wait(l); if (!n) mc_fail("woken early"); });
  std::thread b([&] { std::lock_guard l(m); n = 1; cv.notify_one(); });
  a.join(); b.join();
}
MC_SCENARIO(bad_lost_wakeup, 2, 3, "check outside of the lock") {
  std::mutex m; std::condition_variable cv; std::atomic<int> n = 0;
  std::thread a([&] { while (!n) { std::unique_lock l(m); cv.wait(l); } });
  std::thread b([&] { n = 1; std::lock_guard l(m); cv.notify_one(); });
  a.join(); b.join();
}
MC_SCENARIO(bad_deadlock, 2, 2, "lock order") {
  std::mutex a, b;
  std::thread t([&] { std::lock_guard x(a); std::lock_guard y(b); });
  { std::lock_guard x(b); std::lock_guard y(a); }
  t.join();
}
MC_SCENARIO(bad_uaf, 2, 2, "") {
  auto* p = new std::atomic<int>(0);
  std::thread t([p] { p->store(1); p->load(); });
  while (!p->load()) {}
  delete p;
  t.join();
}
MC_SCENARIO(bad_leak, 0, 0, "") { static void* volatile q; q = new int; q = nullptr; }
MC_SCENARIO(ok_static_alloc, 0, 0, "") { static std::unique_ptr<int> q(new int(4)); MC_CHECK(*q == 4, ""); *q = 5; }
MC_SCENARIO(bad_overflow, 0, 0, "") { char* p = new char[5]; p[5] = 1; delete[] p; }
MC_SCENARIO(bad_double_free, 0, 0, "") { int* p = new int; delete p; delete p; }
MC_SCENARIO(bad_terminate, 0, 0, "") { std::thread t([] { throw std::runtime_error("boo"); }); t.join(); }
MC_SCENARIO(ok_atomic_wait, 2, 3, "") {
  std::atomic<int> x{0}; std::atomic<bool> y{false};
  std::thread a([&] { x.wait(0); y.store(true); y.notify_one(); });
  std::thread b([&] { x.store(1); x.notify_all(); });
  y.wait(false);
  a.join(); b.join();
}
MC_SCENARIO(bad_no_notify, 2, 3, "") {
  std::atomic<int> x{0};
  std::thread a([&] { x.wait(0); });
  std::thread b([&] { x.store(1); });
  a.join(); b.join();
}
MC_SCENARIO(bad_notify_one, 2, 3, "two waiters, one notification") {
  std::atomic<int> x{0};
  auto w = [&] { x.wait(0); };
  std::thread a(w), a2(w);
  std::thread b([&] { x.store(1); x.notify_one(); });
  a.join(); b.join(); a2.join();
}
MC_SCENARIO(ok_spin, 2, 3, "") {
  std::atomic<int> x{0};
  std::thread a([&] { x.store(1); });
  while (!x.load()) {}
  a.join();
}
MC_SCENARIO(bad_livelock, 2, 3, "") {
  std::atomic<int> x{0};
  while (!x.load()) {}
}
MC_SCENARIO(bad_hang_plain, 0, 0, "") { volatile int x = 0; while (!x) {} }
MC_SCENARIO(ok_shared_ptr, 2, 2, "") {
  auto p = std::make_shared<int>(1);
  std::thread a([p]() mutable { MC_CHECK(*p == 1, ""); p.reset(); });
  std::weak_ptr<int> w = p;
  p.reset();
  if (auto q = w.lock()) MC_CHECK(*q == 1, "");
  a.join();
  MC_CHECK(w.expired(), "");
}
MC_SCENARIO(ok_stop, 2, 2, "") {
  int n = 0;
  {
    std::stop_source s;
    std::thread t([&n, tok = s.get_token()] { std::stop_callback cb(tok, [&] { n++; }); });
    s.request_stop();
    t.join();
  }
  mc_outcome("n=%d", n);
  MC_CHECK(n <= 1, "");
}
MC_SCENARIO(ok_sem_latch, 1, 2, "") {
  std::binary_semaphore s(0); std::latch l(2);
  std::thread t([&] { s.acquire(); l.count_down(); });
  s.release();
  l.arrive_and_wait();
  t.join();
}
MC_SCENARIO(ok_future, 1, 1, "") {
  std::promise<int> p;
  auto f = p.get_future();
  std::thread t([&] { p.set_value(3); });
  MC_CHECK(f.get() == 3, "");
  t.join();
}
MC_SCENARIO(ok_static_init, 2, 2, "") {
  auto f = [] { static std::shared_ptr<int> s = std::make_shared<int>(7); return *s; };
  std::thread a([&] { MC_CHECK(f() == 7, ""); });
  MC_CHECK(f() == 7, "");
  a.join();
}
static thread_local int tl = 5;
MC_SCENARIO(ok_tls, 2, 2, "") {
  tl = 6;
  std::thread a([&] { MC_CHECK(tl == 5, ""); tl = 7; });
  a.join();
  MC_CHECK(tl == 6, "");
}
MC_SCENARIO(ok_exception, 2, 2, "") {
  std::exception_ptr ep;
  std::thread a([&] { try { throw std::runtime_error("x"); } catch (...) { std::this_thread::yield(); ep = std::current_exception(); } });
  try { std::atomic<int> q{0}; q++; throw 5; } catch (int i) { MC_CHECK(i == 5, ""); }
  a.join();
  try { std::rethrow_exception(ep); } catch (std::runtime_error& e) { MC_CHECK(e.what()[0] == 'x', ""); }
}
struct T { struct promise_type { T get_return_object() { return {}; } std::suspend_never initial_suspend() { return {}; } std::suspend_never final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::terminate(); } }; };
struct AwBad {
  std::atomic<void*>* slot; int x = 0;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { slot->store(h.address()); x = 5; }
  void await_resume() {}
};
static T coro(std::atomic<void*>* s) { co_await AwBad{s}; }
MC_SCENARIO(bad_frame_uaf, 2, 2, "awaiter touched after publication") {
  std::atomic<void*> s{nullptr};
  std::thread t([&] { coro(&s); });
  while (!s.load()) {}
  std::coroutine_handle<>::from_address(s.load()).resume();
  t.join();
}
MC_SCENARIO(bad_stack_uaf, 2, 2, "thread uses a dead stack frame") {
  std::atomic<int> go{0};
  auto f = [&go] { std::atomic<int> x{0}; std::thread t([&x, &go] { x.load(); go.store(1); x.load(); }); t.detach(); while (!go.load()) {} };
  f();
  mc_point("x");
  mc_point("x");
}
MC_SCENARIO(ok_choose, 0, 0, "") { int a = mc::choose(3), b = mc::choose(4); mc_outcome("%d%d", a, b); }
MC_SCENARIO(bad_choose, 0, 0, "") { int a = mc::choose(3), b = mc::choose(4); MC_CHECK(a * b != 6, "a=%d b=%d", a, b); }
MC_SCENARIO(ok_faults, 2, 2, "") {
  mc_faults_new(1);
  mc_faults_thread(1);
  try { auto p = std::make_unique<int>(1); std::thread t([] {}); t.join(); mc_outcome("fine"); }
  catch (std::bad_alloc&) { mc_outcome("bad_alloc"); }
  catch (std::system_error&) { mc_outcome("system_error"); }
}
MC_SCENARIO(bad_dekker, 2, 2, "store buffering: both may read 0 under release/acquire") {
  std::atomic<int> x{0}, y{0}; int r1, r2;
  std::thread a([&] { x.store(1, std::memory_order_release); r1 = y.load(std::memory_order_acquire); });
  y.store(1, std::memory_order_release); r2 = x.load(std::memory_order_acquire);
  a.join();
  MC_CHECK(r1 + r2 > 0, "both read 0");
}
MC_SCENARIO(ok_dekker_sc, 2, 3, "") {
  std::atomic<int> x{0}, y{0}; int r1, r2;
  std::thread a([&] { x.store(1); r1 = y.load(); });
  y.store(1); r2 = x.load();
  a.join();
  MC_CHECK(r1 + r2 > 0, "both read 0");
}
MC_SCENARIO(ok_dekker_fence, 2, 3, "") {
  std::atomic<int> x{0}, y{0}; int r1, r2;
  auto R = std::memory_order_relaxed;
  std::thread a([&] { x.store(1, R); std::atomic_thread_fence(std::memory_order_seq_cst); r1 = y.load(R); });
  y.store(1, R); std::atomic_thread_fence(std::memory_order_seq_cst); r2 = x.load(R);
  a.join();
  MC_CHECK(r1 + r2 > 0, "both read 0");
}
MC_SCENARIO(bad_weak_cas_once, 1, 1, "a weak compare-exchange without a loop") {
  std::atomic<int> x{0};
  std::thread t([&] { x.load(); });
  int e = 0;
  x.compare_exchange_weak(e, 1);
  MC_CHECK(x.load() == 1, "");
  t.join();
}
MC_SCENARIO(ok_strong_cas_once, 2, 2, "") {
  std::atomic<int*> x{nullptr};
  int i;
  std::thread t([&] { x.load(); });
  int* e = nullptr;
  x.compare_exchange_strong(e, &i);
  MC_CHECK(x.load() == &i, "");
  t.join();
}
MC_SCENARIO(ok_weak_cas_loop, 2, 3, "") {
  std::atomic<int> x{0};
  auto f = [&] { int e = x.load(); while (!x.compare_exchange_weak(e, e + 1)); };
  std::thread t(f);
  f();
  t.join();
  MC_CHECK(x.load() == 2, "");
}
// litmus tests; outN_*: exactly N distinct outcomes must be observed
using A = std::atomic<int>;
static constexpr auto RLX = std::memory_order_relaxed, ACQ = std::memory_order_acquire, REL = std::memory_order_release, SC = std::memory_order_seq_cst;
template <class F, class G> static void two(F f, G g) { std::thread t(f); g(); t.join(); }

MC_SCENARIO(out4_store_buffering, 6, 6, "all four results under release/acquire") {
  static A x, y; static int r1, r2;
  two([] { x.store(1, REL); r1 = y.load(ACQ); }, [] { y.store(1, REL); r2 = x.load(ACQ); });
  mc_outcome("%d%d", r1, r2);
}
MC_SCENARIO(out3_store_buffering_sc, 6, 6, "never 00 under seq_cst") {
  static A x, y; static int r1, r2;
  two([] { x.store(1, SC); r1 = y.load(SC); }, [] { y.store(1, SC); r2 = x.load(SC); });
  mc_outcome("%d%d", r1, r2);
}
MC_SCENARIO(out3_message_passing, 6, 6, "never flag without data under release/acquire") {
  static A x, y; static int r1, r2;
  two([] { x.store(1, RLX); y.store(1, REL); }, [] { r1 = y.load(ACQ); r2 = x.load(RLX); });
  mc_outcome("%d%d", r1, r2);
}
MC_SCENARIO(out4_message_passing_relaxed, 6, 6, "flag without data under relaxed") {
  static A x, y; static int r1, r2;
  two([] { x.store(1, RLX); y.store(1, RLX); }, [] { r1 = y.load(RLX); r2 = x.load(RLX); });
  mc_outcome("%d%d", r1, r2);
}
MC_SCENARIO(out6_coherence, 6, 6, "reads of one location never go back") {
  static A x; static int r1, r2;
  two([] { x.store(1, RLX); x.store(2, RLX); }, [] { r1 = x.load(RLX); r2 = x.load(RLX); });
  mc_outcome("%d%d", r1, r2);
}
template <std::memory_order S, std::memory_order L> static void iriw() {
  static A x, y; static int r[4];
  std::thread a([] { x.store(1, S); }), b([] { y.store(1, S); }), c([] { r[0] = x.load(L); r[1] = y.load(L); });
  r[2] = y.load(L); r[3] = x.load(L);
  a.join(); b.join(); c.join();
  mc_outcome("%d%d%d%d", r[0], r[1], r[2], r[3]);
}
MC_SCENARIO(out16_iriw_acquire, 8, 8, "the two readers may disagree") { iriw<REL, ACQ>(); }
MC_SCENARIO(out15_iriw_sc, 8, 8, "the readers agree") { iriw<SC, SC>(); }
MC_SCENARIO(out7_load_buffering_free, 8, 8, "write-to-read causality over three threads: r1=1, r2=1 imply r3=1") {
  static A x, y; static int r1, r2, r3;
  std::thread a([] { x.store(1, RLX); }), b([] { r1 = x.load(ACQ); y.store(1, REL); });
  r2 = y.load(ACQ); r3 = x.load(RLX);
  a.join(); b.join();
  mc_outcome("%d%d%d", r1, r2, r3);
}
MC_SCENARIO(ok_release_sequence, 4, 4, "an RMW, even relaxed, continues a release sequence") {
  static int data; static A x;
  std::thread a([] { data = 1; x.store(1, REL); }), b([] { int e = 1; x.compare_exchange_strong(e, 2, RLX); });
  if (x.load(ACQ) == 2) MC_CHECK(data == 1, "");
  a.join(); b.join();
}
MC_SCENARIO(bad_release_sequence_store, 4, 4, "a relaxed store of another thread does not") {
  static int data; static A x;
  std::thread a([] { data = 1; x.store(1, REL); }), b([] { if (x.load(RLX) == 1) x.store(2, RLX); });
  if (x.load(ACQ) == 2) MC_CHECK(data == 1, "");
  a.join(); b.join();
}
MC_SCENARIO(bad_relaxed_refcount, 4, 4, "a relaxed decrement does not order the last owner's delete") {
  static A n; static int* p;
  n.store(2); p = new int(0);
  auto f = [] { volatile int v = *p; (void)v; if (n.fetch_sub(1, RLX) == 1) delete p; };
  two(f, f);
}
MC_SCENARIO(ok_refcount, 4, 4, "acq_rel does") {
  static A n; static int* p;
  n.store(2); p = new int(0);
  auto f = [] { volatile int v = *p; (void)v; if (n.fetch_sub(1, std::memory_order_acq_rel) == 1) delete p; };
  two(f, f);
}
MC_SCENARIO(ok_refcount_fence, 4, 4, "release decrement and acquire fence") {
  static A n; static int* p;
  n.store(2); p = new int(0);
  auto f = [] { volatile int v = *p; (void)v; if (n.fetch_sub(1, REL) == 1) { std::atomic_thread_fence(ACQ); delete p; } };
  two(f, f);
}
MC_SCENARIO(out6_interleavings, 6, 6, "two threads of two steps: 6 orders") {
  static std::mutex m; static char buf[8]; static int n;
  auto put = [](char c) { std::lock_guard l(m); buf[n++] = c; };
  two([=] { put('a'); put('b'); }, [=] { put('x'); put('y'); });
  buf[n] = 0;
  mc_outcome("%s", buf);
}
MC_SCENARIO(out90_interleavings3, 12, 12, "three threads of two steps: 90 orders") {
  static std::mutex m; static char buf[8]; static int n;
  auto put = [](char c) { std::lock_guard l(m); buf[n++] = c; };
  std::thread t([=] { put('p'); put('q'); });
  two([=] { put('a'); put('b'); }, [=] { put('x'); put('y'); });
  t.join();
  buf[n] = 0;
  mc_outcome("%s", buf);
}
MC_SCENARIO(out20_atomic_orders, 12, 12, "fetch_add of three and three steps: the 20 orders") {
  static A x; static int r[6];
  two([] { for (int i = 0; i < 3; i++) r[i] = x.fetch_add(1, RLX); }, [] { for (int i = 3; i < 6; i++) r[i] = x.fetch_add(1, RLX); });
  mc_outcome("%d%d%d%d%d%d", r[0], r[1], r[2], r[3], r[4], r[5]);
}
MC_SCENARIO(out24_choices, 0, 0, "all inputs") { int a = mc::choose(2), b = mc::choose(3), c = mc::choose(4); mc_outcome("%d%d%d", a, b, c); }
MC_SCENARIO(out4_faults, 2, 2, "two allocations, each may fail, both together too") {
  mc_faults_new(1);
  int r[2];
  for (int& i : r) try { delete new int; i = 1; } catch (std::bad_alloc&) { i = 0; }
  mc_outcome("%d%d", r[0], r[1]);
}
int main(int c, char** v) { return mc_main(c, v); }
