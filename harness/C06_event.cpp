// C06: dd::event under all schedules of subscriptions and notifications.
#include "common.h"
#include <kelcoro/events.hpp>
#include <kelcoro/thread_pool.hpp>

enum { SUB = 1, GOT, N_BEGIN, N_END, ATT };
static int before_[8];  // written by notifier k before it notifies; read by whoever it wakes
static int mine_[8];    // written by the subscriber before it subscribes, read by whoever runs it

template <typename T>
struct val;
template <>
struct val<int> {
  static int make(int k) { return k; }
  static int read(const int& v) { return v; }
};
template <>
struct val<Probe> {
  static Probe make(int k) { return Probe(k); }
  static int read(const Probe& p) { return p.get(); }
};

// subscribes `times` times in a row; each delivery is logged with the value
template <typename T>
static co sub(dd::event<T>& e, int id, int times = 1) {
  Probe local(id);
  for (int i = 0; i < times; i++) {
    mine_[id] = i + 1;
    auto v = co_await e;
    MC_CHECK(local.get() == id && mine_[id] == i + 1, "frame or effects of subscriber %d damaged", id);
    int k = val<T>::read(v);
    MC_CHECK(before_[k] == k + 100, "what notifier %d did before is not visible", k);
    mc_log(GOT, id, k);
  }
}
static co sub_void(dd::event<void>& e, int id, int times = 1) {
  Probe local(id);
  for (int i = 0; i < times; i++) {
    (void)co_await e;
    MC_CHECK(local.get() == id, "frame damaged");
    mc_log(GOT, id, 0);
  }
}
template <typename T>
static void sub_cb(dd::event<T>& e, int id) {
  e.set_callback([id, p = Probe(id)](T v) {
    int k = val<T>::read(v);
    MC_CHECK(p.get() == id, "callback damaged");
    MC_CHECK(before_[k] == k + 100, "what notifier %d did before is not visible", k);
    mc_log(GOT, id, k);
  });
}
template <typename T>
static void subscribe(dd::event<T>& e, int id, int kind) {
  if (kind) sub_cb(e, id);
  else sub(e, id);
  mc_log(SUB, id, 0);
}
static int got_between(int from, int tid) {
  int n = 0;
  for (int i = from; i < mc_log_size(); i++)
    if (mc_log_tag(i) == GOT && mc_log_tid(i) == tid) n++;
  return n;
}
// notifies inline; the result must say whether somebody was woken; who was subscribed before and
// is not served by another running notification must have been served when this one returns
template <typename T>
static bool notify(dd::event<T>& e, int k) {
  before_[k] = k + 100;
  mc_log(N_BEGIN, k, 0);
  int from = mc_log_size();
  dd::this_thread_executor_t exe;
  bool r;
  if constexpr (std::is_void_v<T>) r = e.notify_all(exe);
  else r = e.notify_all(exe, val<T>::make(k));
  int n = got_between(from, mc_self());
  MC_CHECK(r == (n > 0), "notify_all returned %d but woke %d", r, n);
  bool alone = true;
  for (int i = 0; i < mc_log_size(); i++)
    if (mc_log_tag(i) == N_BEGIN && mc_log_a(i) != k) {
      int end = log_find(N_END, mc_log_a(i));
      if (end < 0 || end > from) alone = false;
    }
  if (alone)
    for (int i = 0; i < from; i++)
      if (mc_log_tag(i) == SUB) MC_CHECK(log_count(GOT, mc_log_a(i)) > 0, "subscriber %ld was not notified", mc_log_a(i));
  mc_log(N_END, k, 0);
  return r;
}
static void outcome() {
  std::string s;
  for (int i = 0; i < mc_log_size(); i++)
    if (mc_log_tag(i) == GOT) s += std::to_string(mc_log_a(i)) + "<-" + std::to_string(mc_log_b(i)) + " ";
  mc_outcome("%s", s.c_str());
}
static void reset() {
  for (int i = 0; i < 8; i++) before_[i] = mine_[i] = 0;
}

template <typename T>
static void two_subs_two_notifies(int kinds) {
  reset();
  dd::event<T> e;
  int k0 = kinds & 1, k1 = kinds >> 1 & 1;
  std::thread a([&] { subscribe(e, 0, k0); });
  std::thread b([&] { subscribe(e, 1, k1); });
  std::thread c([&] { notify(e, 1); });
  notify(e, 2);
  a.join();
  b.join();
  c.join();
  bool left = log_count(GOT) < 2;
  MC_CHECK(notify(e, 3) == left, "");
  for (int i = 0; i < 2; i++) MC_CHECK(log_count(GOT, i) == 1, "subscriber %d notified %d times", i, log_count(GOT, i));
  MC_CHECK(!notify(e, 4), "someone is still subscribed");
  outcome();
}
MC_SCENARIO(int_two_two, 5, 8, "2 coroutines/callbacks subscribe while 2 threads notify") { two_subs_two_notifies<int>(mc::choose(4, "kinds")); }
MC_SCENARIO(probe_two_two, 6, 9, "the same with an owning value: each its own copy") { two_subs_two_notifies<Probe>(0); }

MC_SCENARIO(one_sub_two_notifies, 20, 20, "1 subscriber against 2 notifications: delivered once") {
  reset();
  dd::event<int> e;
  subscribe(e, 0, mc::choose(2, "kind"));
  std::thread c([&] { notify(e, 1); });
  notify(e, 2);
  c.join();
  MC_CHECK(log_count(GOT, 0) == 1, "%d", log_count(GOT, 0));
  outcome();
}
MC_SCENARIO(three_waiting_two_notifies, 20, 20, "3 subscribers waiting when 2 threads notify: each gets one of the values, its own copy") {
  reset();
  dd::event<Probe> e;
  for (int i = 0; i < 3; i++) subscribe(e, i, i == 1);
  std::thread c([&] { notify(e, 1); });
  notify(e, 2);
  c.join();
  for (int i = 0; i < 3; i++) MC_CHECK(log_count(GOT, i) == 1, "subscriber %d notified %d times", i, log_count(GOT, i));
  int k = mc_log_b(log_find(GOT, 0));
  for (int i = 0; i < 3; i++) MC_CHECK(mc_log_b(log_find(GOT, i)) == k, "one notification takes all waiting subscribers");
  outcome();
}
MC_SCENARIO(resubscribe, 12, 14, "subscribers subscribe again from the notification; another thread notifies too") {
  reset();
  dd::event<int> e;
  sub(e, 0, 3);
  sub(e, 1, 2);
  std::thread c([&] {
    int from = mc_log_size();
    notify(e, 1);
    int n0 = 0;
    for (int i = from; i < mc_log_size(); i++)
      if (mc_log_tag(i) == GOT && mc_log_tid(i) == mc_self() && mc_log_a(i) == 0) n0++;
    MC_CHECK(n0 <= 1, "one notification woke the same subscriber %d times", n0);
  });
  notify(e, 2);
  c.join();
  int n = log_count(GOT, 0);
  MC_CHECK(n == 1 || n == 2, "subscriber 0 notified %d times by 2 notifications", n);
  while (log_count(GOT, 0) < 3) {
    int b = log_count(GOT, 0);
    MC_CHECK(notify(e, 3) && log_count(GOT, 0) == b + 1, "one notification woke the subscriber %d times", log_count(GOT, 0) - b);
  }
  while (log_count(GOT, 1) < 2) MC_CHECK(notify(e, 4), "");
  MC_CHECK(!notify(e, 5), "");
  outcome();
}
MC_SCENARIO(void_event, 7, 10, "event<void>: coroutines and callbacks, 2 notifying threads") {
  reset();
  dd::event<void> e;
  std::thread a([&] { sub_void(e, 0, 2); mc_log(SUB, 0, 0); });
  std::thread b([&] { notify(e, 1); });
  e.set_callback([p = Probe(1)] { MC_CHECK(p.get() == 1, ""); mc_log(GOT, 1, 0); });
  notify(e, 2);
  a.join();
  b.join();
  while (log_count(GOT, 0) < 2) MC_CHECK(notify(e, 3), "");
  MC_CHECK(log_count(GOT, 0) == 2, "%d", log_count(GOT, 0));
  MC_CHECK(log_count(GOT, 1) == 1, "%d", log_count(GOT, 1));
  MC_CHECK(!notify(e, 4), "");
  outcome();
}
// a callback that subscribes itself again, `times` deliveries in all
static void again_cb(dd::event<void>& e, int id, int times) {
  e.set_callback([&e, id, times, p = Probe(id)] {
    MC_CHECK(p.get() == id, "");
    mc_log(GOT, id, 0);
    if (times > 1) again_cb(e, id, times - 1);
  });
}
MC_SCENARIO(void_resubscribe, 9, 12, "event<void>: coroutines and callbacks subscribe again from the notification; another thread notifies too") {
  reset();
  dd::event<void> e;
  sub_void(e, 0, 3);
  again_cb(e, 1, 3);
  auto once = [&](int k) {
    int from = mc_log_size(), n[2] = {0, 0};
    bool r = notify(e, k);
    for (int i = from; i < mc_log_size(); i++)
      if (mc_log_tag(i) == GOT && mc_log_tid(i) == mc_self()) n[mc_log_a(i)]++;
    for (int i = 0; i < 2; i++) MC_CHECK(n[i] <= 1, "one notification woke subscriber %d %d times", i, n[i]);
    return r;
  };
  std::thread c([&] { once(1); });
  once(2);
  c.join();
  for (int i = 0; i < 2; i++) MC_CHECK(log_count(GOT, i) >= 1 && log_count(GOT, i) <= 2, "subscriber %d notified %d times by 2 notifications", i, log_count(GOT, i));
  while (log_count(GOT) < 6) MC_CHECK(once(3), "");
  for (int i = 0; i < 2; i++) MC_CHECK(log_count(GOT, i) == 3, "subscriber %d notified %d times", i, log_count(GOT, i));
  MC_CHECK(!once(4), "");
  outcome();
}
// stores the nodes, somebody else runs them: values are in place before a node is handed over
struct Deferred {
  dd::nonowner_lockfree_stack<dd::task_node> s;
  void attach(dd::task_node* n) {
    mc_log(ATT, 0, 0);
    s.push(n);
  }
  int run() {
    int k = 0;
    for (dd::task_node* n = s.try_pop_all(); n; k++) {
      auto* nx = n->next;
      n->task.resume();
      n = nx;
    }
    return k;
  }
};
MC_SCENARIO(other_executor, 12, 20, "notification through an executor whose work runs on another thread meanwhile") {
  reset();
  dd::event<Probe> e;
  Deferred d;
  subscribe(e, 0, 0);
  subscribe(e, 1, 1);
  std::thread c([&] { d.run(); });
  before_[1] = 101;
  MC_CHECK(d.run() == 0 && e.notify_all(d, Probe(1)), "");
  c.join();
  d.run();
  MC_CHECK(log_count(ATT) == 2, "attached %d times", log_count(ATT));
  for (int i = 0; i < 2; i++) MC_CHECK(log_count(GOT, i) == 1, "subscriber %d notified %d times", i, log_count(GOT, i));
  MC_CHECK(!e.notify_all(d, Probe(1)), "");
  outcome();
}
MC_SCENARIO(on_a_worker, 8, 11, "notification through a worker") {
  reset();
  dd::event<int> e;
  {
    dd::worker w;
    subscribe(e, 0, 0);
    std::thread a([&] { subscribe(e, 1, 1); });
    before_[1] = 101;
    before_[2] = 102;
    MC_CHECK(e.notify_all(w, 1), "");
    a.join();
    e.notify_all(w, 2);
  }
  for (int i = 0; i < 2; i++) MC_CHECK(log_count(GOT, i) == 1, "subscriber %d notified %d times", i, log_count(GOT, i));
  outcome();
}
MC_SCENARIO(on_a_pool, 4, 7, "notification of an event with and without a value through a pool of 1 or 2: subscribers may die at once") {
  reset();
  dd::event<int> e;
  dd::event<void> v;
  int threads = 1 + mc::choose(2, "threads");
  int n = 1 + mc::choose(3, "subscribers");
  bool valued = mc::flip("valued"), twice = mc::flip("twice");
  before_[1] = 101;
  {
    dd::thread_pool p(threads);
    for (int i = 0; i < n; i++) {
      if (valued) subscribe(e, i, i & 1);
      else if (i & 1) v.set_callback([i, q = Probe(i)] { MC_CHECK(q.get() == i, ""); mc_log(GOT, i, 0); });
      else sub_void(v, i);
    }
    MC_CHECK(valued ? e.notify_all(p, 1) : v.notify_all(p), "");
    if (twice) MC_CHECK(!(valued ? e.notify_all(p, 1) : v.notify_all(p)), "woke somebody again");
  }
  for (int i = 0; i < n; i++) MC_CHECK(log_count(GOT, i) == 1, "subscriber %d notified %d times", i, log_count(GOT, i));
  outcome();
}
struct tag_a {};
struct tag_b {};
MC_SCENARIO(sequential, 0, 0, "every sequence of 6 operations on two named events against a model") {
  reset();
  auto& e0 = dd::event_v<int, tag_a>;
  auto& e1 = dd::event_v<int, tag_b>;
  for (int i = 0; i < 8; i++) before_[i] = i + 100;
  int next = 0, wait0[8], wait1[8], n0 = 0, n1 = 0;
  dd::this_thread_executor_t exe;
  for (int s = 0; s < 6; s++) {
    int got = mc_log_size();
    switch (mc::choose(6, "op")) {
      case 0: sub(e0, next % 8, 1); wait0[n0++] = next++ % 8; break;
      case 1: sub_cb(e0, next % 8); wait0[n0++] = next++ % 8; break;
      case 2: sub(e1, next % 8, 1); wait1[n1++] = next++ % 8; break;
      case 3:
        MC_CHECK(e0.notify_all(exe, 1) == (n0 > 0), "");
        MC_CHECK(mc_log_size() - got == n0, "woke %d of %d", mc_log_size() - got, n0);
        for (int i = 0; i < n0; i++) MC_CHECK(log_find(GOT, wait0[i], got) >= 0 && mc_log_b(log_find(GOT, wait0[i], got)) == 1, "");
        n0 = 0;
        break;
      case 4:
        MC_CHECK(e1.notify_all(exe, 2) == (n1 > 0), "");
        MC_CHECK(mc_log_size() - got == n1, "woke %d of %d", mc_log_size() - got, n1);
        n1 = 0;
        break;
      case 5: {  // callback that subscribes another callback
        int id = next++ % 8;
        e0.set_callback([id, &e0](int k) { mc_log(GOT, id, k); sub_cb(e0, id); });
        e0.notify_all(exe, 3);
        MC_CHECK(mc_log_size() - got == n0 + 1, "woke %d of %d", mc_log_size() - got, n0 + 1);
        n0 = 0;
        wait0[n0++] = id;
        break;
      }
    }
  }
  e0.notify_all(exe, 4);
  e1.notify_all(exe, 4);
  MC_CHECK(!e0.notify_all(exe, 5) && !e1.notify_all(exe, 5), "");
}

MC_SCENARIO(many, 0, 1, "300 subscribers, coroutines and callbacks, of which some come again, and 3 notifications") {
  dd::event<Probe> e;
  static int n[300];
  for (int& x : n) x = 0;
  auto s = [](dd::event<Probe>& e, int i) -> co {
    for (int k = 0; k < 1 + i % 3; k++) {
      Probe v = co_await e;
      MC_CHECK(v.get() == k, "value %d at delivery %d", v.get(), k);
      n[i]++;
    }
  };
  for (int i = 0; i < 300; i++) {
    if (i % 4) s(e, i);
    else e.set_callback([i](Probe v) { MC_CHECK(v.get() == 0, ""); n[i]++; });
  }
  dd::this_thread_executor_t exe;
  for (int k = 0; k < 3; k++) {
    MC_CHECK(e.notify_all(exe, Probe(k)), "");
    for (int i = 0; i < 300; i++) {
      int want = std::min(k + 1, i % 4 ? 1 + i % 3 : 1);
      MC_CHECK(n[i] == want, "subscriber %d: %d deliveries after %d notifications", i, n[i], k + 1);
    }
  }
  MC_CHECK(!e.notify_all(exe, Probe(9)), "");
}
MC_SCENARIO(values, 0, 0, "values of a type whose & is overloaded: trivial and owning") {
  dd::event<Amp> a;
  dd::event<AmpT> t;
  static int n;
  n = 0;
  auto sa = [](dd::event<Amp>& e) -> co { Amp v = co_await e; MC_CHECK(v.get() == 3, "%d", v.get()); n++; };
  auto st = [](dd::event<AmpT>& e) -> co { AmpT v = co_await e; MC_CHECK(v.get() == 4, "%d", v.get()); n++; };
  for (int i = 0; i < 2; i++) sa(a), st(t);
  dd::this_thread_executor_t exe;
  MC_CHECK(a.notify_all(exe, Amp(3)) && t.notify_all(exe, AmpT{4}), "");
  MC_CHECK(n == 4, "%d", n);
}

// a value whose n-th copy fails
namespace {
struct Fragile {
  Probe p;
  int* left = nullptr;  // copies that work
  Fragile() = default;
  Fragile(int v, int* left) : p(v), left(left) {}
  Fragile(Fragile&&) noexcept = default;
  Fragile& operator=(Fragile&&) noexcept = default;
  Fragile(const Fragile& o) { *this = o; }
  Fragile& operator=(const Fragile& o) {
    if (o.left && (*o.left)-- == 0) throw Err{o.p.get()};
    p = o.p;
    left = nullptr;
    return *this;
  }
};
// true: woke somebody, false: nobody, or failed (then nobody either)
bool notify_fragile(dd::event<Fragile>& e, int k, int copies, bool& failed) {
  dd::this_thread_executor_t exe;
  int left = copies, from = mc_log_size();
  failed = false;
  bool r = false;
  mc_log(N_BEGIN, k, 0);
  try {
    r = e.notify_all(exe, Fragile(k, &left));
  } catch (Err& x) {
    MC_CHECK(x.code == k, "exception %d", x.code);
    failed = true;
  }
  int n = got_between(from, mc_self());
  MC_CHECK(r == (n > 0), "notify_all returned %d but woke %d", r, n);
  MC_CHECK(failed == (left < 0), "copying failed: %d, reported: %d", left < 0, failed);
  return r;
}
co sub_fragile(dd::event<Fragile>& e, int id) {
  Fragile v = co_await e;
  mc_log(GOT, id, v.p.get());
}
}  // namespace
MC_SCENARIO(copy_fails, 0, 0, "copying the value fails for any of 1-4 subscribers: all go on waiting, the next notification wakes them once") {
  dd::event<Fragile> e;
  int n = 1 + mc::choose(4, "subscribers"), copies = mc::choose(5, "copies that work"), later = mc::choose(3, "more subscribers");
  bool failed;
  for (int i = 0; i < n; i++) sub_fragile(e, i);
  bool r = notify_fragile(e, 1, copies, failed);
  MC_CHECK(failed == (copies < n) && r != failed, "");
  if (mc::flip("fails again") && failed) {
    notify_fragile(e, 2, n - 1, failed);
    MC_CHECK(failed, "");
  }
  for (int i = 0; i < later; i++) sub_fragile(e, n + i);
  int want = later + (failed ? n : 0);
  int from = mc_log_size();
  bool r2 = notify_fragile(e, 3, 100, failed);
  MC_CHECK(!failed && r2 == (want > 0) && mc_log_size() - from == want + 1, "woke %d of %d", mc_log_size() - from - 1, want);
  for (int i = 0; i < n + later; i++) MC_CHECK(log_count(GOT, i) == 1, "subscriber %d notified %d times", i, log_count(GOT, i));
}
MC_SCENARIO(copy_fails_threads, 7, 12, "the same while another thread subscribes and notifies") {
  dd::event<Fragile> e;
  int copies = mc::choose(3, "copies that work");
  sub_fragile(e, 0);
  sub_fragile(e, 1);
  std::thread t([&] {
    bool f;
    sub_fragile(e, 2);
    notify_fragile(e, 2, 100, f);
  });
  bool f;
  notify_fragile(e, 1, copies, f);
  t.join();
  notify_fragile(e, 3, 100, f);
  for (int i = 0; i < 3; i++) MC_CHECK(log_count(GOT, i) == 1, "subscriber %d notified %d times", i, log_count(GOT, i));
  outcome();
}
// one function object for several subscriptions: each has its own copy, the object itself stays as it was
struct Callback {
  Probe p{42};
  int uses = 0;
  template <typename... V>
  void operator()(V&&... v) {
    MC_CHECK(p.get() == 42, "the function object of a subscriber was moved away");
    MC_CHECK(uses++ == 0, "subscribers share one function object");
    int got = 0;
    if constexpr (sizeof...(V)) got = (v.get() + ...);
    mc_log(GOT, 0, got);
  }
};
struct ConstCallback : Callback {
  template <typename... V>
  void operator()(V&&... v) const { Callback(*this)(v...); }
};
MC_SCENARIO(callback_objects, 0, 0, "one function object (variable, constant, temporary, by reference) for up to 4 subscriptions to two events") {
  dd::event<Probe> e;
  dd::event<void> v;
  int waits[2] = {0, 0}, woken = 0;
  Callback f;
  const ConstCallback cf;
  int n = 1 + mc::choose(mc::depth(3, 4), "subscriptions");
  for (int i = 0; i < n; i++) {
    bool to_void = mc::flip("to the one without value");
    auto sub = [&](auto&& x) {
      if (to_void) v.set_callback(std::forward<decltype(x)>(x));
      else e.set_callback(std::forward<decltype(x)>(x));
    };
    switch (mc::choose(4, "object")) {
      case 0: sub(f); break;
      case 1: sub(cf); break;
      case 2: sub(Callback{}); break;
      case 3: sub([g = Callback{}](auto&&... x) mutable { g(x...); }); break;
    }
    waits[to_void]++;
    MC_CHECK(f.p.get() == 42 && f.uses == 0 && cf.p.get() == 42, "the function object of the subscriber was moved from");
    if (mc::flip("notify")) {
      bool both = mc::flip("void");
      MC_CHECK((both ? v.notify_all(dd::this_thread_executor) : e.notify_all(dd::this_thread_executor, Probe(7))) == (waits[both] > 0), "notified");
      woken += std::exchange(waits[both], 0);
      MC_CHECK(log_count(GOT) == woken, "woke %d of %d", log_count(GOT), woken);
    }
  }
  e.notify_all(dd::this_thread_executor, Probe(7));
  v.notify_all(dd::this_thread_executor);
  MC_CHECK(log_count(GOT) == n, "woke %d of %d", log_count(GOT), n);
  MC_CHECK(f.p.get() == 42 && f.uses == 0, "the function object of the subscriber was used");
}
int main(int c, char** v) { return mc_main(c, v); }
