// C07: when_all / when_any over events.
#include <array>
#include <cstring>
#include "common.h"
#include <kelcoro/events.hpp>

enum { RES = 1, FIRED };
static int before_[16];  // [v] written before value v is fired; [0]: the void event
static void reset() {
  for (int& b : before_) b = 0;
}
template <typename T>
static void fire(dd::event<T>& e, int which, int v = 0) {
  dd::this_thread_executor_t x;
  before_[std::is_void_v<T> ? 0 : v] = v + 100;
  mc_log(FIRED, which, v);  // before the notification: a resumption after it may rely on it
  if constexpr (std::is_void_v<T>) e.notify_all(x);
  else e.notify_all(x, T(v));
}
static void outcome() {
  std::string s;
  for (int i = 0; i < mc_log_size(); i++)
    s += (mc_log_tag(i) == RES ? "R" : "f") + std::to_string(mc_log_a(i)) + ":" + std::to_string(mc_log_b(i)) + "@" + std::to_string(mc_log_tid(i)) + " ";
  mc_outcome("%s", s.c_str());
}
static bool was_fired(int which, int v) {
  for (int i = 0; i < mc_log_size(); i++)
    if (mc_log_tag(i) == FIRED && mc_log_a(i) == which && mc_log_b(i) == v) return true;
  return false;
}

static co await_all(dd::event<Probe>& a, dd::event<int>& b, dd::event<void>& c, int id) {
  Probe local(7);
  auto r = co_await dd::when_all(a, b, c);
  MC_CHECK(local.get() == 7, "frame damaged");
  MC_CHECK(log_count(FIRED, 0) && log_count(FIRED, 1) && log_count(FIRED, 2), "resumed before every event fired");
  for (int i : {std::get<0>(r).get(), std::get<1>(r), 0}) MC_CHECK(before_[i] == i + 100, "what notifier of %d did is not visible", i);
  MC_CHECK(was_fired(0, std::get<0>(r).get()) && was_fired(1, std::get<1>(r)), "wrong values %d %d", std::get<0>(r).get(), std::get<1>(r));
  mc_log(RES, id, std::get<0>(r).get() * 10 + std::get<1>(r));
}
static co await_any2(dd::event<Probe>& a, dd::event<int>& b, int id, int rounds = 1) {
  Probe local(7);
  for (int k = 0; k < rounds; k++) {
    auto r = co_await dd::when_any(a, b);
    MC_CHECK(local.get() == 7, "frame damaged");
    int ix = (int)r.index();
    int v = ix == 0 ? std::get<0>(r).get() : std::get<1>(r);
    MC_CHECK(was_fired(ix, v), "event %d never delivered %d", ix, v);
    MC_CHECK(before_[v] == v + 100, "what notifier of %d did is not visible", v);
    mc_log(RES, id, ix * 100 + v);
  }
}

MC_SCENARIO(all_three_threads, 20, 20, "when_all of three events fired by three threads after the subscription") {
  reset();
  dd::event<Probe> a;
  dd::event<int> b;
  dd::event<void> c;
  await_all(a, b, c, 0);
  std::thread t1([&] { fire(a, 0, 4); });
  std::thread t2([&] { fire(b, 1, 5); });
  fire(c, 2);
  t1.join();
  t2.join();
  MC_CHECK(log_count(RES) == 1, "resumed %d times", log_count(RES));
  MC_CHECK(mc_log_b(log_find(RES)) == 45, "");
  outcome();
}
MC_SCENARIO(all_during_setup, 6, 8, "when_all subscribes while two threads fire (each event once or twice)") {
  reset();
  dd::event<Probe> a;
  dd::event<int> b;
  dd::event<void> c;
  int twice = mc::choose(2, "twice");
  std::thread t1([&] { await_all(a, b, c, 0); });
  std::thread t2([&] { fire(a, 0, 4); if (twice) fire(b, 1, 6); });
  fire(b, 1, 5);
  fire(c, 2);
  t1.join();
  t2.join();
  int early = log_count(RES);
  MC_CHECK(early <= 1, "resumed %d times", early);
  fire(a, 0, 7);
  fire(b, 1, 8);
  fire(c, 2);
  MC_CHECK(log_count(RES) == 1, "resumed %d times", log_count(RES));
  outcome();
}
MC_SCENARIO(any_two_threads, 20, 20, "when_any of two events fired by two threads, each perhaps twice") {
  reset();
  dd::event<Probe> a;
  dd::event<int> b;
  int twice = mc::choose(2, "twice");
  await_any2(a, b, 0);
  std::thread t1([&] { fire(a, 0, 4); if (twice) fire(a, 0, 5); });
  fire(b, 1, 6);
  if (twice) fire(b, 1, 7);
  t1.join();
  MC_CHECK(log_count(RES) == 1, "resumed %d times", log_count(RES));
  outcome();
}
MC_SCENARIO(any_during_setup, 12, 14, "when_any subscribes while two threads fire; the coroutine finishes at once") {
  reset();
  dd::event<Probe> a;
  dd::event<int> b;
  std::thread t1([&] { await_any2(a, b, 0); });
  std::thread t2([&] { fire(a, 0, 4); });
  fire(b, 1, 6);
  t1.join();
  t2.join();
  MC_CHECK(log_count(RES) <= 1, "");
  fire(b, 1, 8);
  fire(a, 0, 7);
  MC_CHECK(log_count(RES) == 1, "resumed %d times", log_count(RES));
  outcome();
}
MC_SCENARIO(any_rounds, 6, 9, "a coroutine awaits when_any twice; callbacks left over from the first round change nothing") {
  reset();
  dd::event<Probe> a;
  dd::event<int> b;
  std::thread t1([&] { await_any2(a, b, 0, 2); });
  std::thread t2([&] { fire(a, 0, 4); });
  fire(b, 1, 6);
  t1.join();
  t2.join();
  MC_CHECK(log_count(RES) <= 2, "");
  int r = log_count(RES);
  fire(b, 1, 8);
  MC_CHECK(log_count(RES) == std::min(2, r + 1), "an event fired, %d -> %d resumptions", r, log_count(RES));
  fire(a, 0, 7);
  MC_CHECK(log_count(RES) == 2, "resumed %d times", log_count(RES));
  fire(a, 0, 9);
  fire(b, 1, 9);
  MC_CHECK(log_count(RES) == 2, "");
  outcome();
}
MC_SCENARIO(any_two_waiters, 6, 10, "two coroutines await any of the same two events; both resumed once") {
  reset();
  dd::event<Probe> a;
  dd::event<int> b;
  await_any2(a, b, 0);
  std::thread t1([&] { await_any2(a, b, 1); });
  std::thread t2([&] { fire(a, 0, 4); });
  fire(b, 1, 6);
  t1.join();
  t2.join();
  MC_CHECK(log_count(RES, 0) == 1, "%d", log_count(RES, 0));
  fire(b, 1, 8);
  fire(a, 0, 7);
  MC_CHECK(log_count(RES, 0) == 1 && log_count(RES, 1) == 1, "%d %d", log_count(RES, 0), log_count(RES, 1));
  outcome();
}
// every combination of event types
namespace {
int bef[4][64];  // [event][value; 0 for void] written before it is fired
template <typename T>
void fire_at(dd::event<T>& e, int which, int v) {
  dd::this_thread_executor_t x;
  bef[which][std::is_void_v<T> ? 0 : v] = v;
  mc_log(FIRED, which, v);
  if constexpr (std::is_void_v<T>) e.notify_all(x);
  else e.notify_all(x, T(v));
}
// what was delivered for event 'which'; checks it
template <typename In>
int delivered(const In& in, int which) {
  int v = 0;
  if constexpr (std::is_same_v<In, int>) v = in;
  if constexpr (std::is_same_v<In, Probe>) v = in.get();
  if constexpr (!std::is_same_v<In, int> && !std::is_same_v<In, Probe>) {
    MC_CHECK(log_count(FIRED, which) > 0 && bef[which][0] != 0, "void event %d did not fire", which);
  } else {
    MC_CHECK(v > 0 && v < 64 && was_fired(which, v), "event %d never delivered %d", which, v);
    MC_CHECK(bef[which][v] == v, "what notifier of %d did is not visible", v);
  }
  return v;
}
template <typename... Ts>
struct Events {
  std::tuple<dd::event<Ts>...> ev;
  static constexpr size_t N = sizeof...(Ts);
  template <size_t... Is>
  co all(std::index_sequence<Is...>) {
    Probe local(7);
    auto r = co_await dd::when_all(std::get<Is>(ev)...);
    MC_CHECK(local.get() == 7, "frame damaged");
    (delivered(std::get<Is>(r), Is), ...);
    mc_log(RES, -1, 0);
  }
  template <size_t... Is>
  co any(std::index_sequence<Is...>) {
    Probe local(7);
    auto r = co_await dd::when_any(std::get<Is>(ev)...);
    MC_CHECK(local.get() == 7, "frame damaged");
    int ix = (int)r.index(), v = 0;
    ((ix == (int)Is ? (void)(v = delivered(*std::get_if<Is>(&r), Is)) : (void)0), ...);
    mc_log(RES, ix, v);
  }
  void await(bool is_any) {
    if (is_any) any(std::index_sequence_for<Ts...>{});
    else all(std::index_sequence_for<Ts...>{});
  }
  void fire_one(int i, int v) {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
      ((i == (int)Is ? fire_at(std::get<Is>(ev), i, v) : (void)0), ...);
    }(std::index_sequence_for<Ts...>{});
  }
};
// all events fired at once by as many threads; during the subscription or after it
template <typename... Ts>
void combination() {
  constexpr int N = sizeof...(Ts);
  memset(bef, 0, sizeof bef);
  bool is_any = mc::flip("any"), setup = mc::flip("during setup");
  Events<Ts...> e;
  if (!setup) e.await(is_any);
  {
    std::vector<std::thread> ts;
    for (int i = setup ? 0 : 1; i < N; i++) ts.emplace_back([&e, i] { e.fire_one(i, 10 + i); });
    if (setup) e.await(is_any);
    else e.fire_one(0, 10);
    for (auto& t : ts) t.join();
  }
  int r = log_count(RES);
  MC_CHECK(setup ? r <= 1 : r == 1, "resumed %d times", r);
  int order = mc::choose(2, "order");
  for (int k = 0; k < N; k++) e.fire_one(order ? N - 1 - k : k, 20 + k);
  MC_CHECK(log_count(RES) == 1, "resumed %d times", log_count(RES));
  if (is_any && !setup) MC_CHECK(mc_log_b(log_find(RES)) < 20, "resumed with a value fired after it");
  outcome();
}
}  // namespace
MC_SCENARIO(types_two, 7, 12, "when_all and when_any of two events of every combination of void, number and object, each fired by a thread, during or after the subscription, then again") {
  switch (mc::choose(9, "types")) {
    case 0: return combination<void, void>();
    case 1: return combination<void, int>();
    case 2: return combination<int, void>();
    case 3: return combination<int, int>();
    case 4: return combination<void, Probe>();
    case 5: return combination<Probe, void>();
    case 6: return combination<Probe, Probe>();
    case 7: return combination<Probe, int>();
    case 8: return combination<int, Probe>();
  }
}
MC_SCENARIO(types_three, 3, 5, "same with three events") {
  switch (mc::choose(8, "types")) {
    case 0: return combination<void, void, void>();
    case 1: return combination<void, int, void>();
    case 2: return combination<int, void, void>();
    case 3: return combination<int, int, int>();
    case 4: return combination<void, Probe, int>();
    case 5: return combination<Probe, void, Probe>();
    case 6: return combination<Probe, Probe, void>();
    case 7: return combination<void, void, int>();
  }
}
static co any_void(dd::event<void>& a, dd::event<void>& b, dd::event<int>& c) {
  auto r = co_await dd::when_any(a, b, c);
  mc_log(RES, r.index(), r.index() == 2 ? std::get<2>(r) : 0);
}
static co all_two(dd::event<int>& a, dd::event<Probe>& b) {
  auto r = co_await dd::when_all(a, b);
  mc_log(RES, std::get<0>(r), std::get<1>(r).get());
}
MC_SCENARIO(sequential_any, 0, 0, "when_any of three events (two void): every order of 5 firings") {
  reset();
  dd::event<void> a, b;
  dd::event<int> c;
  any_void(a, b, c);
  for (int i = 0; i < 5; i++) {
    int w = mc::choose(3, "event");
    if (w == 0) fire(a, 0);
    if (w == 1) fire(b, 1);
    if (w == 2) fire(c, 2, i);
    MC_CHECK(log_count(RES) == 1, "%d resumptions", log_count(RES));
    if (i == 0) MC_CHECK(mc_log_a(log_find(RES)) == w, "index %ld for event %d", mc_log_a(log_find(RES)), w);
  }
  fire(a, 0);
  fire(b, 1);
  fire(c, 2, 9);
  MC_CHECK(log_count(RES) == 1, "");
}
MC_SCENARIO(sequential_all, 0, 0, "when_all of two events: every order of 5 firings, then again from inside") {
  reset();
  dd::event<int> a;
  dd::event<Probe> b;
  all_two(a, b);
  int fa = -1, fb = -1;
  for (int i = 0; i < 5; i++) {
    int w = mc::choose(2, "event");
    if (w == 0) { if (fa < 0) fa = i; fire(a, 0, i); }
    else { if (fb < 0) fb = i; fire(b, 1, i); }
    bool both = fa >= 0 && fb >= 0;
    MC_CHECK(log_count(RES) == both, "%d resumptions", log_count(RES));
    if (both) MC_CHECK(mc_log_a(log_find(RES)) == fa && mc_log_b(log_find(RES)) == fb, "values %ld %ld, expected %d %d", mc_log_a(log_find(RES)), mc_log_b(log_find(RES)), fa, fb);
  }
  if (fa < 0) fire(a, 0, 6);
  if (fb < 0) fire(b, 1, 6);
  MC_CHECK(log_count(RES) == 1, "");
}

// more events than any small script has
template <size_t... Is>
static co all_of_many(std::array<dd::event<int>, sizeof...(Is)>& e, int& got, std::index_sequence<Is...>) {
  auto r = co_await dd::when_all(e[Is]...);
  got++;
  bool ok[] = {std::get<Is>(r) == 1000 + (int)Is...};
  for (size_t i = 0; i < sizeof...(Is); i++) MC_CHECK(ok[i], "value %zu", i);
}
template <size_t... Is>
static co any_of_many(std::array<dd::event<int>, sizeof...(Is)>& e, int& got, int& index, std::index_sequence<Is...>) {
  auto r = co_await dd::when_any(e[Is]...);
  got++;
  index = r.index();
  std::visit([&](int v) { MC_CHECK(v == 1000 + index, "value %d of event %d", v, index); }, r);
}
// one event in several places
static co all_same(dd::event<Probe>& a, dd::event<int>& b, int rounds, int& n, std::vector<std::array<int, 3>>& got) {
  for (int k = 0; k < rounds; k++) {
    auto r = co_await dd::when_all(a, b, a);
    got.push_back({std::get<0>(r).get(), std::get<1>(r), std::get<2>(r).get()});
  }
  n++;
}
static co any_same(dd::event<Probe>& a, int rounds, int& n, std::vector<std::array<int, 3>>& got) {
  for (int k = 0; k < rounds; k++) {
    auto r = co_await dd::when_any(a, a);
    got.push_back({(int)r.index(), r.index() ? std::get<1>(r).get() : std::get<0>(r).get(), 0});
  }
  n++;
}
MC_SCENARIO(same_event, 0, 0, "one event in two places of when_all and of when_any, awaited again from inside the notification") {
  dd::this_thread_executor_t x;
  dd::event<Probe> a;
  dd::event<int> b;
  int n = 0;
  const int rounds = 1 + mc::choose(2, "rounds");
  std::vector<std::array<int, 3>> got;
  if (mc::flip("any")) {
    any_same(a, rounds, n, got);
    for (int k = 0; k < 4; k++) {
      MC_CHECK((int)got.size() == std::min(k, rounds), "%zu resumptions after %d firings", got.size(), k);
      a.notify_all(x, Probe(k));
    }
    for (int k = 0; k < rounds; k++) MC_CHECK(got[k][1] == k && (got[k][0] | 1) == 1, "round %d: value %d", k, got[k][1]);
  } else {
    all_same(a, b, rounds, n, got);
    // each round: either event first; one that is fired again before the other one is of no consequence
    for (int k = 0; k < rounds; k++) {
      const bool b_first = mc::flip("b first"), again = mc::flip("again");
      for (int i = 0; i < 2; i++) {
        MC_CHECK((int)got.size() == k, "resumed %zu times in round %d", got.size(), k);
        const bool fire_b = (i == 0) == b_first;
        for (int j = 0; j <= (again && i == 0); j++) fire_b ? b.notify_all(x, 20 + k + 5 * j) : a.notify_all(x, Probe(10 + k + 5 * j));
      }
      MC_CHECK((int)got.size() == k + 1, "resumed %zu times after round %d", got.size(), k);
      MC_CHECK(got[k][0] == 10 + k && got[k][1] == 20 + k && got[k][2] == 10 + k, "round %d: %d %d %d", k, got[k][0], got[k][1], got[k][2]);
    }
  }
  MC_CHECK(n == 1 && (int)got.size() == rounds, "%zu resumptions", got.size());
  a.notify_all(x, Probe(9));
  b.notify_all(x, 9);
  MC_CHECK(n == 1 && (int)got.size() == rounds, "%zu resumptions", got.size());
}
MC_SCENARIO(many, 0, 0, "130 events under when_all and under when_any, fired in three orders") {
  constexpr int N = 130;
  auto e = std::make_unique<std::array<dd::event<int>, N>>();
  dd::this_thread_executor_t x;
  int got = 0, index = -1;
  bool all = mc::flip("all");
  int order = mc::choose(3, "order");
  auto at = [&](int k) { return order == 0 ? k : order == 1 ? N - 1 - k : (k * 53 + 11) % N; };
  if (all) all_of_many(*e, got, std::make_index_sequence<N>{});
  else any_of_many(*e, got, index, std::make_index_sequence<N>{});
  for (int k = 0; k < N; k++) {
    MC_CHECK(got == (all ? 0 : k > 0), "resumed %d times after %d of %d events", got, k, N);
    int i = at(k);
    (*e)[i].notify_all(x, 1000 + i);
  }
  MC_CHECK(got == 1, "resumed %d times", got);
  if (!all) MC_CHECK(index == at(0), "event %d instead of %d", index, at(0));
}
int main(int c, char** v) { return mc_main(c, v); }
