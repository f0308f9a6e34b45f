// C13: when_any yields the first success exactly once
#include "tk.h"
#include "exec.h"
#include "anything.h"

namespace {
enum Where { SYNC, PARK, HOP };
constexpr int MAXN = 4;
Ctl cs[MAXN];
int where[MAXN];
bool fails[MAXN];
template <typename T>
T value(int i) {
  if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(100 + i);
  else if constexpr (std::is_same_v<T, AmpT>) return AmpT{100 + i};
  else if constexpr (!std::is_void_v<T>) return T(100 + i);
}
template <typename T>
bool is_value(T& x, int i) {
  if constexpr (std::is_same_v<T, int>) return x == 100 + i;
  else if constexpr (requires { x.p.get(); } || std::is_same_v<T, AmpT> || std::is_same_v<T, Probe>) return x.get() == 100 + i;
  else return x && *x == 100 + i;
}
template <typename T>
dd::task<T> child(int i) {
  Local local{cs[i]};
  mc_log(BEGIN, i, 0);
  if (where[i] == HOP) co_await hop{};
  if (where[i] == PARK) co_await park{cs[i]};
  cs[i].written = 5;
  mc_log(END, i, 0);
  if (fails[i]) throw Err{10 + i};
  co_return value<T>(i);
}
int frozen;        // number of tasks begun when the combination was freed, -1: not yet
int winner;        // what the awaiter got: index, or -1-index of the exception
int want = -100;   // sequential: what it has to get
template <typename T>
void check_one(dd::expected<T, std::exception_ptr>& e, int i, int n) {
  MC_CHECK(log_count(END, i) == 1, "outcome of a task that did not finish");
  MC_CHECK(cs[i].written == 5, "effects of the task are not visible");
  MC_CHECK(e.has_value() == !fails[i], "outcome %d: has value %d", i, e.has_value());
  if (fails[i]) {
    for (int k = 0; k < n; k++) MC_CHECK(fails[k] && log_count(END, k) == 1, "failed although not all tasks have");
    try {
      std::rethrow_exception(e.error());
    } catch (Err& x) { MC_CHECK(x.code == 10 + i, "outcome %d: exception %d", i, x.code); }
    winner = -1 - i;
  } else {
    if constexpr (!std::is_void_v<T>) MC_CHECK(is_value<T>(*e, i), "outcome %d: value", i);
    winner = i;
  }
}
template <typename... Ts>
void check_result(std::variant<std::monostate, dd::expected<Ts, std::exception_ptr>...>& r) {
  MC_CHECK(r.index() > 0 && r.index() <= sizeof...(Ts), "index %zu", r.index());
  [&]<size_t... Is>(std::index_sequence<Is...>) {
    ((r.index() == Is + 1 ? check_one<Ts>(std::get<Is + 1>(r), Is, sizeof...(Ts)) : (void)0), ...);
  }(std::index_sequence_for<Ts...>{});
}
template <typename... Ts>
auto make() {
  return []<size_t... Is>(std::index_sequence<Is...>) { return dd::when_any(child<Ts>(Is)...); }(std::index_sequence_for<Ts...>{});
}
co awaits(auto t, int n, auto check) {
  for (int i = 0; i < n; i++) never_ran(cs[i]);
  auto r = co_await t;
  mc_log(OWNER_GOES_ON, 0, 0);
  MC_CHECK(log_count(OWNER_GOES_ON) == 1, "the awaiter went on twice");
  check(r);
  if (mc::flip("free now")) {
    t = decltype(t){};
    frozen = log_count(BEGIN);
  }
  check(r);
  mc_log(OWNER_END, 0, 0);
}
void finish(int n, bool owner_ended) {
  MC_CHECK(log_count(OWNER_END) == owner_ended, "the awaiter ended %d times", log_count(OWNER_END));
  for (int i = 0; i < n; i++) {
    MC_CHECK(log_count(BEGIN, i) == log_count(END, i) && log_count(BEGIN, i) <= 1, "task %d begun %d times, ended %d times", i, log_count(BEGIN, i), log_count(END, i));
    MC_CHECK(log_count(LOCALS_DEAD, i) == log_count(BEGIN, i), "task %d: locals", i);
  }
}
template <typename... Ts>
void seq(bool destroy) {
  constexpr int n = sizeof...(Ts);
  bool blocking = true;
  frozen = -1;
  for (int i = 0; i < n; i++) {
    cs[i] = Ctl{i};
    where[i] = mc::choose(2, "where");
    fails[i] = mc::flip("fails");
  }
  // the tasks start in order; a synchronous success decides at once
  bool decided = false;
  int nfailed = 0, last_failed = -1;
  want = -100;
  auto finished = [&](int i) {
    if (decided) return;
    if (fails[i]) {
      last_failed = i;
      if (++nfailed == n) {
        decided = true;
        want = -1 - last_failed;
      }
    } else {
      decided = true;
      want = i;
    }
  };
  for (int i = 0; i < n; i++)
    if (where[i] == SYNC) finished(i);
  blocking = decided;
  if (destroy && blocking) return;
  auto check = [](auto& r) {
    check_result<Ts...>(r);
    MC_CHECK(winner == want, "got %d instead of %d", winner, want);
  };
  if (blocking && mc::flip("get")) {
    auto r = make<Ts...>().get();
    check(r);
    mc_log(OWNER_GOES_ON, 0, 0);
    mc_log(OWNER_END, 0, 0);
  } else if (!destroy)
    awaits(make<Ts...>(), n, check);
  dd::task<int> top;
  std::coroutine_handle<> top_h;
  if (destroy) {  // an awaiter that can be destroyed while it waits

    top = [](auto t, auto check) -> dd::task<int> {
      auto r = co_await t;
      mc_log(OWNER_GOES_ON, 0, 0);
      check(r);
      mc_log(OWNER_END, 0, 0);
      co_return 1;
    }(make<Ts...>(), check);
    top_h = top.start_and_detach(true);
  }
  bool destroyed = false;
  for (;;) {
    MC_CHECK(log_count(OWNER_GOES_ON) == (decided && !destroyed), "decided: %d, awaiter went on: %d times", decided, log_count(OWNER_GOES_ON));
    if (destroy && !destroyed && !decided && mc::flip("destroy the awaiter")) {
      top_h.destroy();
      top_h = nullptr;
      destroyed = true;
    }
    std::vector<int> p;
    for (int i = 0; i < n; i++)
      if (cs[i].parked) p.push_back(i);
    if (p.empty()) break;
    int i = p[mc::choose(p.size(), "which")];
    if (!destroyed) finished(i);
    std::exchange(cs[i].parked, nullptr).resume();
    MC_CHECK(log_count(END, i) == 1, "task %d did not end", i);
    MC_CHECK(log_count(LOCALS_DEAD, i) == 1, "locals of task %d", i);
  }
  if (top_h) top_h.destroy();
  if (frozen >= 0) MC_CHECK(log_count(BEGIN) == frozen, "a task begins after the wait is over and its combination freed");
  finish(n, !destroyed);
}
template <typename... Ts>
void conc(bool get) {
  constexpr int n = sizeof...(Ts);
  for (int i = 0; i < n; i++) {
    cs[i] = Ctl{i};
    where[i] = mc::flip("hops") ? HOP : SYNC;
    fails[i] = mc::flip("fails");
  }
  auto check = [](auto& r) { check_result<Ts...>(r); };
  if (get) {
    auto r = make<Ts...>().get();
    check(r);
    mc_log(OWNER_GOES_ON, 0, 0);
    mc_log(OWNER_END, 0, 0);
  } else
    awaits(make<Ts...>(), n, check);
  mc_wait_quiescent();
  finish(n, true);
  MC_CHECK(log_count(OWNER_GOES_ON) == 1, "the awaiter went on %d times", log_count(OWNER_GOES_ON));
}
}  // namespace
MC_SCENARIO(seq1, 0, 0, "one task") { seq<Probe>(false); }
MC_SCENARIO(seq2, 0, 0, "two tasks: finishing at once or resumed in any order, failing or not") { seq<Probe, void>(false); }
MC_SCENARIO(seq2_amp, 0, 0, "two tasks of values whose & is overloaded") { seq<Amp, AmpT>(false); }
MC_SCENARIO(seq2_same, 0, 0, "two tasks of the same type") { seq<Probe, Probe>(false); }
MC_SCENARIO(seq3, 0, 0, "three tasks") { seq<int, Probe, void>(false); }
MC_SCENARIO(seq3_moveonly, 0, 0, "three tasks of move-only values") { seq<std::unique_ptr<int>, std::unique_ptr<int>, std::unique_ptr<int>>(false); }
MC_SCENARIO(seq4, 0, 0, "four tasks") { seq<Probe, void, int, Probe>(false); }
MC_SCENARIO(destroyed3, 0, 0, "three tasks whose awaiter may be destroyed at any point while it waits") { seq<int, Probe, void>(true); }
MC_SCENARIO(destroyed4, 0, 0, "four tasks") { seq<Probe, Probe, int, void>(true); }
MC_SCENARIO(conc2, 4, 7, "two tasks finishing on the caller or on threads of their own") { conc<Probe, void>(false); }
MC_SCENARIO(conc2_get, 4, 6, "same, got by a blocking owner") { conc<Probe, Probe>(true); }
MC_SCENARIO(conc3, 2, 3, "three tasks") { conc<int, Probe, void>(false); }
MC_SCENARIO(conc3_get, 2, 3, "three tasks, got by a blocking owner") { conc<Probe, int, Probe>(true); }
// combinators of combinators
MC_SCENARIO(any_of_all, 0, 0, "when_any of a when_all and a task; when_all of when_any") {
  bool all_outside = mc::flip("all outside");
  int n = all_outside ? 4 : 3;
  for (int i = 0; i < n; i++) {
    cs[i] = Ctl{i};
    where[i] = mc::choose(2, "where");
    fails[i] = mc::flip("fails");
  }
  if (all_outside) {
    [](auto t) -> co {
      auto r = co_await t;
      mc_log(OWNER_GOES_ON, 0, 0);
      MC_CHECK(std::get<0>(r) && std::get<1>(r), "a combining task failed");
      mc_log(OWNER_END, 0, 0);
    }(dd::when_all(dd::when_any(child<Probe>(0), child<int>(1)), dd::when_any(child<Probe>(2), child<void>(3))));
  } else {
    [](auto t) -> co {
      auto r = co_await t;
      mc_log(OWNER_GOES_ON, 0, 0);
      if (r.index() == 1) {
        auto& all = *std::get<1>(r);
        MC_CHECK(log_count(END, 0) && log_count(END, 1), "not all finished");
        MC_CHECK(std::get<0>(all).has_value() == !fails[0] && std::get<1>(all).has_value() == !fails[1], "outcomes");
      } else {
        MC_CHECK(r.index() == 2 && !fails[2] && log_count(END, 2), "second finished");
        MC_CHECK(std::get<2>(r) && (*std::get<2>(r)).get() == 102, "value");
      }
      mc_log(OWNER_END, 0, 0);
    }(dd::when_any(dd::when_all(child<Probe>(0), child<int>(1)), child<Probe>(2)));
  }
  for (;;) {
    auto done = [](int a, int b) {  // the any of a and b is decided
      bool ea = log_count(END, a), eb = log_count(END, b);
      return (ea && !fails[a]) || (eb && !fails[b]) || (ea && eb);
    };
    bool decided = all_outside ? done(0, 1) && done(2, 3) : (log_count(END, 0) && log_count(END, 1)) || (log_count(END, 2) && !fails[2]);
    MC_CHECK(log_count(OWNER_END) == decided, "decided: %d, awaiter ended: %d times", decided, log_count(OWNER_END));
    std::vector<int> p;
    for (int i = 0; i < n; i++)
      if (cs[i].parked) p.push_back(i);
    if (p.empty()) break;
    std::exchange(cs[p[mc::choose(p.size(), "which")]].parked, nullptr).resume();
  }
  finish(n, true);
}
// long histories of one coroutine
static dd::task<int> done_now(int i, bool fail) {
  if (fail) throw Err{i};
  co_return i;
}
static dd::task<int> rounds(int n) {
  int sum = 0;
  for (int i = 0; i < n; i++) {
    auto r = co_await dd::when_any(done_now(1, i % 3 == 0), done_now(2, i % 2 == 0));
    int at = i % 3 ? 1 : 2;
    MC_CHECK((int)r.index() == at, "round %d: index %zu", i, r.index());
    bool has = at == 1 ? std::get<1>(r).has_value() : std::get<2>(r).has_value();
    MC_CHECK(has == (at == 1 || i % 2), "round %d", i);
    sum++;
  }
  co_return sum;
}
MC_SCENARIO(long_loop, 0, 0, "100 when_any in a row") {
  int v = rounds(100).get();
  MC_CHECK(v == 100, "%d", v);
}
static dd::task<int> parked_one(std::vector<std::coroutine_handle<>>& p, int i, bool fail) {
  struct aw {
    std::vector<std::coroutine_handle<>>& p;
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> h) { p.push_back(h); }
    void await_resume() {}
  };
  co_await aw{p};
  if (fail) throw Err{i};
  co_return i;
}
template <int N>
static void many(int first) {
  std::vector<std::coroutine_handle<>> p;
  static int got;
  got = -100;
  auto t = [&]<size_t... Is>(std::index_sequence<Is...>) { return dd::when_any(parked_one(p, Is, (int)Is < first)...); }(std::make_index_sequence<N>{});
  [](auto t) -> co {
    auto r = co_await t;
    MC_CHECK(got == -100, "resumed twice");
    got = r.index();
  }(std::move(t));
  for (int i = 0; i < N; i++) {
    MC_CHECK(got == (i > first ? first + 1 : -100), "after %d tasks: %d", i, got);
    p[i].resume();
  }
  MC_CHECK(got == (first == N ? N : first + 1), "%d", got);
}
MC_SCENARIO(many, 0, 0, "10 tasks; which one is the first success, and everything that ends later") { many<10>(mc::choose(11, "first success")); }
MC_SCENARIO(very_many, 0, 0, "130 tasks, of which the first successes are none, the first, the 5th, the 128th, the last") {
  static const int first[] = {130, 0, 4, 127, 128, 129};
  many<130>(first[mc::choose(6, "first success")]);
}

MC_SCENARIO(results_used, 0, 0, "values that can be built from anything; the result is copied and moved in every way") {
  int how[2], n = 0;
  bool stops[2];
  for (int i = 0; i < 2; i++) {
    how[i] = mc::choose(4, "how");
    stops[i] = mc::flip("stops");
    anything::parked[i] = nullptr;
  }
  // the first success in the order in which they end; otherwise the last that ends
  int order[2] = {0, 1};
  if (stops[0] && !stops[1]) std::swap(order[0], order[1]);
  int w = how[order[0]] < 3 ? order[0] : order[1];
  auto use = [&](auto t) -> co {
    auto r = co_await t;
    n++;
    auto copy = r;
    MC_CHECK((int)r.index() == w + 1, "index %zu instead of %d", r.index(), w + 1);
    if (w) anything::outcome(std::get<2>(r), 1, how[1]), anything::outcome(std::get<2>(copy), 1, how[1]);
    else anything::outcome(std::get<1>(r), 0, how[0]), anything::outcome(std::get<1>(copy), 0, how[0]);
  };
  use(dd::when_any(anything::leaf(0, stops[0], how[0]), anything::leaf(1, stops[1], how[1])));
  for (int i = 0; i < 2; i++)
    if (anything::parked[i]) std::exchange(anything::parked[i], nullptr).resume();
  MC_CHECK(n == 1, "went on %d times", n);
}
int main(int c, char** v) { return mc_main(c, v); }
