// C12: when_all yields every outcome in order, after all finished
#include "tk.h"
#include "exec.h"
#include "anything.h"

namespace {
enum Where { SYNC, HOP, PARK, NWHERE };
Ctl cs[8];
int where[8];
bool fails[8];
template <typename T>
T value(int i) {
  if constexpr (std::is_same_v<T, std::unique_ptr<int>>) return std::make_unique<int>(100 + i);
  else if constexpr (std::is_same_v<T, AmpT>) return AmpT{100 + i};
  else if constexpr (!std::is_void_v<T>) return T(100 + i);
}
template <typename T>
bool is_value(T& x, int i) {
  if constexpr (std::is_same_v<T, int>) return x == 100 + i;
  else if constexpr (requires { x.p.get(); } || std::is_same_v<T, AmpT> || std::is_same_v<T, Probe>) return x.get() == 100 + i;
  else return x && *x == 100 + i;
}
template <typename T, typename Ctx = dd::null_context>
dd::task<T, Ctx> child(int i) {
  Local local{cs[i]};
  mc_log(BEGIN, i, 0);
  if (where[i] == HOP) co_await hop{};
  if (where[i] == PARK) co_await park{cs[i]};
  cs[i].written = 5;
  cs[i].end_tid = mc_self();
  mc_log(END, i, 0);
  if (fails[i]) throw Err{10 + i};
  co_return value<T>(i);
}
template <typename T>
void check_one(dd::expected<T, std::exception_ptr>& e, int i) {
  ended(cs[i]);
  MC_CHECK(e.has_value() == !fails[i] && (bool)e == !fails[i], "outcome %d: has value %d", i, e.has_value());
  const auto& ce = e;
  if (fails[i]) {
    try {
      MC_CHECK(ce.error() == e.error(), "error");
      std::rethrow_exception(e.error());
    } catch (Err& x) { MC_CHECK(x.code == 10 + i, "outcome %d: exception %d", i, x.code); }
  } else if constexpr (!std::is_void_v<T>) {
    MC_CHECK(is_value<T>(*e, i), "outcome %d: value", i);
    MC_CHECK(std::addressof(*ce) == std::addressof(*e), "value");
  }
}
void check_goes_on(int n) {
  int last = 0;
  for (int i = 0; i < n; i++) {
    ended(cs[i]);
    if (log_find(END, i) > log_find(END, last)) last = i;
  }
  mc_log(OWNER_GOES_ON, 0, 0);
  MC_CHECK(log_count(OWNER_GOES_ON) == 1, "the awaiter went on twice");
}
template <typename... Ts>
dd::task<std::tuple<dd::expected<Ts, std::exception_ptr>...>> make() {
  return []<size_t... Is>(std::index_sequence<Is...>) { return dd::when_all(child<Ts>(Is)...); }(std::index_sequence_for<Ts...>{});
}
template <typename... Ts>
void check_tuple(std::tuple<dd::expected<Ts, std::exception_ptr>...>& r) {
  [&]<size_t... Is>(std::index_sequence<Is...>) { (check_one<Ts>(std::get<Is>(r), Is), ...); }(std::index_sequence_for<Ts...>{});
}
template <typename T>
void check_vector(std::vector<dd::expected<T, std::exception_ptr>>& r, int n) {
  MC_CHECK((int)r.size() == n, "%zu outcomes of %d", r.size(), n);
  for (int i = 0; i < n; i++) check_one<T>(r[i], i);
}
co awaits(auto t, int n, auto check) {
  for (int i = 0; i < n; i++) never_ran(cs[i]);
  auto r = co_await t;
  check_goes_on(n);
  check(r);
  if (mc::flip("free now")) t = decltype(t){};
  check(r);
  mc_log(OWNER_END, 0, 0);
}
// every parked child is resumed, in every order; the awaiter goes on with the last
void resume_parked(int n, bool sequential) {
  for (;;) {
    std::vector<int> p;
    int open = 0;
    for (int i = 0; i < n; i++) {
      if (cs[i].parked) p.push_back(i);
      open += log_count(END, i) == 0;
    }
    if (sequential) MC_CHECK(log_count(OWNER_GOES_ON) == (open == 0), "the awaiter went on: %d, unfinished tasks: %d", log_count(OWNER_GOES_ON), open);
    if (p.empty()) break;
    int i = p[mc::choose(p.size(), "which")];
    std::exchange(cs[i].parked, nullptr).resume();
  }
}
void setup(int n, int nwhere) {
  for (int i = 0; i < n; i++) {
    cs[i] = Ctl{i};
    where[i] = mc::choose(nwhere, "where");
    fails[i] = mc::flip("fails");
  }
}
void finish(int n) {
  MC_CHECK(log_count(OWNER_END) == 1, "the awaiter ended %d times", log_count(OWNER_END));
  for (int i = 0; i < n; i++) ended(cs[i]);
}
template <typename... Ts>
void seq_tuple() {
  constexpr int n = sizeof...(Ts);
  setup(n, NWHERE);
  for (int i = 0; i < n; i++)
    if (where[i] == HOP) return;
  auto check = [](auto& r) { check_tuple<Ts...>(r); };
  bool blocking = true;
  for (int i = 0; i < n; i++) blocking &= where[i] == SYNC;
  if (blocking && mc::flip("get")) {
    auto r = make<Ts...>().get();
    check(r);
    mc_log(OWNER_END, 0, 0);
  } else {
    awaits(make<Ts...>(), n, check);
    resume_parked(n, true);
  }
  finish(n);
}
template <typename T>
void seq_vector(int max) {
  int n = mc::choose(max + 1, "n");
  setup(n, NWHERE);
  for (int i = 0; i < n; i++)
    if (where[i] == HOP) return;
  std::vector<dd::task<T>> v;
  for (int i = 0; i < n; i++) v.push_back(child<T>(i));
  auto t = dd::when_all(std::move(v));
  auto check = [n](auto& r) { check_vector<T>(r, n); };
  bool blocking = true;
  for (int i = 0; i < n; i++) blocking &= where[i] == SYNC;
  if (blocking && mc::flip("get")) {
    auto r = t.get();
    check(r);
    mc_log(OWNER_END, 0, 0);
  } else {
    awaits(std::move(t), n, check);
    resume_parked(n, true);
  }
  finish(n);
}
// children on threads: hopping ones and parked ones resumed by threads of their own
template <typename... Ts>
void conc_tuple(bool get) {
  constexpr int n = sizeof...(Ts);
  setup(n, 2);
  auto check = [](auto& r) { check_tuple<Ts...>(r); };
  if (get) {
    auto r = make<Ts...>().get();
    check_goes_on(n);
    check(r);
    mc_log(OWNER_END, 0, 0);
  } else
    awaits(make<Ts...>(), n, check);
  mc_wait_quiescent();
  finish(n);
}
// all of them on threads, one of them failing
void setup_threads(int n) {
  const int f = mc::choose(3, "fails");
  for (int i = 0; i < n; i++) {
    cs[i] = Ctl{i};
    where[i] = HOP;
    fails[i] = f && i == (f == 1 ? 0 : n - 1);
  }
}
template <typename T>
void conc_vector(int n, bool get, bool big = false) {
  if (big) setup_threads(n);
  else setup(n, 2);
  auto check = [n](auto& r) { check_vector<T>(r, n); };
  std::vector<dd::task<T>> v;
  for (int i = 0; i < n; i++) v.push_back(child<T>(i));
  auto t = dd::when_all(std::move(v));
  if (get) {
    auto r = t.get();
    check_goes_on(n);
    check(r);
    mc_log(OWNER_END, 0, 0);
  } else
    awaits(std::move(t), n, check);
  mc_wait_quiescent();
  finish(n);
}
}  // namespace
MC_SCENARIO(seq_tuple1, 0, 0, "one task") { seq_tuple<Probe>(); }
MC_SCENARIO(seq_tuple2, 0, 0, "two tasks of different types: finishing at once or resumed in any order, failing or not") { seq_tuple<Probe, void>(); }
MC_SCENARIO(seq_tuple3, 0, 0, "three tasks, one of a move-only value awaited for effects") { seq_tuple<int, Probe, void>(); }
MC_SCENARIO(seq_tuple4, 0, 0, "four tasks") { seq_tuple<Probe, Probe, int, void>(); }
MC_SCENARIO(seq_moveonly, 0, 0, "two tasks of move-only values") { seq_tuple<std::unique_ptr<int>, std::unique_ptr<int>>(); }
MC_SCENARIO(seq_amp, 0, 0, "two tasks of values whose & is overloaded") { seq_tuple<Amp, AmpT>(); }
MC_SCENARIO(seq_vector, 0, 0, "0..4 tasks in a vector, owning values") { seq_vector<Probe>(mc::depth(4, 5)); }
MC_SCENARIO(seq_vector_void, 0, 0, "0..4 tasks in a vector, void") { seq_vector<void>(4); }
MC_SCENARIO(seq_vector_moveonly, 0, 0, "0..3 tasks in a vector, move-only values") { seq_vector<std::unique_ptr<int>>(3); }
MC_SCENARIO(conc_tuple2, 20, 20, "two tasks finishing on the caller or on threads of their own, while the caller still starts them") { conc_tuple<Probe, void>(false); }
MC_SCENARIO(conc_tuple2_get, 20, 20, "same, got by a blocking owner") { conc_tuple<Probe, int>(true); }
MC_SCENARIO(conc_tuple3, 20, 20, "three tasks") { conc_tuple<int, Probe, void>(false); }
MC_SCENARIO(conc_vector2, 20, 20, "two tasks in a vector") { conc_vector<Probe>(2, false); }
MC_SCENARIO(conc_vector2_get, 20, 20, "same, got by a blocking owner") { conc_vector<Probe>(2, true); }
MC_SCENARIO(conc_vector6, 1, 2, "six tasks in a vector, each on a thread") { conc_vector<int>(6, false, true); }
MC_SCENARIO(conc_vector3, 20, 20, "three tasks in a vector") { conc_vector<int>(3, false); }
// combined combinators: all of (all of a vector, task)
MC_SCENARIO(nested, 20, 20, "when_all of two when_all") {
  int n = 4;
  setup(n, mc_thorough() ? 2 : 1);
  for (int i = 0; i < n; i++)
    if (where[i] == 0 && mc::flip("park")) where[i] = PARK;
  auto t = dd::when_all(dd::when_all(child<Probe>(0), child<int>(1)), dd::when_all(child<void>(2), child<Probe>(3)));
  awaits(std::move(t), n, [](auto& r) {
    MC_CHECK(std::get<0>(r).has_value() && std::get<1>(r).has_value(), "a combining task fails");
    check_one<Probe>(std::get<0>(*std::get<0>(r)), 0);
    check_one<int>(std::get<1>(*std::get<0>(r)), 1);
    check_one<void>(std::get<0>(*std::get<1>(r)), 2);
    check_one<Probe>(std::get<1>(*std::get<1>(r)), 3);
  });
  mc_wait_quiescent();
  bool hops = false;
  for (int i = 0; i < n; i++) hops |= where[i] == HOP;
  resume_parked(n, !hops);
  finish(n);
}
// tasks that are done already or were waited for before
MC_SCENARIO(done_before, 0, 0, "some of the tasks have finished before they are combined") {
  setup(3, 1);
  auto a = child<Probe>(0);
  auto b = child<int>(1);
  auto c = child<void>(2);
  [](dd::task<Probe>& a, dd::task<int>& b, dd::task<void>& c) -> co {
    if (mc::flip("first")) co_await a.wait();
    if (mc::flip("second")) co_await b.wait();
    if (mc::flip("third")) co_await c.wait();
    auto r = co_await dd::when_all(std::move(a), std::move(b), std::move(c));
    check_tuple<Probe, int, void>(r);
    mc_log(OWNER_END, 0, 0);
  }(a, b, c);
  MC_CHECK(a.empty() && b.empty() && c.empty(), "moved from");
  finish(3);
}
// many tasks: parked ones resumed in one of three orders
struct Many {
  static constexpr int N = 300;
  std::coroutine_handle<> parked[N];
  int finished = 0;
};
static dd::task<int> one_of_many(Many& m, int i) {
  struct aw {
    Many& m;
    int i;
    bool await_ready() { return i % 5 == 0; }
    void await_suspend(std::coroutine_handle<> h) { m.parked[i] = h; }
    void await_resume() {}
  };
  co_await aw{m, i};
  m.finished++;
  if (i % 3 == 1) throw Err{i};
  co_return i * 2;
}
MC_SCENARIO(very_many, 0, 0, "66000 tasks in a vector, all but a few done at once, the others resumed later") {
  mc_horizon(400000);
  constexpr int N = 66000, PARKED = 5;
  static std::coroutine_handle<> parked[PARKED];
  static int finished, went_on;
  finished = went_on = 0;
  std::vector<dd::task<int>> v;
  v.reserve(N);
  for (int i = 0; i < N; i++)
    v.push_back([](int i) -> dd::task<int> {
      if (i % (N / PARKED) == 7) {
        struct park {
          int k;
          bool await_ready() { return false; }
          void await_suspend(std::coroutine_handle<> h) { parked[k] = h; }
          void await_resume() {}
        };
        co_await park{i / (N / PARKED)};
      }
      finished++;
      co_return i + 1;
    }(i));
  [](auto t) -> co {
    auto r = co_await t;
    went_on++;
    MC_CHECK(finished == N && (int)r.size() == N, "went on after %d of %d tasks, %zu outcomes", finished, N, r.size());
    for (int i = 0; i < N; i++) MC_CHECK(r[i] && *r[i] == i + 1, "outcome %d", i);
  }(dd::when_all(std::move(v)));
  for (auto& h : parked) {
    MC_CHECK(went_on == 0, "went on after %d of %d tasks", finished, N);
    h.resume();
  }
  MC_CHECK(went_on == 1, "the awaiter went on %d times", went_on);
}
MC_SCENARIO(many, 0, 0, "300 tasks in a vector, some done at once, some failing, resumed in three orders") {
  auto* m = new Many;
  std::vector<dd::task<int>> v;
  for (int i = 0; i < Many::N; i++) v.push_back(one_of_many(*m, i));
  static int went_on;
  went_on = 0;
  [](auto t, Many& m) -> co {
    auto r = co_await t;
    went_on++;
    MC_CHECK(m.finished == Many::N && (int)r.size() == Many::N, "went on after %d of %d tasks, %zu outcomes", m.finished, Many::N, r.size());
    for (int i = 0; i < Many::N; i++) {
      MC_CHECK(r[i].has_value() == (i % 3 != 1), "outcome %d", i);
      if (r[i]) MC_CHECK(*r[i] == i * 2, "value %d", i);
      else
        try {
          std::rethrow_exception(r[i].error());
        } catch (Err& e) { MC_CHECK(e.code == i, "exception %d", i); }
    }
  }(dd::when_all(std::move(v)), *m);
  int order = mc::choose(3, "order");
  for (int k = 0; k < Many::N; k++) {
    int i = order == 0 ? k : order == 1 ? Many::N - 1 - k : (k * 7) % Many::N;
    MC_CHECK(went_on == (m->finished == Many::N), "");
    if (m->parked[i]) std::exchange(m->parked[i], nullptr).resume();
  }
  MC_CHECK(went_on == 1, "the awaiter went on %d times", went_on);
  delete m;
}
static dd::task<int> tower(int n) {
  if (n == 0) co_return 1;
  std::vector<dd::task<int>> v;
  v.push_back(tower(n - 1));
  auto r = co_await dd::when_all(std::move(v));
  co_return *r[0] + 1;
}
static dd::task<int> done_now(int i) { co_return i; }
static dd::task<int> rounds(int n) {
  int sum = 0;
  for (int i = 0; i < n; i++) {
    auto [a, b] = co_await dd::when_all(done_now(1), done_now(2));
    sum += *a + *b;
  }
  co_return sum;
}
MC_SCENARIO(long_loop_and_tower, 0, 0, "100 when_all in a row, 100 nested in each other") {
  int v = mc::flip("tower") ? tower(100).get() : rounds(100).get();
  MC_CHECK(v == 101 || v == 300, "%d", v);
}

using AnyResult = dd::expected<anything::Any, std::exception_ptr>;
static co use_vector(dd::task<std::vector<AnyResult>> t, const int* how, int& n) {
  std::vector<AnyResult> r = co_await t;
  n++;
  std::vector<AnyResult> copy = r;
  MC_CHECK(r.size() == 2, "%zu", r.size());
  for (int i = 0; i < 2; i++) anything::outcome(r[i], i, how[i]), anything::outcome(copy[i], i, how[i]);
}
static co use_tuple(dd::task<std::tuple<AnyResult, AnyResult>> t, const int* how, int& n) {
  std::tuple<AnyResult, AnyResult> r = co_await t;
  n++;
  std::tuple<AnyResult, AnyResult> copy = r;
  anything::outcome(std::get<0>(r), 0, how[0]), anything::outcome(std::get<1>(r), 1, how[1]);
  anything::outcome(std::get<0>(copy), 0, how[0]), anything::outcome(std::get<1>(copy), 1, how[1]);
}
MC_SCENARIO(results_used, 0, 0, "values that can be built from anything; the results are copied and moved in every way") {
  int how[2], n = 0;
  bool stops[2];
  for (int i = 0; i < 2; i++) {
    how[i] = mc::choose(4, "how");
    stops[i] = mc::flip("stops");
    anything::parked[i] = nullptr;
  }
  bool vec = mc::flip("vector");
  if (vec) {
    std::vector<dd::task<anything::Any>> v;
    for (int i = 0; i < 2; i++) v.push_back(anything::leaf(i, stops[i], how[i]));
    use_vector(dd::when_all(std::move(v)), how, n);
  } else use_tuple(dd::when_all(anything::leaf(0, stops[0], how[0]), anything::leaf(1, stops[1], how[1])), how, n);
  for (int i = 0; i < 2; i++)
    if (stops[i]) {
      MC_CHECK(n == 0, "went on early");
      anything::parked[i].resume();
    }
  MC_CHECK(n == 1, "went on %d times", n);
}
int main(int c, char** v) { return mc_main(c, v); }
