// C10: a task is lazy, runs once and hands its outcome to the awaiter
#include "tk.h"
#include "ret.h"
#include "exec.h"
#include <kelcoro/job.hpp>

namespace {
template <typename T>
struct Model {
  Ctl& c;
  int how;
  bool done = false;   // the body has run
  bool moved = false;  // the value was moved out
};
template <typename T>
co owner(dd::task<T> t, Model<T>& m, int depth, bool may_block) {
  Ctl& c = m.c;
  for (int i = 0; i < depth; i++) {
    if (!m.done) never_ran(c);
    MC_CHECK(!t.empty() && t && t.raw_handle() && t.get_context(), "empty");
    int before = mc_self();
    (void)before;
    int op = mc::choose(7, "op");
    switch (op) {
      case 0:    // await in place
      case 6: {  // await and move the result out
        bool now = !m.done;
        try {
          if constexpr (std::is_void_v<T>) {
            co_await t;
            MC_CHECK(!throws(m.how), "no exception");
          } else if constexpr (std::is_reference_v<T>) {
            T x = co_await t;
            MC_CHECK(!throws(m.how) && V<T>::ok(x), "value");
          } else if (op == 0) {
            T&& x = co_await t;
            MC_CHECK(!throws(m.how) && (m.moved || V<T>::ok(x)), "value");
            T&& y = co_await t;
            MC_CHECK(std::addressof(x) == std::addressof(y), "another object");
          } else {
            T x = co_await std::move(t);
            MC_CHECK(!throws(m.how) && (m.moved || V<T>::ok(x)), "value");
            m.moved = true;
          }
        } catch (Err& e) {
          MC_CHECK(throws(m.how) && e.code == 10 + c.id, "exception %d", e.code);
        }
        m.done = true;
        ended(c);
        if (now) MC_CHECK(mc_self() == c.end_tid, "resumed on another thread than the one that finished the task");
        break;
      }
      case 1: {
        bool now = !m.done;
        co_await t.wait();
        m.done = true;
        ended(c);
        if (now) MC_CHECK(mc_self() == c.end_tid, "resumed on another thread than the one that finished the task");
        break;
      }
      case 2: {
        if (!m.done && !may_block) continue;
        bool now = !m.done;
        int tid = mc_self();
        try {
          if constexpr (std::is_void_v<T>) {
            t.get();
            MC_CHECK(!throws(m.how), "no exception");
          } else if constexpr (std::is_reference_v<T>) {
            T x = t.get();
            MC_CHECK(!throws(m.how) && V<T>::ok(x), "value");
          } else {
            T x = t.get();
            MC_CHECK(!throws(m.how) && (m.moved || V<T>::ok(x)), "value");
            m.moved = true;
          }
        } catch (Err& e) {
          MC_CHECK(throws(m.how) && e.code == 10 + c.id, "exception %d", e.code);
        }
        MC_CHECK(mc_self() == tid, "get returned on another thread");
        m.done = true;
        ended(c);
        if (now) {
          if (t.empty()) goto out;
        }
        break;
      }
      case 3: {
        dd::task<T> u(std::move(t));
        MC_CHECK(t.empty() && !u.empty(), "moved");
        t = std::move(u);
        MC_CHECK(u.empty() && !t.empty(), "moved back");
        break;
      }
      case 4: {
        auto h = t.raw_handle();
        dd::task<T> u(t.release());
        MC_CHECK(t.empty() && u.raw_handle() == h, "released");
        t = std::move(u);
        break;
      }
      case 5: goto out;
    }
  }
out:
  mc_log(OWNER_END, 0, 0);
}
template <typename T>
void run(int hops, int depth) {
  Ctl c{1};
  Model<T> m{c, mc::choose(nhow<T>, "how")};
  {
    auto t = body<T>(c, hops, m.how);
    never_ran(c);
    owner<T>(std::move(t), m, depth, true);
  }
  mc_wait_quiescent();
  MC_CHECK(log_count(OWNER_END) == 1, "the awaiter ended %d times", log_count(OWNER_END));
  if (m.done) ended(c);
  else never_ran(c);
}
}  // namespace

MC_SCENARIO(seq_int, 0, 0, "sequential task<int> x endings x owner scripts") { run<int>(0, mc::depth(5, 6)); }
MC_SCENARIO(seq_probe, 0, 0, "task of an owning value") { run<Probe>(0, mc::depth(5, 6)); }
MC_SCENARIO(seq_moveonly, 0, 0, "task of a move-only value") { run<std::unique_ptr<int>>(0, mc::depth(5, 6)); }
MC_SCENARIO(seq_triple, 0, 0, "task of a trivial struct") { run<Triple>(0, mc::depth(5, 6)); }
MC_SCENARIO(seq_nodefault, 0, 0, "task of a type without default constructor") { run<NoDefault>(0, mc::depth(5, 6)); }
MC_SCENARIO(seq_void, 0, 0, "task<void>") { run<void>(0, mc::depth(5, 6)); }
MC_SCENARIO(seq_ref, 0, 0, "task<int&>") { run<int&>(0, mc::depth(5, 6)); }

MC_SCENARIO(seq_amp, 0, 0, "task of types whose & is overloaded: owning, trivial, reference") {
  switch (mc::choose(3, "type")) {
    case 0: return run<Amp>(0, 4);
    case 1: return run<AmpT>(0, 4);
    default: return run<AmpT&>(0, 4);
  }
}
MC_SCENARIO(hop_int, 20, 20, "body moves to a fresh thread once or twice x owner scripts, int") { run<int>(1 + mc::choose(2), mc::depth(3, 4)); }
MC_SCENARIO(hop_probe, 20, 20, "same, owning value") { run<Probe>(1 + mc::choose(2), mc::depth(3, 4)); }
MC_SCENARIO(hop_moveonly, 20, 20, "same, move-only value") { run<std::unique_ptr<int>>(1 + mc::choose(2), mc::depth(3, 4)); }
MC_SCENARIO(hop_void, 20, 20, "same, void") { run<void>(1 + mc::choose(2), mc::depth(3, 4)); }
MC_SCENARIO(hop_ref, 20, 20, "same, reference") { run<int&>(1 + mc::choose(2), mc::depth(3, 4)); }

// chains ---------------------------------------------------------------------------------------
namespace {
Ctl cs[5];
struct Level {
  int hops_before, hops_after;
  bool throws, catches, waits;
} lv[5];
dd::task<Probe> chain(int i, int n) {
  Local local{cs[i]};
  mc_log(BEGIN, i, 0);
  int sum = 1;
  if (lv[i].hops_before) co_await hop{};
  if (i + 1 < n) {
    auto next = chain(i + 1, n);
    never_ran(cs[i + 1]);
    if (lv[i].waits) {
      co_await next.wait();
      MC_CHECK(cs[i + 1].end_tid == mc_self(), "resumed on another thread");
    }
    try {
      Probe&& r = co_await next;
      sum += r.get();
    } catch (Err& e) {
      ended(cs[i + 1]);
      if (!lv[i].catches) {
        cs[i].written = 5;
        cs[i].end_tid = mc_self();
        mc_log(END, i, 0);
        throw;
      }
      sum += e.code * 100;
    }
    ended(cs[i + 1]);
    if (!lv[i].hops_before || !lv[i].waits) MC_CHECK(cs[i + 1].end_tid == mc_self(), "resumed on another thread");
  }
  if (lv[i].hops_after) co_await hop{};
  cs[i].written = 5;
  cs[i].end_tid = mc_self();
  mc_log(END, i, 0);
  if (lv[i].throws) throw Err{10 + i};
  co_return Probe(sum);
}
// expected outcome of level i: value or -code
int outcome(int i, int n) {
  int sum = 1;
  if (i + 1 < n) {
    int o = outcome(i + 1, n);
    if (o < 0) {
      if (!lv[i].catches) return o;
      sum += -o * 100;
    } else
      sum += o;
  }
  return lv[i].throws ? -(10 + i) : sum;
}
co chain_owner(int n) {
  int got = 0;
  auto t = chain(0, n);
  never_ran(cs[0]);
  try {
    Probe p = co_await t;
    got = p.get();
  } catch (Err& e) { got = -e.code; }
  ended(cs[0]);
  MC_CHECK(got == outcome(0, n), "outcome %d, not %d", got, outcome(0, n));
  mc_log(OWNER_END, 0, 0);
}
dd::async_task<int> chain_async(int n) {
  Probe p = co_await chain(0, n);
  co_return p.get();
}
void run_chain(int n, bool hops) {
  for (int i = 0; i < n; i++) {
    cs[i] = Ctl{i};
    lv[i] = {hops && mc::flip("hop"), hops && mc::flip("hop later"), mc::flip("throws"), i + 1 < n && mc::flip("catches"), i + 1 < n && mc::flip("waits first")};
  }
  switch (mc::choose(3, "awaited by")) {
    case 0:
      chain_owner(n);
      break;
    case 1:
      try {
        Probe p = chain(0, n).get();
        MC_CHECK(p.get() == outcome(0, n), "outcome");
      } catch (Err& e) { MC_CHECK(-e.code == outcome(0, n), "outcome"); }
      mc_log(OWNER_END, 0, 0);
      break;
    case 2: {
      auto a = chain_async(n);
      try {
        MC_CHECK(a.get() == outcome(0, n), "outcome");
      } catch (Err& e) { MC_CHECK(-e.code == outcome(0, n), "outcome"); }
      mc_log(OWNER_END, 0, 0);
    }
  }
  mc_wait_quiescent();
  MC_CHECK(log_count(OWNER_END) == 1, "the awaiter ended %d times", log_count(OWNER_END));
  for (int i = 0; i < n; i++) ended(cs[i]);
}
}  // namespace
MC_SCENARIO(chain_seq, 0, 0, "3-4 tasks awaiting each other; every level may throw, catch, wait first") { run_chain(mc::depth(4, 5), false); }
MC_SCENARIO(chain_hops, 20, 20, "2-3 levels, each may move to a fresh thread before and after") { run_chain(mc::depth(2, 3), true); }

// a task finished on a pool's worker; the awaiter goes on there
namespace {
dd::task<int> on_worker(dd::worker& w, Ctl& c) {
  Local local{c};
  mc_log(BEGIN, c.id, 0);
  bool ok = (bool)co_await dd::jump_on(w);
  MC_CHECK(ok, "jump refused");
  c.written = 5;
  c.end_tid = mc_self();
  mc_log(END, c.id, 0);
  co_return 7;
}
co awaits(dd::task<int> t, Ctl& c) {
  MC_CHECK(co_await t == 7, "value");
  ended(c);
  MC_CHECK(mc_self() == c.end_tid, "resumed elsewhere");
  mc_log(OWNER_END, 0, 0);
}
}  // namespace
MC_SCENARIO(worker, 12, 20, "task finishing on a worker: awaited, got or waited for") {
  Ctl c{1};
  {
    dd::worker w;
    if (mc::flip("get")) {
      auto t = on_worker(w, c);
      MC_CHECK(t.get() == 7, "value");
      ended(c);
      mc_log(OWNER_END, 0, 0);
    } else {
      awaits(on_worker(w, c), c);
      mc_wait_quiescent();
    }
  }
  ended(c);
  MC_CHECK(log_count(OWNER_END) == 1, "the awaiter ended %d times", log_count(OWNER_END));
}
// started before anybody waits: stopped at its end, then awaited through a new owner
namespace {
co late(dd::task<Probe> t, Ctl& c, int how, bool wait) {
  if (wait) co_await t.wait();
  try {
    Probe p = co_await t;
    MC_CHECK(!throws(how) && p.get() == 8, "value");
  } catch (Err& e) { MC_CHECK(throws(how) && e.code == 10 + c.id, "exception"); }
  ended(c);
  mc_log(OWNER_END, 0, 0);
}
}  // namespace
MC_SCENARIO(started_before, 20, 20, "started, stopping at its end, and awaited or got once it is done") {
  Ctl c{1};
  int how = mc::choose(NHOW, "how");
  auto t = body<Probe>(c, mc::choose(2, "hops"), how);
  auto h = t.start_and_detach(true);
  MC_CHECK(t.empty() && h, "started");
  mc_wait_quiescent();
  MC_CHECK(h.done(), "not done");
  ended(c);
  dd::task<Probe> u(h);
  if (mc::flip("get")) {
    try {
      Probe p = u.get();
      MC_CHECK(!throws(how) && p.get() == 8, "value");
    } catch (Err& e) { MC_CHECK(throws(how) && e.code == 10 + c.id, "exception"); }
  } else {
    late(std::move(u), c, how, mc::flip("wait"));
    MC_CHECK(log_count(OWNER_END) == 1, "the awaiter ended %d times", log_count(OWNER_END));
  }
  ended(c);
}
// the result cannot be made from what is returned: that is how the task ends
struct Picky {
  Probe p;
  Picky() = default;
  Picky(int code) : p(1) { throw Err{code}; }
};
struct PickyT {
  int v;
  PickyT() = default;
  PickyT(int code) { throw Err{code}; }
};
template <typename T>
static dd::task<T> unreturnable(Ctl& c) {
  Local local{c};
  mc_log(BEGIN, c.id, 0);
  c.written = 5;
  mc_log(END, c.id, 0);
  co_return 33;
}
template <typename T>
static void result_throws() {
  Ctl c{1};
  auto own = [](dd::task<T> t, Ctl& c) -> co {
    for (int i = 0; i < 2; i++) {
      switch (mc::choose(3, "op")) {
        case 0: co_await t.wait(); ended(c); break;
        case 1:
          try {
            (void)co_await t;
            mc_fail("no exception");
          } catch (Err& e) { MC_CHECK(e.code == 33, "exception %d", e.code); }
          break;
        case 2:
          try {
            (void)t.get();
            mc_fail("no exception");
          } catch (Err& e) { MC_CHECK(e.code == 33, "exception %d", e.code); }
          if (t.empty()) {
            mc_log(OWNER_END, 0, 0);
            co_return;
          }
          break;
      }
      ended(c);
    }
    mc_log(OWNER_END, 0, 0);
  };
  own(unreturnable<T>(c), c);
  MC_CHECK(log_count(OWNER_END) == 1, "");
  ended(c);
}
MC_SCENARIO(result_throws_made, 0, 0, "the constructor of the result throws while it is returned, owning and trivial") {
  if (mc::flip("trivial")) result_throws<PickyT>();
  else result_throws<Picky>();
}
// neither long loops nor long chains need stack or lose an outcome
static dd::task<int> leaf(int i) {
  if (i % 7 == 3) throw Err{i};
  co_return i;
}
static dd::task<int> deep(int n) {
  if (n == 0) co_return co_await leaf(2);
  int x = co_await deep(n - 1);
  co_return x + 1;
}
static dd::task<long> looping(int n) {
  long sum = 0;
  for (int i = 0; i < n; i++) {
    try {
      sum += co_await leaf(i);
    } catch (Err& e) {
      MC_CHECK(e.code == i, "");
      sum += e.code;
    }
  }
  co_return sum;
}
MC_SCENARIO(long_loop_and_chain, 0, 0, "a loop of 40000 awaits, a chain of 1500 tasks: every outcome, bounded stack") {
  if (mc::flip("chain")) {
    int v = deep(1500).get();
    MC_CHECK(v == 1502, "%d", v);
  } else {
    long v = looping(40000).get();
    MC_CHECK(v == 40000L * 39999 / 2, "%ld", v);
  }
}

template <typename T>
using Returning = dd::task<T>;
MC_SCENARIO(returned, 0, 0, "what is returned (lvalues, rvalues, what it converts from, the return place) is copied or moved as written; four kinds of types") { ret::all<Returning>(true); }
int main(int c, char** v) { return mc_main(c, v); }
