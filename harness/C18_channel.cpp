// C18: a channel yields the flattened sequence across suspensions and threads
// C19's exceptions use the same bodies (C19_channel_life.cpp includes this file)
#include <array>
#include <list>
#include <span>
#include "seqs.h"
#include "tk.h"
#ifndef THROWS
#define THROWS false
#endif

namespace {
template <typename Y>
using C = dd::channel<Y>;
enum Act { C_RETURN, YIELD, FRESH, PARTLY, HOP, PARK, TASK, OF_OTHER, OF_GENERATOR, RANGE_RVALUE, RANGE_LAZY, YIELD_COPY, FRESH_LVALUE, FRESH_ARG, FRESH_TYPE, EMPTY, FINISHED, RANGE_LVALUE, C_THROW, RANGE_THROWS, NACTS };
struct CTree : Tree {
  int hops = 0;   // thread changes that may still happen
  int parks = 0;  // plain suspensions that may still happen
  int tid = 0;    // thread the body or the consumer is on
  Ctl ctl;
  bool consumer_hops = false;
  std::vector<Act> leaf, inner;
  void here() { tid = mc_self(); }
  void ask() {
    MC_CHECK(!asked, "asked twice");
    here();
    asked = true;
  }
  void answered() {
    MC_CHECK(asked, "the consumer was resumed although it waits for nothing");
    asked = false;
    MC_CHECK(tid == mc_self(), "resumed on thread %d, produced on thread %d", mc_self(), tid);
  }
};
template <typename Y>
C<Y> body(CTree& t, int depth, bool* fin);
template <typename Y>
C<Y> body_r(CTree& t, int depth, bool* fin, dd::with_pmr_resource);
template <typename Y>
dd::channel_r<Y, dd::pmr::polymorphic_resource> body_t(CTree& t, int depth, bool* fin);
Act choose_act(CTree& t, int depth) {
  auto& a = depth + 1 < t.max_depth ? t.inner : t.leaf;
  size_t half = a.size() / 2;
  if (a.size() <= 12) return a[mc::choose(a.size(), "body")];
  return mc::flip("which half") ? a[half + mc::choose(a.size() - half, "body")] : a[mc::choose(half, "body")];
}
void do_throw(CTree& t, int depth) {
  MC_CHECK(!t.thrown, "two exceptions at once");
  t.thrown = 100 + t.next_id++;
  t.thrown_depth = depth;
  throw Err{t.thrown};
}
dd::task<int> hopping_task() {
  co_await hop{};
  co_return 3;
}
template <typename Y>
dd::channel<short> of_other(CTree& t, int n, bool* fin) {
  BodyLife life(t, 9, *fin);
  for (int i = 0; i < n; i++) {
    if (t.hops > 0 && mc::flip("the other kind hops")) {
      t.hops--;
      co_await hop{};
      t.here();
    }
    co_yield (short)t.emit();
  }
  if (THROWS && mc::flip("the other kind throws")) do_throw(t, 9);
}
template <typename Y>
dd::generator<Y> generator_inside(CTree& t, int n, bool* fin) {
  BodyLife life(t, 9, *fin);
  for (int i = 0; i < n; i++) co_yield Y(t.emit());
}
#define NESTED_OVER(f) MC_CHECK(f, "the owner goes on before the nested channel ended")
#define CHAN_BODY                                                                                  \
  bool own_fin = false;                                                                            \
  BodyLife life(t, depth, fin ? *fin : own_fin);                                                   \
  for (;;) {                                                                                       \
    t.running();                                                                                   \
    MC_CHECK(mc_self() == t.tid, "the body goes on on thread %d instead of %d", mc_self(), t.tid); \
    if (t.budget-- <= 0) co_return;                                                                \
    bool f = false;                                                                                \
    switch (choose_act(t, depth)) {                                                                \
      case C_RETURN: co_return;                                                                    \
      case YIELD: co_yield Y(t.emit()); break;                                                     \
      case YIELD_COPY: {                                                                           \
        const Y v(t.emit());                                                                       \
        co_yield v;                                                                                \
        break;                                                                                     \
      }                                                                                            \
      case HOP:                                                                                    \
        if (t.hops-- <= 0) co_return;                                                              \
        co_await hop{};                                                                            \
        t.here();                                                                                  \
        break;                                                                                     \
      case TASK:                                                                                   \
        if (t.hops-- <= 0) co_return;                                                              \
        MC_CHECK(co_await hopping_task() == 3, "task");                                            \
        t.here();                                                                                  \
        break;                                                                                     \
      case PARK:                                                                                   \
        if (t.parks-- <= 0) co_return;                                                             \
        co_await park{t.ctl};                                                                      \
        t.here();                                                                                  \
        break;                                                                                     \
      case FRESH: co_yield dd::elements_of(body<Y>(t, depth + 1, &f)); NESTED_OVER(f); break;      \
      case FRESH_LVALUE: {                                                                         \
        auto g = body<Y>(t, depth + 1, &f);                                                        \
        co_yield dd::elements_of(g);                                                               \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      }                                                                                            \
      case FRESH_ARG: co_yield dd::elements_of(body_r<Y>(t, depth + 1, &f, *t.res)); NESTED_OVER(f); break; \
      case FRESH_TYPE:                                                                             \
        dd::pmr::pass_resource(*t.res);                                                            \
        co_yield dd::elements_of(body_t<Y>(t, depth + 1, &f));                                     \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      case PARTLY: {                                                                               \
        auto g = body<Y>(t, depth + 1, &f);                                                        \
        int n = 1 + mc::choose(2, "consumed before");                                              \
        for (int i = 0; i < n; i++) {                                                              \
          if (mc::flip("by next")) {                                                               \
            Y* p = co_await g.next();                                                              \
            MC_CHECK(mc_self() == t.tid, "the consuming body goes on on thread %d instead of %d", mc_self(), t.tid); \
            if (auto e = g.take_exception()) {                                                     \
              try {                                                                                \
                std::rethrow_exception(e);                                                         \
              } catch (Err & e) { t.got_exception(e.code); }                                       \
            } else if (p) t.got(id_of<Y>(*p));                                                     \
            else { MC_CHECK(g.empty(), "at its end, but not empty"); break; }                      \
          } else {                                                                                 \
            try {                                                                                  \
              auto it = co_await g.begin();                                                        \
              MC_CHECK(mc_self() == t.tid, "the consuming body goes on on thread %d instead of %d", mc_self(), t.tid); \
              if (it != g.end()) t.got(id_of<Y>(*it));                                             \
            } catch (Err & e) { t.got_exception(e.code); }                                         \
          }                                                                                        \
        }                                                                                          \
        co_yield dd::elements_of(std::move(g));                                                    \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      }                                                                                            \
      case EMPTY: co_yield dd::elements_of(C<Y>{}); break;                                         \
      case FINISHED: {                                                                             \
        auto g = [](bool& x) -> C<Y> { x = true; co_return; }(f);                                  \
        MC_CHECK(co_await g.begin() == g.end(), "not at its end");                                 \
        co_yield dd::elements_of(std::move(g));                                                    \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      }                                                                                            \
      case OF_OTHER: {                                                                             \
        int n = mc::choose(3, "length");                                                           \
        co_yield dd::elements_of(of_other<Y>(t, n, &f));                                           \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      }                                                                                            \
      case OF_GENERATOR: {                                                                         \
        int n = mc::choose(3, "length");                                                           \
        co_yield dd::elements_of(generator_inside<Y>(t, n, &f));                                   \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_RVALUE: {                                                                         \
        int n = mc::choose(3, "length");                                                           \
        std::vector<Y> v;                                                                          \
        for (int i = 0; i < n; i++) v.push_back(Y(t.give()));                                      \
        co_yield dd::elements_of(std::move(v));                                                    \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_LVALUE: {                                                                         \
        std::array<Y, 2> v{Y(t.give()), Y(t.give())};                                              \
        co_yield dd::elements_of(v);                                                               \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_LAZY: {                                                                           \
        int n = mc::choose(3, "length");                                                           \
        co_yield dd::elements_of(std::views::iota(0, n) | std::views::transform([&](int) { return Y(t.emit()); })); \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_THROWS:                                                                           \
        co_yield dd::elements_of(std::views::iota(0, 3) | std::views::transform([&](int i) {       \
          if (i == 1) do_throw(t, depth + 1);                                                      \
          MC_CHECK(i < 2, "a range that has failed is iterated further");                          \
          return Y(t.emit());                                                                      \
        }));                                                                                       \
        break;                                                                                     \
      case C_THROW: do_throw(t, depth); break;                                                     \
      case NACTS: break;                                                                           \
    }                                                                                              \
    MC_CHECK(t.npending == t.pending.size(), "the owner goes on before the nested range is over"); \
  }
template <typename Y>
C<Y> body(CTree& t, int depth, bool* fin) { CHAN_BODY }
template <typename Y>
C<Y> body_r(CTree& t, int depth, bool* fin, dd::with_pmr_resource) { CHAN_BODY }
template <typename Y>
dd::channel_r<Y, dd::pmr::polymorphic_resource> body_t(CTree& t, int depth, bool* fin) { CHAN_BODY }

enum Style { LOOP, BEGIN_EVERY_TIME, NEXT_EVERY_TIME, MIXED, BREAKING_LOOP, FOREACH, NSTYLES };
// an exception arrived: what has to be true now
template <typename Y>
void failed(CTree& t, C<Y>& c, int code) {
  MC_CHECK(THROWS, "an exception from nowhere");
  int d = t.thrown_depth;
  t.got_exception(code);
  MC_CHECK(c.empty() == (d == 0) && t.root_done == (d == 0), "exception of depth %d: empty %d", d, c.empty());
  MC_CHECK(!c.take_exception(), "the exception is there twice");
}
int code_of(std::exception_ptr e) {
  try {
    std::rethrow_exception(e);
  } catch (Err& e) { return e.code; }
}
// takes everything out of the channel; breaking off may hand over to another consumer coroutine
template <typename Y>
co consume(CTree& t, C<Y>& c, int style, bool& done, int limit = -1) {
  for (int guard = 0;; guard++) {
    MC_CHECK(guard < 40, "no end");
    MC_CHECK(c.empty() == t.root_done, "empty %d, body ended %d", c.empty(), t.root_done);
    if (t.consumer_hops && t.hops > 0 && mc::flip("consumer hops")) {
      t.hops--;
      co_await hop{};
    }
    int caught = 0;
    bool broke = false;
    t.ask();
    try {
      if (style == FOREACH || style == BREAKING_LOOP) {
        co_foreach(auto&& v, c) {
          t.answered();
          t.got(id_of<Y>(v));
          MC_CHECK(!c.empty(), "empty while a value is there");
          if (style == BREAKING_LOOP && mc::flip("break")) {
            broke = true;
            break;
          }
          t.ask();
        }
        if (!broke) t.answered();
      } else if (style == LOOP) {
        for (auto it = co_await c.begin(); it != c.end(); co_await ++it) {
          t.answered();
          t.got(id_of<Y>(*it));
          t.ask();
        }
        t.answered();
      } else if (style == BEGIN_EVERY_TIME) {
        auto it = co_await c.begin();
        t.answered();
        if (it != c.end()) {
          t.got(id_of<Y>(*it));
          broke = true;
        } else if (mc::flip("take exception")) {
          if (auto e = c.take_exception()) caught = code_of(e);
        }
      } else if (style == NEXT_EVERY_TIME) {
        Y* v = co_await c.next();
        t.answered();
        if (v) {
          t.got(id_of<Y>(*v));
          broke = true;
        } else if (auto e = c.take_exception())
          caught = code_of(e);
      } else {  // MIXED
        auto it = co_await c.begin();
        t.answered();
        MC_CHECK(std::addressof(it.owner()) == std::addressof(c), "owner");
        while (it != c.end()) {
          t.got(id_of<Y>(*it));
          t.ask();
          switch (mc::choose(3, "go on")) {
            case 0: it = co_await c.begin(); t.answered(); break;
            case 1: co_await ++it; t.answered(); break;
            case 2: {
              Y* v = co_await c.next();
              t.answered();
              MC_CHECK((v != nullptr) == (it != c.end()), "next and the iterator disagree");
              MC_CHECK(!v || v == it.operator->(), "next and the iterator disagree");
              break;
            }
          }
        }
      }
    } catch (Err& e) {
      if (t.asked) t.answered();
      caught = e.code;
    }
    if (caught) {
      failed(t, c, caught);
      continue;
    }
    if (broke) {
      if (limit > 0 && --limit == 0) {
        done = true;
        co_return;
      }
      if (mc_choose_dev(2, "another consumer")) {
        consume(t, c, style, done, limit);
        co_return;
      }
      continue;
    }
    t.got_end();
    MC_CHECK(c.empty(), "not empty at its end");
    auto it = co_await c.begin();
    MC_CHECK(it == c.end(), "not at its end");
    MC_CHECK(co_await c.next() == nullptr, "not at its end");
    MC_CHECK(!c.take_exception(), "exception left");
    break;
  }
  MC_CHECK(t.live == 0, "%d bodies alive after the end", t.live);
  done = true;
}
// resumes parked bodies until nothing moves any more
void drive(CTree& t, bool& done) {
  for (;;) {
    mc_wait_quiescent();
    if (done) break;
    MC_CHECK(t.ctl.parked, "the consumer was never resumed");
    auto h = std::exchange(t.ctl.parked, nullptr);
    if (t.hops > 0 && mc::flip("resumed elsewhere")) {
      t.hops--;
      std::thread([h] { h.resume(); }).join();
    } else
      h.resume();
  }
}
template <typename Y>
void run(CTree& t, int style) {
  Res r;
  t.res = &r;
  bool done = false;
  {
    C<Y> c = mc::flip("resource") ? body_r<Y>(t, 0, nullptr, r) : body<Y>(t, 0, nullptr);
    MC_CHECK(t.live == 0, "started by its creation");
    if (style < 0) {  // a prefix only, then it dies
      int limit = 1 + mc::choose(t.budget, "prefix");
      consume<Y>(t, c, mc::flip("next") ? NEXT_EVERY_TIME : BEGIN_EVERY_TIME, done, limit);
    } else
      consume<Y>(t, c, style, done);
    drive(t, done);
  }
  MC_CHECK(t.live == 0, "%d bodies left", t.live);
  MC_CHECK(r.live.empty(), "memory left in the resource");
}
CTree tree(int budget, int depth, int hops, int parks, std::vector<Act> leaf, std::vector<Act> inner) {
  CTree t;
  t.budget = budget;
  t.max_depth = depth;
  t.hops = hops;
  t.parks = parks;
  t.leaf = leaf;
  t.inner = inner;
  t.inner.insert(t.inner.begin(), leaf.begin(), leaf.end());
  if (THROWS) {
    t.leaf.push_back(C_THROW);
    t.inner.push_back(C_THROW);
  }
  return t;
}
}  // namespace
MC_SCENARIO(all_kinds, 0, 0, "bodies of up to 3-4 steps over every kind of yield, nesting and suspension, depth 3") {
  std::vector<Act> leaf = {C_RETURN, YIELD, YIELD_COPY, HOP, PARK, RANGE_RVALUE, RANGE_LAZY, RANGE_LVALUE, OF_OTHER, OF_GENERATOR, EMPTY};
  if (THROWS) leaf.push_back(RANGE_THROWS);
  auto t = tree(mc::depth(3, 4), 3, 1, 1, leaf, {TASK, FRESH, PARTLY, FRESH_LVALUE, FRESH_ARG, FRESH_TYPE, FINISHED});
  run<Probe>(t, FOREACH);
}
MC_SCENARIO(core_loop, 0, 0, "bodies of up to 5-6 steps of yields, hops, suspensions and nested channels, depth 4, iterators") {
  auto t = tree(mc::depth(5, 6), 4, 2, 1, {C_RETURN, YIELD, HOP, PARK}, {FRESH, PARTLY});
  run<int>(t, LOOP);
}
MC_SCENARIO(core_begin, 0, 0, "same, begin for every value") {
  auto t = tree(mc::depth(4, 6), 4, 1, 1, {C_RETURN, YIELD, HOP, PARK}, {FRESH, PARTLY});
  run<Probe>(t, BEGIN_EVERY_TIME);
}
MC_SCENARIO(core_next, 0, 0, "same, next for every value") {
  auto t = tree(mc::depth(4, 6), 4, 1, 1, {C_RETURN, YIELD, HOP, PARK}, {FRESH, PARTLY});
  run<Probe>(t, NEXT_EVERY_TIME);
}
MC_SCENARIO(core_mixed, 0, 0, "same, begin, increment and next mixed") {
  auto t = tree(mc::depth(4, 5), 4, 1, 1, {C_RETURN, YIELD, HOP}, {FRESH, PARTLY});
  run<int>(t, MIXED);
}
MC_SCENARIO(consumers, 20, 20, "loops left at any value and begun again, by the same or by other consumer coroutines, which hop too") {
  auto t = tree(mc::depth(4, 5), 3, 2, 0, {C_RETURN, YIELD, HOP}, {FRESH, PARTLY});
  t.consumer_hops = true;
  run<Probe>(t, mc::flip("loop") ? BREAKING_LOOP : mc::flip("begin") ? BEGIN_EVERY_TIME : NEXT_EVERY_TIME);
}
MC_SCENARIO(hops, 20, 20, "bodies that change threads in nested positions, all interleavings of the threads left and entered") {
  auto t = tree(mc::depth(4, 5), 3, mc::depth(2, 3), 0, {YIELD, HOP}, {FRESH, TASK});
  run<int>(t, FOREACH);
}
MC_SCENARIO(prefix, 0, 0, "destroyed after every prefix") {
  auto t = tree(mc::depth(3, 4), 3, 1, 1, {C_RETURN, YIELD, HOP, PARK, RANGE_LAZY, OF_OTHER}, {FRESH, PARTLY});
  run<Probe>(t, -1);
}
MC_SCENARIO(deep, 0, 0, "nesting up to 6-7 levels, leaf first, partly consumed at every level") {
  auto t = tree(mc::depth(6, 7), 7, 0, 0, {YIELD}, {});
  t.inner = {FRESH, PARTLY};
  t.leaf = {YIELD};
  run<Probe>(t, FOREACH);
}
#if !THROWS
MC_SCENARIO(iterator_identity, 0, 0, "iterators know their channel") {
  CTree t;
  t.max_depth = 1;
  t.budget = 3;
  t.leaf = t.inner = {YIELD};
  C<int> a = body<int>(t, 0, nullptr), b;
  bool done = false;
  [&]() -> co {
    t.ask();
    auto i = co_await a.begin();
    auto j = i;
    dd::channel_iterator<int> k(a);
    auto e = co_await b.begin();
    MC_CHECK(i.equivalent(j) && i.equivalent(k) && k.equivalent(i), "same channel");
    MC_CHECK(!i.equivalent(e), "different channels");
    MC_CHECK(&i.owner() == &a && &e.owner() == &b, "owner");
    MC_CHECK(i.operator->() == k.operator->(), "the same value");
    MC_CHECK(e == b.end() && b.end() == e && i != a.end(), "end");
    done = true;
  }();
  MC_CHECK(done, "not finished");
}
template <typename Y>
static co count_up(C<Y>& c, int style, int& n, bool& done) {
  if (style == 0) {
    co_foreach(auto&& v, c) { MC_CHECK(id_of<Y>(v) == n, "%d instead of %d", id_of<Y>(v), n); n++; }
  } else if (style == 1)
    while (auto* v = co_await c.next()) { MC_CHECK(id_of<Y>(*v) == n, "%d instead of %d", id_of<Y>(*v), n); n++; }
  else
    for (auto it = co_await c.begin(); it != c.end(); it = co_await c.begin()) { MC_CHECK(id_of<Y>(*it) == n, "%d instead of %d", id_of<Y>(*it), n); n++; }
  MC_CHECK(c.empty(), "no end");
  done = true;
}
template <typename Y>
static void odd_one() {
  int kind = mc::choose(ODD_RANGES, "range"), n = mc::choose(4, "length"), got = 0;
  bool done = false;
  auto c = odd_range<dd::channel, Y>(kind, n);
  count_up<Y>(c, mc::choose(3, "style"), got, done);
  MC_CHECK(done && got == n, "%d values instead of %d", got, n);
}
MC_SCENARIO(odd_ranges, 0, 0, "elements_of 14 unusual kinds of ranges: one pass, sentinels, views, joined, endless, overloaded &") { odd_one<Probe>(); }
MC_SCENARIO(odd_ranges_int, 0, 0, "same, numbers") { odd_one<int>(); }
MC_SCENARIO(odd_ranges_amp, 0, 0, "same, values whose & is overloaded; bits") {
  odd_one<Amp>();
  int n = 0;
  bool done = false;
  auto c = bits<dd::channel>(70);
  [](auto& c, int& n, bool& done) -> co {
    co_foreach(bool b, c) { MC_CHECK(b == (n % 3 == 1), "bit %d", n); n++; }
    done = true;
  }(c, n, done);
  MC_CHECK(done && n == 70, "%d bits", n);
}
MC_SCENARIO(long_and_deep, 0, 0, "400 levels, 1000 nested channels in a row, 20000 values, all without a suspension; destroyed on the way or not") {
  int next = 0;
  int what = mc::choose(3, "shape"), style = mc::choose(3, "style");
  int expect = what == 0 ? 800 : what == 1 ? 1700 : 20000;
  auto c = what == 0 ? tower<dd::channel, Probe>(0, 400, next) : what == 1 ? row<dd::channel, Probe>(1000, next) : up_to<dd::channel, Probe>(next, 20000);
  int n = 0;
  bool done = false;
  if (mc::flip("destroyed")) {
    [](auto& c, int& n, int upto) -> co {
      for (; n < upto; n++) {
        auto* v = co_await c.next();
        MC_CHECK(v && id_of<Probe>(*v) == n, "value %d", n);
      }
    }(c, n, expect / 2 + 3);
    MC_CHECK(n == expect / 2 + 3 && next == n, "ran ahead");
    return;
  }
  count_up<Probe>(c, style, n, done);
  MC_CHECK(done && n == expect && next == expect, "%d values instead of %d", n, expect);
}
int main(int c, char** v) { return mc_main(c, v); }
#endif
