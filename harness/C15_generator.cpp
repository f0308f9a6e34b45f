// C15: a generator yields exactly the flattened sequence, lazily
// C16 is decided by the same bodies, with exceptions (C16_generator_throws.cpp includes this file)
#include "fragile.h"
#include "seqs.h"
#include <array>
#include <list>
#include <span>
#ifndef THROWS
#define THROWS false
#endif

namespace {
template <typename Y>
using G = dd::generator<Y>;
template <typename Y>
G<Y> body(Tree& t, int depth, bool* fin = nullptr);
template <typename Y>
G<Y> body_r(Tree& t, int depth, bool* fin, dd::with_pmr_resource);
template <typename Y>
dd::generator_r<Y, dd::pmr::polymorphic_resource> body_t(Tree& t, int depth, bool* fin);
enum Act { RETURN, YIELD, FRESH, PARTLY, OF_OTHER, RANGE_RVALUE, RANGE_LAZY, YIELD_COPY, FRESH_LVALUE, FRESH_ARG, FRESH_TYPE, EMPTY, FINISHED, RANGE_LVALUE, RANGE_BORROWED, RANGE_LIST, NORMAL_ACTS, THROW = NORMAL_ACTS, RANGE_THROWS, NACTS };
// which acts a scenario explores
std::vector<Act> acts_leaf, acts_inner;
Act choose_act(Tree& t, int depth) {
  auto& a = depth + 1 < t.max_depth ? acts_inner : acts_leaf;
  size_t half = a.size() / 2;
  if (a.size() <= 12) return a[mc::choose(a.size(), "body")];
  return mc::flip("which half") ? a[half + mc::choose(a.size() - half, "body")] : a[mc::choose(half, "body")];
}
struct Life : BodyLife {
  using BodyLife::BodyLife;
};
void do_throw(Tree& t, int depth) {
  MC_CHECK(!t.thrown, "two exceptions at once");
  t.thrown = 100 + t.next_id++;
  t.thrown_depth = depth;
  throw Err{t.thrown};
}
// consumes up to n values of a generator inside of a body; true if it is over
template <typename Y>
void consume_some(Tree& t, G<Y>& g, int n) {
  for (int i = 0; i < n; i++) {
    try {
      auto it = g.begin();
      if (it == g.end()) {
        MC_CHECK(g.empty(), "at its end, but not empty");
        return;
      }
      t.got(id_of<Y>(*it));
    } catch (Err& e) { t.got_exception(e.code); }
  }
}
template <typename Y>
dd::generator<short> of_other(Tree& t, int n, bool* fin) {
  bool own;
  Life life(t, 9, fin ? *fin : own);
  for (int i = 0; i < n; i++) co_yield (short)t.emit();
}
#define NESTED_OVER(f) MC_CHECK(f, "the owner goes on before the nested generator ended")
#define GEN_BODY                                                                                   \
  bool own_fin = false;                                                                            \
  Life life(t, depth, fin ? *fin : own_fin);                                                       \
  for (;;) {                                                                                       \
    t.running();                                                                                   \
    if (t.budget-- <= 0) co_return;                                                                \
    bool f = false;                                                                                \
    switch (choose_act(t, depth)) {                                                                \
      case RETURN: co_return;                                                                      \
      case YIELD: co_yield Y(t.emit()); break;                                                     \
      case YIELD_COPY: {                                                                           \
        const Y v(t.emit());                                                                       \
        co_yield v;                                                                                \
        break;                                                                                     \
      }                                                                                            \
      case FRESH: co_yield dd::elements_of(body<Y>(t, depth + 1, &f)); NESTED_OVER(f); break;      \
      case FRESH_LVALUE: {                                                                         \
        auto g = body<Y>(t, depth + 1, &f);                                                        \
        co_yield dd::elements_of(g);                                                               \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      }                                                                                            \
      case FRESH_ARG: co_yield dd::elements_of(body_r<Y>(t, depth + 1, &f, *t.res)); NESTED_OVER(f); break; \
      case FRESH_TYPE:                                                                             \
        dd::pmr::pass_resource(*t.res);                                                            \
        co_yield dd::elements_of(body_t<Y>(t, depth + 1, &f));                                     \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      case PARTLY: {                                                                               \
        auto g = body<Y>(t, depth + 1, &f);                                                        \
        consume_some<Y>(t, g, 1 + mc::choose(2, "consumed before"));                               \
        co_yield dd::elements_of(std::move(g));                                                    \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      }                                                                                            \
      case EMPTY: co_yield dd::elements_of(G<Y>{}); break;                                         \
      case FINISHED: {                                                                             \
        auto g = [](bool& x) -> G<Y> { x = true; co_return; }(f);                                  \
        consume_some<Y>(t, g, 1);                                                                  \
        co_yield dd::elements_of(std::move(g));                                                    \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      }                                                                                            \
      case OF_OTHER: {                                                                             \
        int n = mc::choose(3, "length");                                                           \
        co_yield dd::elements_of(of_other<Y>(t, n, &f));                                           \
        NESTED_OVER(f);                                                                            \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_RVALUE: {                                                                         \
        int n = mc::choose(3, "length");                                                           \
        std::vector<Y> v;                                                                          \
        for (int i = 0; i < n; i++) v.push_back(Y(t.give()));                                      \
        co_yield dd::elements_of(std::move(v));                                                    \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_LVALUE: {                                                                         \
        std::array<Y, 2> v{Y(t.give()), Y(t.give())};                                              \
        co_yield dd::elements_of(v);                                                               \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_LIST: {                                                                           \
        std::list<Y> v;                                                                            \
        v.push_back(Y(t.give()));                                                                  \
        v.push_back(Y(t.give()));                                                                  \
        co_yield dd::elements_of(v);                                                               \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_BORROWED: {                                                                       \
        Y v[2] = {Y(t.give()), Y(t.give())};                                                       \
        co_yield dd::elements_of(std::span(v, mc::flip("both") ? 2 : (t.pending.pop_back(), 1)));  \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_LAZY: {                                                                           \
        int n = mc::choose(3, "length");                                                           \
        co_yield dd::elements_of(std::views::iota(0, n) | std::views::transform([&](int) { return Y(t.emit()); })); \
        break;                                                                                     \
      }                                                                                            \
      case RANGE_THROWS:                                                                           \
        co_yield dd::elements_of(std::views::iota(0, 3) | std::views::transform([&](int i) {       \
          if (i == 1) do_throw(t, depth + 1);                                                      \
          MC_CHECK(i < 2, "a range that has failed is iterated further");                          \
          return Y(t.emit());                                                                      \
        }));                                                                                       \
        break;                                                                                     \
      case THROW: do_throw(t, depth); break;                                                       \
      case NACTS: break;                                                                           \
    }                                                                                              \
    MC_CHECK(t.npending == t.pending.size(), "the owner goes on before the nested range is over"); \
  }
template <typename Y>
G<Y> body(Tree& t, int depth, bool* fin) { GEN_BODY }
template <typename Y>
G<Y> body_r(Tree& t, int depth, bool* fin, dd::with_pmr_resource) { GEN_BODY }
template <typename Y>
dd::generator_r<Y, dd::pmr::polymorphic_resource> body_t(Tree& t, int depth, bool* fin) { GEN_BODY }

enum Style { LOOP, BEGIN_EVERY_TIME, MIXED, BREAKING_LOOP, NSTYLES };
// runs the generator to its end
template <typename Y>
void consume(Tree& t, G<Y>& g, int style) {
  int exceptions = 0;
  for (int guard = 0;; guard++) {
    MC_CHECK(guard < 40, "no end");
    MC_CHECK(g.empty() == t.root_done, "empty %d, body ended %d", g.empty(), t.root_done);
    t.asked = true;
    try {
      bool broke = false;
      if (style == LOOP || style == BREAKING_LOOP) {
        for (auto&& v : g) {
          t.asked = false;
          t.got(id_of<Y>(v));
          MC_CHECK(!g.empty(), "empty while a value is there");
          t.asked = true;
          if (style == BREAKING_LOOP && mc::flip("break")) {
            broke = true;
            break;
          }
        }
      } else {
        auto it = g.begin();
        for (;;) {
          t.asked = false;
          if (it == g.end()) break;
          MC_CHECK(std::default_sentinel != it, "end");
          t.got(id_of<Y>(*it));
          int how = style == MIXED ? mc::choose(3, "go on") : 0;
          t.asked = true;
          if (how == 0) it = g.begin();
          else if (how == 1) ++it;
          else it++;
        }
      }
      t.asked = false;
      if (broke) continue;
      t.got_end();
      MC_CHECK(g.empty() && g.begin() == g.end(), "not empty at its end");
      break;
    } catch (Err& e) {
      t.asked = false;
      exceptions++;
      MC_CHECK(THROWS, "an exception from nowhere");
      int d = t.thrown_depth;
      t.got_exception(e.code);
      MC_CHECK(g.empty() == (d == 0) && t.root_done == (d == 0), "exception of depth %d: empty %d", d, g.empty());
      auto it = g.raw_handle() ? g.cur_iterator() == g.end() : true;
      MC_CHECK(it, "a value is there after an exception");
    }
  }
  MC_CHECK(t.live == 0, "%d bodies alive after the end", t.live);
}
template <typename Y>
void run(int budget, int max_depth, int style) {
  Res r;
  Tree t;
  {
    t.budget = budget;
    t.max_depth = max_depth;
    t.res = &r;
    G<Y> g = mc::flip("resource") ? body_r<Y>(t, 0, nullptr, r) : body<Y>(t, 0, nullptr);
    MC_CHECK(t.live == 0, "started by its creation");
    if (style < 0) {  // a prefix only, then it dies
      int n = mc::choose(budget + 1, "prefix");
      t.asked = true;
      for (int i = 0; i <= n && !g.empty(); i++) {
        try {
          auto it = g.begin();
          if (it == g.end()) break;
          t.got(id_of<Y>(*it));
        } catch (Err& e) { t.got_exception(e.code); }
      }
    } else
      consume<Y>(t, g, style);
  }
  MC_CHECK(t.live == 0, "%d bodies left", t.live);
  MC_CHECK(r.live.empty(), "memory left in the resource");
}
void all_acts(bool thrown) {
  acts_leaf = {RETURN, YIELD, YIELD_COPY, RANGE_RVALUE, RANGE_LAZY, RANGE_LVALUE, RANGE_BORROWED, RANGE_LIST, OF_OTHER, EMPTY};
  acts_inner = acts_leaf;
  acts_inner.insert(acts_inner.end(), {FRESH, PARTLY, FRESH_LVALUE, FRESH_ARG, FRESH_TYPE, FINISHED});
  if (thrown) {
    acts_leaf.push_back(THROW);
    acts_leaf.push_back(RANGE_THROWS);
    acts_inner.push_back(THROW);
    acts_inner.push_back(RANGE_THROWS);
  }
}
void core_acts(bool thrown) {
  acts_leaf = {RETURN, YIELD, RANGE_LAZY};
  acts_inner = {RETURN, YIELD, FRESH, PARTLY};
  if (thrown) {
    acts_leaf.push_back(THROW);
    acts_inner.push_back(THROW);
  }
}
}  // namespace
MC_SCENARIO(all_kinds, 0, 0, "bodies of up to 3-4 steps over every kind of yield and nesting, depth 3, one loop") {
  all_acts(THROWS);
  run<Probe>(mc::depth(THROWS ? 3 : 4, THROWS ? 4 : 5), 3, LOOP);
}
MC_SCENARIO(all_kinds_int, 0, 0, "same, trivial values, begin at every step") {
  all_acts(THROWS);
  run<int>(mc::depth(THROWS ? 3 : 4, THROWS ? 4 : 5), 3, BEGIN_EVERY_TIME);
}
MC_SCENARIO(core, 0, 0, "bodies of up to 6-8 steps of yields, fresh and partly consumed nested generators, depth 4, one loop") {
  core_acts(THROWS);
  run<Probe>(mc::depth(THROWS ? 6 : 7, THROWS ? 8 : 9), 4, LOOP);
}
MC_SCENARIO(core_begin, 0, 0, "same, begin at every step") {
  core_acts(THROWS);
  run<int>(mc::depth(7, 8), 4, BEGIN_EVERY_TIME);
}
MC_SCENARIO(core_mixed, 0, 0, "same, begin or increment at every step") {
  core_acts(THROWS);
  run<Probe>(mc::depth(6, 7), 4, MIXED);
}
MC_SCENARIO(core_breaking, 0, 0, "same, loops left at every value and begun again") {
  core_acts(THROWS);
  run<Probe>(mc::depth(6, 7), 4, BREAKING_LOOP);
}
MC_SCENARIO(prefix, 0, 0, "destroyed after every prefix") {
  all_acts(THROWS);
  run<Probe>(mc::depth(3, 4), 3, -1);
}
MC_SCENARIO(deep, 0, 0, "nesting up to 12 levels, leaf first, partly consumed at every level") {
  acts_leaf = {YIELD};
  acts_inner = {FRESH, PARTLY};
  Tree t;
  Res r;
  t.budget = mc::depth(12, 14);
  t.max_depth = 10;
  t.res = &r;
  {
    G<Probe> g = body<Probe>(t, 0, nullptr);
    consume<Probe>(t, g, BEGIN_EVERY_TIME);
  }
  MC_CHECK(t.live == 0, "bodies left");
}
#if !THROWS
template <typename Y>
static int count_up(G<Y>& g, int style) {
  int n = 0;
  if (style == 0)
    for (auto&& v : g) { MC_CHECK(id_of<Y>(v) == n, "%d instead of %d", id_of<Y>(v), n); n++; }
  else
    for (auto it = g.begin(); it != g.end(); it = g.begin()) { MC_CHECK(id_of<Y>(*it) == n, "%d instead of %d", id_of<Y>(*it), n); n++; }
  MC_CHECK(g.empty() && g.begin() == g.end(), "no end");
  return n;
}
template <typename Y>
static void odd_one() {
  int kind = mc::choose(ODD_RANGES, "range"), n = mc::choose(4, "length");
  auto g = odd_range<dd::generator, Y>(kind, n);
  int got = count_up<Y>(g, mc::choose(2, "style"));
  MC_CHECK(got == n, "%d values instead of %d", got, n);
}
MC_SCENARIO(odd_ranges, 0, 0, "elements_of 14 unusual kinds of ranges: one pass, sentinels, views, joined, endless, overloaded &") { odd_one<Probe>(); }
MC_SCENARIO(odd_ranges_int, 0, 0, "same, numbers") { odd_one<int>(); }
MC_SCENARIO(odd_ranges_amp, 0, 0, "same, values whose & is overloaded; bits") {
  odd_one<Amp>();
  int n = 0;
  for (bool b : bits<dd::generator>(70)) { MC_CHECK(b == (n % 3 == 1), "bit %d", n); n++; }
  MC_CHECK(n == 70, "%d bits", n);
}
// bodies whose values are their own variables: what the consumer writes is seen by the body that goes on
static G<int> written(int& emitted, const int& expect, int n, int nested, bool& over) {
  for (int i = 0; i < n; i++) {
    if (i == nested) {
      bool leaf_over = false;
      co_yield dd::elements_of(written(emitted, expect, 2, -1, leaf_over));
      MC_CHECK(leaf_over, "the nested one is not over");
      continue;
    }
    int v = ++emitted;
    co_yield dd::by_ref<int>{v};
    MC_CHECK(v == expect, "the body finds %d instead of %d", v, expect);
  }
  over = true;
}
MC_SCENARIO(iterators, 0, 0, "all sequences of increments (before, after), begins, current iterators and writes, by five iterators in turn") {
  int emitted = 0, n = mc::depth(2, 3), expect = 0;
  bool over = false;
  int nested = mc::choose(n + 1, "nested at") - 1, total = n + (nested >= 0);
  G<int> g = written(emitted, expect, n, nested, over), empty;
  MC_CHECK(empty.begin() == empty.end(), "empty");
  dd::generator_iterator<int> before = g.cur_iterator();
  MC_CHECK(emitted == 0 && before == g.end(), "the iterator before the first value starts the generator");
  auto a = mc::flip("by the one before") ? (++before, before) : g.begin();
  auto b = a;
  auto oa = g.cur_iterator().out(), ob = mc::flip("copied") ? oa : dd::generator_iterator<int>(g).out();
  int value = 1;
  for (int at = 1;; at++) {
    auto all = [&](auto... it) {
      MC_CHECK(((it == g.end()) && ...) == (at > total) && ((it != g.end()) || ...) == (at <= total), "end");
      MC_CHECK((it.equivalent(a) && ...) && (a.equivalent(it) && ...), "iterators of one generator");
      MC_CHECK((!it.equivalent(dd::generator_iterator<int>(empty)) && ...), "iterators of different generators");
      MC_CHECK(((&it.owner() == &g) && ...), "owner");
      if (at > total) return;
      MC_CHECK(((*it == value) && ...), "another value");
      int* p = std::addressof(*oa);
      auto addr = [](auto&& x) { return std::addressof(x); };
      MC_CHECK(((it.operator->() == p && addr(*it) == p) && ...), "not the same object");
    };
    all(a, b, oa, ob, before, g.cur_iterator());
    MC_CHECK(emitted == (at > total ? total : at) && over == (at > total) && g.empty() == over, "%d values emitted instead of %d", emitted, at);
    if (at > total) break;
    expect = at;
    for (int w = mc::choose(4, "write"); w;) {  // nothing, by either output iterator, through the ordinary one
      int v = value = expect = 100 * w + at;
      if (w == 1) *oa = v;
      else if (w == 2) *ob = v;
      else *b.operator->() = v;
      all(a, b, oa, ob, before, g.cur_iterator());
      MC_CHECK(emitted == at, "a write goes on");
      break;
    }
    switch (mc::choose(7, "go on")) {
      case 0: MC_CHECK(&++a == &a, "another iterator"); break;
      case 1: b++; break;
      case 2: b = g.begin(); break;
      case 3: MC_CHECK(&++oa == &oa, "another iterator"); break;
      case 4: ob++; break;
      case 5: a = g.cur_iterator(), ++a; break;
      case 6: ++before; break;
    }
    value = at + 1;
  }
}
MC_SCENARIO(long_and_deep, 0, 0, "400 levels, 1000 nested generators in a row, 20000 values; destroyed on the way or not") {
  int next = 0;
  int what = mc::choose(3, "shape"), style = mc::choose(2, "style");
  auto make = [&] {
    return what == 0 ? tower<dd::generator, Probe>(0, 400, next) : what == 1 ? row<dd::generator, Probe>(1000, next) : up_to<dd::generator, Probe>(next, 20000);
  };
  int expect = what == 0 ? 800 : what == 1 ? 1700 : 20000;
  auto g = make();
  if (mc::flip("destroyed")) {
    for (int i = 0; i < expect / 2 + 3; i++) MC_CHECK(id_of<Probe>(*g.begin()) == i, "value %d", i);
    MC_CHECK(next == expect / 2 + 3, "ran ahead");
    return;
  }
  int n = count_up<Probe>(g, style);
  MC_CHECK(n == expect && next == expect, "%d values instead of %d", n, expect);
}
#endif
#if THROWS
// the innermost of n throws; every owner goes on with its value after that
static G<Probe> falling(int level, int n, int& next, int& died) {
  struct D {
    int& n;
    ~D() { n++; }
  } d{died};
  co_yield Probe(next++);
  if (level + 1 == n) throw Err{n};
  co_yield dd::elements_of(falling(level + 1, n, next, died));
  co_yield Probe(next++);
  if (level % 50 == 7) throw Err{level};
}
MC_SCENARIO(deep_throw, 0, 0, "300 levels, the innermost throws, the owners go on, some throw later") {
  int next = 0, died = 0, seen = 0, caught = 0, n = 300;
  {
    auto g = falling(0, n, next, died);
    bool loop = mc::flip("loop");
    while (!g.empty()) {
      try {
        if (loop)
          for (auto&& v : g) {
            MC_CHECK(v.get() == seen, "%d instead of %d", v.get(), seen);
            seen++;
          }
        else if (auto it = g.begin(); it != g.end()) {
          MC_CHECK(it->get() == seen, "%d instead of %d", it->get(), seen);
          seen++;
        }
      } catch (Err& e) {
        caught++;
        MC_CHECK(caught == 1 ? e.code == n && seen == n : e.code % 50 == 7, "exception %d after %d values", e.code, seen);
        MC_CHECK(died == (caught == 1 ? 1 : n - e.code), "%d bodies ended before the exception of level %d", died, e.code);
      }
    }
  }
  MC_CHECK(caught == 7 && died == n && seen == 2 * n - 1, "%d exceptions, %d bodies, %d values", caught, died, seen);
}
#endif
#if THROWS
static G<fragile::Frag> copy_inner(bool catches) { FRAGILE_BODY }
static G<fragile::Frag> copy_outer(bool catches) {
  co_yield dd::elements_of(copy_inner(catches));
  co_yield fragile::Frag(9);
}
MC_SCENARIO(copy_fails, 0, 0, "lvalues are yielded, and copying one of them throws in the body, which deals with it or not") {
  fragile::live = fragile::caught = 0;
  fragile::bad = mc::choose(4, "bad");
  const bool catches = mc::flip("handled by the body"), nested = mc::flip("nested"), loop = mc::flip("loop");
  std::vector<int> got;
  {
    auto g = nested ? copy_outer(catches) : copy_inner(catches);
    for (int turns = 0; !g.empty(); turns++) {
      MC_CHECK(turns < 20, "never becomes empty");
      try {
        if (loop)
          for (auto&& v : g) got.push_back(v.p.get());
        else if (auto it = g.begin(); it != g.end())
          got.push_back(it->p.get());
      } catch (Err& e) { got.push_back(-100 - e.code); }
    }
  }
  fragile::check(got, catches, nested);
}
#endif
int main(int c, char** v) { return mc_main(c, v); }
