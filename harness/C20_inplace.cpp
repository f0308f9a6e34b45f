// C20: in-place generators yield their sequence and own their frame
#include "fragile.h"
#include "gen.h"
#include <kelcoro/inplace_generator.hpp>

namespace {
template <typename Y>
using I = dd::inplace_generator<Y>;
bool may_throw;
template <typename Y>
I<Y> body(Tree& t) {
  bool own = false;
  BodyLife life(t, 0, own);
  for (;;) {
    t.running();
    if (t.budget-- <= 0) co_return;
    switch (mc::choose(may_throw ? 5 : 4, "body")) {
      case 0: co_return;
      case 1: co_yield Y(t.emit()); break;
      case 2: {
        const Y v(t.emit());
        co_yield v;
        MC_CHECK(id_of<Y>(v) == t.emitted.back(), "a constant was changed");
        break;
      }
      case 3: {
        Y v(t.emit());
        co_yield dd::by_ref{v};
        break;
      }
      case 4:
        t.thrown = 100 + t.next_id++;
        throw Err{t.thrown};
    }
  }
}
template <typename Y>
struct Slots {
  Tree tree[4];
  int ntrees = 0;
  std::optional<I<Y>> g[2];
  int in[2] = {-1, -1};  // which tree; -1: a moved-from one
  int steps;
  std::optional<dd::inplace_generator_iterator<Y>> kept;  // an iterator got once
  int kept_tree = -1;

  Tree* tr(int s) { return in[s] < 0 ? nullptr : &tree[in[s]]; }
  bool model_empty(int s) { return in[s] < 0 || tree[in[s]].root_done; }
  void ran(Tree& t, bool end) {
    t.asked = false;
    if (end) t.got_end();
  }
  // runs the creation of a new one; false if it threw
  bool make(std::optional<I<Y>>& out) {
    Tree& t = tree[ntrees++];
    t = Tree{};
    t.budget = steps;
    t.asked = true;
    try {
      out.emplace(body<Y>(t));
    } catch (Err& e) {
      t.asked = false;
      t.got_exception(e.code);
      MC_CHECK(t.live == 0, "locals of a body that failed at once are alive");
      return false;
    }
    t.asked = false;
    MC_CHECK(t.root_done || t.emitted.size() == 1, "not run up to its first value");
    if (t.root_done) t.got_end();
    else see(t, *out);
    return true;
  }
  void see(Tree& t, I<Y>& x) {  // a new value
    auto it = x.begin();
    MC_CHECK(it != x.end(), "no value");
    t.got(id_of<Y>(*it));
  }
  void check_one(int s) {
    if (!g[s]) return;
    I<Y>& x = *g[s];
    MC_CHECK(x.empty() == model_empty(s) && (bool)x == !model_empty(s), "generator %d: empty %d", s, x.empty());
    MC_CHECK((x.begin() == x.end()) == model_empty(s), "generator %d: begin and end", s);
    if (model_empty(s)) {
      for (auto&& v : x) mc_fail("an empty generator yields %d", id_of<Y>(v));
      return;
    }
    auto it = x.begin();  // looking at the value twice changes nothing
    MC_CHECK(id_of<Y>(*it) == tr(s)->emitted.back(), "the current value changed");
    MC_CHECK(std::addressof(*it.operator->()) == std::addressof(*x.begin().operator->()), "the current value moved");
  }
  void check() {
    check_one(0);
    check_one(1);
  }
  void gone(int s) {
    if (in[s] >= 0) {
      MC_CHECK(tr(s)->live == 0, "the body outlives its generator");
      if (kept_tree == in[s]) kept.reset(), kept_tree = -1;
    }
    in[s] = -1;
  }
  void advance(int s, bool use_kept) {
    Tree& t = *tr(s);
    t.asked = true;
    try {
      auto it = use_kept ? *kept : g[s]->begin();
      if (mc::flip("postfix")) it++;
      else ++it;
      t.asked = false;
      if (it == g[s]->end()) t.got_end();
      else t.got(id_of<Y>(*it));
    } catch (Err& e) {
      t.asked = false;
      t.got_exception(e.code);
      MC_CHECK(t.live == 0 && g[s]->empty(), "a failed body is not over");
    }
  }
  bool op() {
    int o = mc::choose(10, "op"), s = o == 2 ? 0 : mc::choose(2, "which");
    if (o != 6 && !g[s]) return false;
    switch (o) {
      case 0:  // increment
        if (model_empty(s)) return false;
        advance(s, false);
        return true;
      case 1:  // by an iterator got long ago
        if (model_empty(s) || !kept || kept_tree != in[s]) return false;
        advance(s, true);
        return true;
      case 2:
        if (!g[1]) return false;
        if (mc::flip("std::swap")) std::swap(*g[0], *g[1]);
        else swap(*g[0], *g[1]);
        std::swap(in[0], in[1]);
        return true;
      case 3: {  // through a temporary
        I<Y> u(std::move(*g[s]));
        MC_CHECK(g[s]->empty() && g[s]->begin() == g[s]->end(), "a moved-from generator is not empty");
        for (auto&& v : *g[s]) mc_fail("a moved-from generator yields %d", id_of<Y>(v));
        MC_CHECK(u.empty() == model_empty(s), "moved generator");
        if (!model_empty(s)) {
          MC_CHECK(id_of<Y>(*u.begin()) == tr(s)->emitted.back(), "current value lost");
          if (mc::flip("iterate there")) {
            Tree& t = *tr(s);
            t.asked = true;
            try {
              auto it = u.begin();
              ++it;
              t.asked = false;
              if (it == u.end()) t.got_end();
              else t.got(id_of<Y>(*it));
            } catch (Err& e) {
              t.asked = false;
              t.got_exception(e.code);
            }
          }
        }
        if (mc::flip("let it go")) {
          std::optional<I<Y>> w(std::move(u));
          w.reset();
          gone(s);
          return true;
        }
        *g[s] = std::move(u);
        return true;
      }
      case 4: {  // from the other slot; what the other one holds then is up to the generator
        if (!g[1 - s]) return false;
        *g[s] = std::move(*g[1 - s]);
        int other = in[1 - s];
        if (in[s] >= 0 && tree[in[s]].live == 0 && !g[1 - s]->empty()) mc_fail("not empty");
        bool swapped = in[s] >= 0 && tree[in[s]].live > 0;
        if (swapped) std::swap(in[0], in[1]);
        else {
          gone(s);
          in[s] = other;
          in[1 - s] = -1;
        }
        return true;
      }
      case 5:  // dies
        g[s].reset();
        gone(s);
        return true;
      case 6: {  // a new one over it, or the first one there
        if (ntrees == 4) return false;
        int k = ntrees;
        std::optional<I<Y>> fresh;
        if (!make(fresh)) return true;
        if (g[s]) *g[s] = std::move(*fresh);
        else g[s].emplace(std::move(*fresh));
        fresh.reset();
        gone(s);
        in[s] = k;
        return true;
      }
      case 7: {  // to the end
        if (model_empty(s)) return false;
        Tree& t = *tr(s);
        bool first = true;
        try {
          for (auto&& v : *g[s]) {
            t.asked = false;
            if (!first) t.got(id_of<Y>(v));
            first = false;
            t.asked = true;
          }
          t.asked = false;
          t.got_end();
        } catch (Err& e) {
          t.asked = false;
          t.got_exception(e.code);
        }
        MC_CHECK(g[s]->empty() && t.live == 0, "not over");
        return true;
      }
      case 8:  // an iterator for later
        kept = g[s]->begin();
        kept_tree = in[s];
        return true;
      case 9: {
        I<Y>& same = *g[s];
        const bool was = g[s]->empty();
        const int live = in[s] < 0 ? 0 : tr(s)->live;
        if (mc::flip("assign")) *g[s] = std::move(same);
        else swap(*g[s], same);
        MC_CHECK(g[s]->empty() == was, "assigning a generator to itself changed it");
        MC_CHECK(in[s] < 0 || tr(s)->live == live, "assigning a generator to itself ended its body");
        return true;
      }
    }
    return false;
  }
};
template <typename Y>
void script(int ops, int steps, bool thrown) {
  may_throw = thrown;
  Slots<Y> w;
  w.steps = steps;
  if (w.make(w.g[0])) w.in[0] = 0;
  w.check();
  for (int i = 0; i < ops; i++) {
    bool ok = w.op();
    w.check();
    if (!ok) break;
  }
  w.g[0].reset();
  w.g[1].reset();
  for (int k = 0; k < w.ntrees; k++) MC_CHECK(w.tree[k].live == 0, "body %d outlives its generator", k);
}
}  // namespace
MC_SCENARIO(script, 0, 0, "scripts over two generators, bodies of three steps, with exceptions") { script<Probe>(mc::depth(3, 4), 3, true); }
MC_SCENARIO(script_long, 0, 0, "longer scripts, bodies of one step") { script<Probe>(mc::depth(4, 5), 1, false); }
MC_SCENARIO(script_int, 0, 0, "same for plain numbers") { script<int>(mc::depth(3, 4), 2, true); }
MC_SCENARIO(bodies, 0, 0, "bodies of up to seven steps, every one looped over") {
  may_throw = true;
  Slots<Probe> w;
  w.steps = mc::depth(6, 8);
  if (!w.make(w.g[0])) return;
  w.in[0] = 0;
  while (!w.model_empty(0)) w.advance(0, false);
  w.check();
  MC_CHECK(w.tree[0].live == 0, "the body is not over");
}
static dd::inplace_generator<int> count_to(int n) {
  for (int i = 0; i < n; i++) co_yield int(i);
}
MC_SCENARIO(many, 0, 0, "20000 values, the generator moved at some of them") {
  int k = 0;
  auto g = std::make_unique<dd::inplace_generator<int>>(count_to(20000));
  for (; *g; k++) {
    auto it = g->begin();
    MC_CHECK(*it == k, "%d instead of %d", *it, k);
    if (k % 1000 == 7) g = std::make_unique<dd::inplace_generator<int>>(std::move(*g));
    auto it2 = g->begin();
    ++it2;
  }
  MC_CHECK(k == 20000, "%d values", k);
}

static dd::inplace_generator<fragile::Frag> copies(bool catches) { FRAGILE_BODY }
// without a handler: clang 18 reads what it caught from the frame that a body that ends at once has no longer
static dd::inplace_generator<fragile::Frag> no_copy() {
  fragile::Local l;
  const fragile::Frag c(0);
  co_yield c;
}
MC_SCENARIO(copy_fails, 0, 0, "lvalues are yielded, and copying one of them throws in the body, which deals with it or not") {
  fragile::live = fragile::caught = 0;
  fragile::bad = mc::choose(4, "bad");
  const bool catches = mc::flip("handled by the body"), loop = mc::flip("loop");
  std::vector<int> got;
  try {
    auto g = !catches && fragile::bad == 0 ? no_copy() : copies(catches);
    if (loop)
      for (auto&& v : g) got.push_back(v.p.get());
    else
      while (g) {
        auto it = g.begin();
        got.push_back(it->p.get());
        ++it;
      }
  } catch (Err& e) { got.push_back(-100 - e.code); }
  fragile::check(got, catches, false);
}
int main(int c, char** v) { return mc_main(c, v); }
