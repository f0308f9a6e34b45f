// C17: generator moves, swaps, clears and destruction keep iteration and frames right
#include "gen.h"

namespace {
using G = dd::generator<Probe>;
G body(Tree& t, int depth, bool* fin = nullptr);
G body_r(Tree& t, int depth, bool* fin, dd::with_pmr_resource);
#define BODY                                                                 \
  bool own = false;                                                          \
  BodyLife life(t, depth, fin ? *fin : own);                                 \
  for (;;) {                                                                 \
    t.running();                                                             \
    if (t.budget-- <= 0) co_return;                                          \
    switch (mc::choose(depth + 1 < t.max_depth ? 4 : 2, "body")) {           \
      case 0: co_return;                                                     \
      case 1: co_yield Probe(t.emit()); break;                               \
      case 2: {                                                              \
        bool f = false;                                                      \
        co_yield dd::elements_of(body(t, depth + 1, &f));                    \
        MC_CHECK(f, "goes on before the nested generator ended");            \
        break;                                                               \
      }                                                                      \
      case 3: {                                                              \
        const Probe v(t.emit());                                             \
        co_yield v;                                                          \
        break;                                                               \
      }                                                                      \
    }                                                                        \
  }
G body(Tree& t, int depth, bool* fin) { BODY }
G body_r(Tree& t, int depth, bool* fin, dd::with_pmr_resource) { BODY }

struct Slots {
  Tree tree[3];
  int ntrees = 0;
  G g[2];
  int in[2] = {-1, -1};                         // which tree
  bool at[2] = {false, false};                  // a current value is there to be looked at
  int steps;
  Res* res;
  explicit Slots(int steps, Res* r) : steps(steps), res(r) {}

  Tree* tr(int s) { return in[s] < 0 ? nullptr : &tree[in[s]]; }
  bool model_empty(int s) { return in[s] < 0 || tree[in[s]].root_done; }
  void check() {
    for (int s = 0; s < 2; s++) {
      MC_CHECK(g[s].empty() == model_empty(s) && (bool)g[s] == !model_empty(s), "generator %d: empty %d", s, g[s].empty());
      MC_CHECK((g[s].raw_handle() == nullptr) == (in[s] < 0), "generator %d: handle", s);
      MC_CHECK(g[s] == g[s], "not equal to itself");
      MC_CHECK((g[s] == G{}) == model_empty(s), "comparison with an empty one");
      if (at[s]) {
        auto it = g[s].cur_iterator();
        MC_CHECK(it != std::default_sentinel, "current value lost");
        MC_CHECK((*it).get() == tr(s)->emitted.back() && it->get() == tr(s)->emitted.back(), "current value changed");
        MC_CHECK(&it.owner() == &g[s] && it.equivalent(g[s].cur_iterator()), "owner of the iterator");
      }
    }
    MC_CHECK((g[0] == g[1]) == (model_empty(0) && model_empty(1)), "comparison");
  }
  void nothing_in(G& x) {
    MC_CHECK(x.empty() && x.begin() == x.end(), "an empty generator has a beginning");
    for (auto&& v : x) mc_fail("an empty generator yields %d", v.get());
  }
  void step(int s, bool begin) {
    Tree* t = tr(s);
    t->asked = true;
    bool end;
    if (begin) {
      auto it = g[s].begin();
      t->asked = false;
      end = it == g[s].end();
      if (!end) t->got((*it).get());
    } else {
      auto it = g[s].cur_iterator();
      auto& same = ++it;
      MC_CHECK(&same == &it, "increment");
      t->asked = false;
      end = it == g[s].end();
      if (!end) t->got((*it).get());
    }
    if (end) t->got_end();
    at[s] = !end;
  }
  void gone(int s) {  // the coroutine of slot s is destroyed
    if (in[s] >= 0) MC_CHECK(tr(s)->live == 0, "%d bodies alive after destruction", tr(s)->live);
    in[s] = -1;
    at[s] = false;
  }
  G make() {
    Tree& t = tree[ntrees++];
    t = Tree{};
    t.budget = steps;
    if (res && mc::flip("resource")) return body_r(t, 0, nullptr, *res);
    return body(t, 0, nullptr);
  }
  bool op() {
    int o = mc::choose(12, "op"), s = o == 3 ? 0 : mc::choose(2, "which");
    switch (o) {
      case 0:  // begin (again)
        if (model_empty(s)) {
          nothing_in(g[s]);
          at[s] = false;
          return false;
        }
        step(s, true);
        return true;
      case 1:  // increment
        if (model_empty(s) || !at[s]) return false;
        step(s, false);
        return true;
      case 2: {  // a new one over it
        if (ntrees == 3) return false;
        int k = ntrees;
        {
          G fresh = make();
          MC_CHECK(tree[k].live == 0, "the body was started by its creation");
          Tree* old = tr(s);
          g[s] = std::move(fresh);
          in[s] = k;
          at[s] = false;
          check();
          if (fresh.empty()) nothing_in(fresh);
          (void)old;
        }
        return true;
      }
      case 3: {
        if (mc::flip("std::swap")) std::swap(g[0], g[1]);
        else swap(g[0], g[1]);
        std::swap(in[0], in[1]);
        std::swap(at[0], at[1]);
        return true;
      }
      case 4: {  // through a temporary
        if (in[s] < 0) return false;
        G u(std::move(g[s]));
        MC_CHECK(g[s].raw_handle() == nullptr, "moved from generator holds a coroutine");
        nothing_in(g[s]);
        if (at[s]) MC_CHECK((*u.cur_iterator()).get() == tr(s)->emitted.back(), "current value lost by the move");
        if (!model_empty(s) && mc::flip("iterate there")) {
          Tree* t = tr(s);
          t->asked = true;
          auto it = u.begin();
          t->asked = false;
          at[s] = it != u.end();
          if (at[s]) t->got((*it).get());
          else t->got_end();
        }
        g[s] = std::move(u);
        return true;
      }
      case 5: {  // from the other slot; what the other one holds then is up to the generator
        if (in[1 - s] < 0) return false;
        bool had = in[s] >= 0;
        g[s] = std::move(g[1 - s]);
        if (g[1 - s].raw_handle() == nullptr) {
          if (had) gone(s);
          in[s] = in[1 - s];
          at[s] = at[1 - s];
          in[1 - s] = -1;
          at[1 - s] = false;
        } else {
          std::swap(in[0], in[1]);
          std::swap(at[0], at[1]);
        }
        return true;
      }
      case 6:  // clear
        g[s].clear();
        gone(s);
        nothing_in(g[s]);
        return true;
      case 7: {  // release into the other
        if (in[s] < 0) return false;
        auto h = g[s].release();
        MC_CHECK(g[s].raw_handle() == nullptr, "released generator holds a coroutine");
        int k = in[s];
        in[s] = -1;
        at[s] = false;
        nothing_in(g[s]);
        if (mc::flip("destroy")) {
          h.destroy();
          MC_CHECK(tree[k].live == 0, "bodies alive");
        } else {
          g[1 - s].reset(h);
          gone(1 - s);
          in[1 - s] = k;
        }
        return true;
      }
      case 8:  // reset to nothing
        g[s].reset(nullptr);
        gone(s);
        nothing_in(g[s]);
        return true;
      case 9: {  // a generator that takes this one in
        if (in[s] < 0 || ntrees > 2) return false;
        Tree& t = *tr(s);
        bool was_done = t.root_done;
        G owner = [](G& inner) -> G { co_yield dd::elements_of(inner); }(g[s]);
        MC_CHECK(g[s].raw_handle() != nullptr, "started by its creation");
        t.asked = true;
        auto it = owner.begin();
        t.asked = false;
        at[s] = false;
        if (it != owner.end()) t.got((*it).get());
        else t.got_end();
        MC_CHECK(g[s].raw_handle() == nullptr || was_done, "the nested generator was not taken");
        if (mc::flip("iterate to the end"))
          while (it != owner.end()) {
            t.asked = true;
            ++it;
            t.asked = false;
            if (it != owner.end()) t.got((*it).get());
            else t.got_end();
          }
        owner.clear();
        if (g[s].raw_handle() != nullptr) return true;
        gone(s);
        nothing_in(g[s]);
        return true;
      }
      case 10: {  // looping over what is left
        Tree* t = tr(s);
        if (model_empty(s)) return false;
        t->asked = true;
        for (auto&& v : g[s]) {
          t->asked = false;
          t->got(v.get());
          t->asked = true;
        }
        t->asked = false;
        t->got_end();
        at[s] = false;
        return true;
      }
      case 11:  // self assignment and swap
        if (mc::flip("swap")) swap(g[s], g[s]);
        else {
          G& same = g[s];
          g[s] = std::move(same);
        }
        return true;
    }
    return false;
  }
};
void script(int ops, int steps, bool resource) {
  Res r;
  {
    Slots w(steps, resource ? &r : nullptr);
    w.g[0] = w.make();
    w.in[0] = 0;
    w.check();
    for (int i = 0; i < ops; i++) {
      bool ok = w.op();
      w.check();
      if (!ok) break;
    }
    for (int s = 0; s < 2; s++) {
      w.g[s] = G{};
      (void)w.g[s];
    }
    for (int k = 0; k < w.ntrees; k++) MC_CHECK(w.tree[k].live == 0, "tree %d: %d bodies alive", k, w.tree[k].live);
  }
  MC_CHECK(r.live.empty(), "memory left in the resource");
}
}  // namespace
MC_SCENARIO(script, 0, 0, "scripts of operations over two generators and three coroutine trees") { script(mc::depth(3, 4), 3, false); }
MC_SCENARIO(script_long, 0, 0, "longer scripts over trees of one step") { script(mc::depth(4, 5), 1, false); }
MC_SCENARIO(script_resource, 0, 0, "same, frames of either kind of allocation mixed") { script(mc::depth(3, 4), 2, true); }

// generators of nothing: the same life without a value
namespace {
using N = dd::generator<dd::nothing_t>;
int nlive, nsteps;
struct NL {
  NL() { nlive++; }
  ~NL() { nlive--; }
};
N nothing(int n) {
  NL l;
  for (int i = 0; i < n; i++) {
    nsteps++;
    co_yield nullptr;
  }
}
N nest(int n, int m) {
  NL l;
  co_yield dd::elements_of(nothing(n));
  nsteps++;
  co_yield {};
  co_yield dd::elements_of(nothing(m));
}
int count(N& g) {
  int n = 0;
  for (auto x : g) {
    (void)x;
    MC_CHECK(nsteps == ++n, "steps %d, values %d", nsteps, n);
  }
  MC_CHECK(g.empty(), "not empty after its end");
  return n;
}
}  // namespace
MC_SCENARIO(nothing_values, 0, 0, "generators of nothing: counted, nested, emptied in every way") {
  nlive = nsteps = 0;
  int n = mc::choose(3, "n");
  auto zero = [](N& g) {
    for (auto x : g) {
      (void)x;
      mc_fail("an empty generator yields");
    }
    MC_CHECK(g.begin() == g.end() && g.empty() && g == N{}, "empty");
  };
  {
    N g = nothing(n), e;
    switch (mc::choose(8, "what")) {
      case 0: MC_CHECK(count(g) == n, "count"); zero(g); break;
      case 1: {
        int m = mc::choose(3, "m");
        N x = nest(n, m);
        MC_CHECK(nlive == 0, "started");
        MC_CHECK(count(x) == n + m + 1, "count");
        zero(x);
        break;
      }
      case 2: zero(e); break;
      case 3: {
        N x(std::move(g));
        zero(g);
        MC_CHECK(count(x) == n, "count");
        break;
      }
      case 4: g.clear(); zero(g); break;
      case 5: {
        auto h = g.release();
        zero(g);
        e.reset(h);
        MC_CHECK(count(e) == n, "count");
        break;
      }
      case 6: {
        auto it = g.begin();
        if (n == 0) {
          MC_CHECK(it == g.end(), "end");
          break;
        }
        MC_CHECK(it != g.end() && nsteps == 1, "first");
        swap(g, e);
        zero(g);
        int k = 1;
        for (auto x : e) (void)x, k++;
        MC_CHECK(k == n, "rest");
        break;
      }
      case 7: g.reset(nullptr); zero(g); break;
    }
  }
  MC_CHECK(nlive == 0, "bodies left");
}
int main(int c, char** v) { return mc_main(c, v); }
