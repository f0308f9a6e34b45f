// C19: channel failures reach the consumer once; its lifetime operations are safe
// (first the bodies and consumers of C18 with throwing steps, then histories of lifetime operations)
#define THROWS true
#include "C18_channel.cpp"
#include "fragile.h"

namespace life {
using K = dd::channel<Probe>;
bool may_throw;
K body(Tree& t, int depth, bool* fin);
K body_r(Tree& t, int depth, bool* fin, dd::with_pmr_resource);
#define BODY                                                                 \
  bool own = false;                                                          \
  BodyLife life(t, depth, fin ? *fin : own);                                 \
  for (;;) {                                                                 \
    t.running();                                                             \
    if (t.budget-- <= 0) co_return;                                          \
    switch (mc::choose((may_throw ? 3 : 2) + (depth + 1 < t.max_depth), "body")) { \
      case 0: co_return;                                                     \
      case 1: co_yield Probe(t.emit()); break;                               \
      case 2:                                                                \
        if (may_throw) {                                                     \
          t.thrown = 100 + t.next_id++;                                      \
          t.thrown_depth = depth;                                            \
          throw Err{t.thrown};                                               \
        }                                                                    \
        [[fallthrough]];                                                     \
      case 3: {                                                              \
        bool f = false;                                                      \
        co_yield dd::elements_of(body(t, depth + 1, &f));                    \
        MC_CHECK(f, "goes on before the nested channel ended");              \
        break;                                                               \
      }                                                                      \
    }                                                                        \
  }
K body(Tree& t, int depth, bool* fin) { BODY }
K body_r(Tree& t, int depth, bool* fin, dd::with_pmr_resource) { BODY }

enum Cmd { BEGIN_, INC, LEAVE, QUIT };
struct Slots {
  Tree tree[3];
  int ntrees = 0;
  K g[2];
  int in[2] = {-1, -1};           // which tree
  bool at[2] = {false, false};    // a current value is there to be looked at
  bool pend[2] = {false, false};  // an exception waits for take_exception
  int steps;
  Res* res;
  // consumer coroutines, one per slot; each may hold an iterator over its slot
  Ctl ctl[2];
  Cmd cmd[2];
  bool has_it[2] = {false, false};
  bool inc_ok[2] = {false, false};  // the last one who waited for a value of this channel is the iterator's coroutine
  bool answered = false;
  Slots(int steps, Res* r) : steps(steps), res(r) {
    for (int s = 0; s < 2; s++) consumer(s);
  }
  Tree* tr(int s) { return in[s] < 0 ? nullptr : &tree[in[s]]; }
  bool model_empty(int s) { return in[s] < 0 || tree[in[s]].root_done; }

  void result(int s, bool end, int v) {
    Tree* t = tr(s);
    answered = true;
    at[s] = !end;
    if (!t) {
      MC_CHECK(end, "an empty channel yields %d", v);
      return;
    }
    MC_CHECK(t->asked || t->root_done, "resumed for nothing");
    t->asked = false;
    if (!end) t->got(v);
    else if (!t->thrown) t->got_end();
  }
  void failed(int s, int code) {
    Tree* t = tr(s);
    MC_CHECK(t && t->thrown == code, "exception %d instead of %d", code, t ? t->thrown : 0);
    t->got_exception(code);
    MC_CHECK(g[s].empty() == (t->thrown_depth == 0), "empty %d after an exception of depth %d", g[s].empty(), t->thrown_depth);
    MC_CHECK(!g[s].take_exception(), "the exception is there twice");
  }
  co consumer(int s) {
    for (;;) {
      co_await park{ctl[s]};
      if (cmd[s] == QUIT) co_return;
      if (cmd[s] != BEGIN_) mc_fail("harness: command %d without an iterator", cmd[s]);
      int caught = 0;
      try {
        auto it = co_await g[s].begin();
        has_it[s] = true;
        for (;;) {
          result(s, it == g[s].end(), it == g[s].end() ? 0 : it->get());
          if (Tree* t = tr(s); t && t->thrown) break;  // leave at once
          co_await park{ctl[s]};
          if (cmd[s] == LEAVE || cmd[s] == QUIT) break;
          if (cmd[s] == INC) co_await ++it;
          else it = co_await g[s].begin();
        }
        has_it[s] = false;
      } catch (Err& e) { caught = e.code; }
      has_it[s] = false;
      if (caught) {
        answered = true;
        at[s] = false;
        if (Tree* t = tr(s)) t->asked = false;
        failed(s, caught);
      }
      else if (Tree* t = tr(s); t && t->thrown && !pend[s]) mc_fail("the exception is lost");
      if (cmd[s] == QUIT) co_return;
    }
  }
  void command(int s, Cmd c) {
    cmd[s] = c;
    auto h = std::exchange(ctl[s].parked, nullptr);
    MC_CHECK(h, "the consumer was not resumed");
    h.resume();
  }
  void ask(int s) {
    answered = false;
    if (Tree* t = tr(s)) t->asked = !t->root_done;
  }
  void next(int s, K& c) {
    ask(s);
    if (&c == &g[s] && !c.empty()) inc_ok[s] = false;
    [](Slots& w, int s, K& c) -> co {
      Probe* p = co_await c.next();
      w.result(s, !p, p ? p->get() : 0);
      if (Tree* t = w.tr(s); !p && t && t->thrown) w.pend[s] = true;
    }(*this, s, c);
    MC_CHECK(answered, "the consumer was not resumed");
  }
  void check() {
    for (int s = 0; s < 2; s++) {
      MC_CHECK(g[s].empty() == model_empty(s) && (bool)g[s] == !model_empty(s), "channel %d: empty %d", s, g[s].empty());
      MC_CHECK((g[s].raw_handle() == nullptr) == (in[s] < 0), "channel %d: handle", s);
      MC_CHECK(g[s] == g[s], "not equal to itself");
      MC_CHECK((g[s] == K{}) == model_empty(s), "comparison with an empty one");
      if (!pend[s]) {
        dd::channel_iterator<Probe> it(g[s]);
        MC_CHECK((it != std::default_sentinel) == at[s], "a current value is %sthere", at[s] ? "not " : "");
        if (at[s]) MC_CHECK((*it).get() == tr(s)->emitted.back(), "current value changed");
      }
    }
    MC_CHECK((g[0] == g[1]) == (model_empty(0) && model_empty(1)), "comparison");
  }
  void nothing_in(K& x) {
    bool done = false;
    [](K& x, bool& done) -> co {
      MC_CHECK(x.empty() && !x.take_exception(), "not empty");
      MC_CHECK(co_await x.begin() == x.end(), "an empty channel has a beginning");
      MC_CHECK(co_await x.next() == nullptr, "an empty channel has a next value");
      co_foreach(auto&& v, x) mc_fail("an empty channel yields %d", v.get());
      done = true;
    }(x, done);
    MC_CHECK(done, "never resumed by an empty channel");
  }
  void swap_model() {
    std::swap(in[0], in[1]);
    std::swap(at[0], at[1]);
    std::swap(pend[0], pend[1]);
  }
  void gone(int s) {
    if (in[s] >= 0) MC_CHECK(tr(s)->live == 0, "%d bodies alive after destruction", tr(s)->live);
    in[s] = -1;
    at[s] = pend[s] = false;
  }
  K make() {
    Tree& t = tree[ntrees++];
    t = Tree{};
    t.budget = steps;
    if (res && mc::flip("resource")) return body_r(t, 0, nullptr, *res);
    return body(t, 0, nullptr);
  }
  bool op() {
    int o = mc::choose(14, "op"), s = o == 5 || o == 6 ? 0 : mc::choose(2, "which");
    switch (o) {
      case 0:  // begin (again)
        if (pend[s]) return false;
        ask(s);
        if (!model_empty(s)) inc_ok[s] = true;
        command(s, BEGIN_);
        MC_CHECK(answered, "the consumer was not resumed");
        return true;
      case 1:  // increment
        if (pend[s] || model_empty(s) || !has_it[s] || !inc_ok[s]) return false;
        ask(s);
        command(s, INC);
        MC_CHECK(answered, "the consumer was not resumed");
        return true;
      case 2:  // next
        if (pend[s]) return false;
        next(s, g[s]);
        return true;
      case 3:  // the iterator dies
        if (pend[s] || !has_it[s]) return false;
        command(s, LEAVE);
        return true;
      case 4: {  // a new one over it
        if (ntrees == 3) return false;
        int k = ntrees;
        K fresh = make();
        MC_CHECK(tree[k].live == 0, "the body was started by its creation");
        g[s] = std::move(fresh);
        in[s] = k;
        at[s] = pend[s] = false;
        check();
        return true;
      }
      case 5:
        swap(g[0], g[1]);
        swap_model();
        return true;
      case 6:
        std::swap(g[0], g[1]);
        swap_model();
        return true;
      case 7: {  // through a temporary
        if (in[s] < 0) return false;
        K u(std::move(g[s]));
        MC_CHECK(g[s].raw_handle() == nullptr, "moved from channel holds a coroutine");
        if (!pend[s]) {
          nothing_in(g[s]);
          if (at[s]) MC_CHECK((*dd::channel_iterator<Probe>(u)).get() == tr(s)->emitted.back(), "current value lost by the move");
          if (!model_empty(s) && mc::flip("iterate there")) next(s, u);
        } else if (mc::flip("take there")) {
          int c = code_of(u.take_exception());
          tr(s)->got_exception(c);
          pend[s] = false;
        }
        g[s] = std::move(u);
        return true;
      }
      case 8: {  // from the other slot; what the other one holds then is up to the channel
        if (in[1 - s] < 0) return false;
        bool had = in[s] >= 0;
        g[s] = std::move(g[1 - s]);
        if (g[1 - s].raw_handle() == nullptr) {
          if (had) gone(s);
          in[s] = in[1 - s], at[s] = at[1 - s], pend[s] = pend[1 - s];
          in[1 - s] = -1, at[1 - s] = pend[1 - s] = false;
        } else
          swap_model();
        return true;
      }
      case 9:  // clear
        if (mc::flip("reset")) g[s].reset(nullptr);
        else g[s].clear();
        gone(s);
        nothing_in(g[s]);
        return true;
      case 10: {  // release, and into the other or away
        if (in[s] < 0) return false;
        auto h = g[s].release();
        MC_CHECK(g[s].raw_handle() == nullptr, "released channel holds a coroutine");
        int k = in[s];
        if (std::exchange(pend[s], false)) {  // it may stay to be taken, until the channel is cleared
          if (mc::flip("take")) {
            if (auto e = g[s].take_exception()) MC_CHECK(code_of(e) == tree[k].thrown, "another exception");
          } else if (mc::flip("reset"))
            g[s].reset(nullptr);
          else
            g[s].clear();
          tree[k].got_exception(tree[k].thrown);
        }
        in[s] = -1;
        at[s] = false;
        nothing_in(g[s]);
        if (mc::flip("destroy")) {
          h.destroy();
          MC_CHECK(tree[k].live == 0, "bodies alive");
        } else {
          g[1 - s].reset(h);
          gone(1 - s);
          in[1 - s] = k;
        }
        return true;
      }
      case 11: {  // an owner takes this one in, through an lvalue
        if (in[s] < 0 || pend[s]) return false;
        Tree& t = *tr(s);
        bool was_done = t.root_done;
        {
          K owner = [](K& inner) -> K { co_yield dd::elements_of(inner); }(g[s]);
          MC_CHECK(g[s].raw_handle() != nullptr, "started by its creation");
          for (;;) {
            t.asked = true;
            bool end = false;
            [](Tree& t, K& owner, bool& end) -> co {
              Probe* p = co_await owner.next();
              t.asked = false;
              if (p) t.got(p->get());
              else if (auto e = owner.take_exception()) t.got_exception(code_of(e));
              else end = true, t.got_end();
            }(t, owner, end);
            MC_CHECK(!t.asked, "the consumer was not resumed");
            if (end || mc::flip("enough")) break;
          }
          MC_CHECK(g[s].raw_handle() == nullptr || was_done, "the nested channel was not taken");
        }
        at[s] = g[s].raw_handle() && at[s];
        if (g[s].raw_handle() == nullptr) gone(s);
        if (in[s] < 0) nothing_in(g[s]);
        return true;
      }
      case 12: {  // handed over
        auto e = g[s].take_exception();
        MC_CHECK((bool)e == pend[s], "an exception is%s there", e ? "" : " not");
        if (!e) return false;
        tr(s)->got_exception(code_of(e));
        pend[s] = false;
        MC_CHECK(!g[s].take_exception(), "handed over twice");
        return true;
      }
      case 13: {  // with itself
        K& same = g[s];
        if (mc::flip("assign")) g[s] = std::move(same);
        else swap(g[s], same);
        return true;
      }
    }
    return false;
  }
};
void script(int ops, int steps, bool resource, bool thrown) {
  Res r;
  may_throw = thrown;
  {
    Slots w(steps, resource ? &r : nullptr);
    w.g[0] = w.make();
    w.in[0] = 0;
    w.check();
    for (int i = 0; i < ops; i++) {
      bool ok = w.op();
      w.check();
      if (!ok) break;
    }
    for (int s = 0; s < 2; s++)
      if (w.pend[s]) (void)w.g[s].take_exception();
    for (int s = 0; s < 2; s++) w.command(s, QUIT);
    for (int s = 0; s < 2; s++) w.g[s] = K{};
    for (int k = 0; k < w.ntrees; k++) MC_CHECK(w.tree[k].live == 0, "tree %d: %d bodies alive", k, w.tree[k].live);
  }
  MC_CHECK(r.live.empty(), "memory left in the resource");
}
}  // namespace life
MC_SCENARIO(script, 0, 0, "scripts of operations over two channels, two consumer coroutines with iterators and three coroutine trees") { life::script(mc::depth(3, 4), 3, false, false); }
MC_SCENARIO(script_long, 0, 0, "longer scripts over trees of one step") { life::script(mc::depth(4, 5), 1, false, false); }
MC_SCENARIO(script_throws, 0, 0, "same with exceptions, also left in the channel") { life::script(mc::depth(4, 5), 1, false, true); }
MC_SCENARIO(script_throws_nested, 0, 0, "same with nested channels") { life::script(mc::depth(3, 4), 2, false, true); }
MC_SCENARIO(script_resource, 0, 0, "same, frames of either kind of allocation mixed") { life::script(mc::depth(3, 4), 2, true, false); }
// exceptions that nobody takes at once, next goes on with the owner
static dd::channel<int> levels(int& emitted, int& thrown, int depth, int& budget, const bool& untaken) {
  while (budget-- > 0) switch (mc::choose(depth ? 4 : 3, "body")) {
      case 0: co_return;
      case 1: co_yield ++emitted; break;
      case 2:
        if (untaken) co_return;  // (a second exception before the first is taken is the end of the program)
        throw Err{thrown = 100 + ++emitted};
      case 3: co_yield dd::elements_of(levels(emitted, thrown, depth - 1, budget, untaken)); break;
    }
}
MC_SCENARIO(next_ignoring, 0, 0, "bodies of up to 6 steps, depth 3; an exception is taken at once, later or never by a consumer that asks with next") {
  int emitted = 0, thrown = 0, budget = mc::depth(6, 7), answers = 0;
  bool untaken = false;
  {
    dd::channel<int> c = levels(emitted, thrown, 2, budget, untaken);
    int left = 0;  // not taken yet
    while (!c.empty()) {
      MC_CHECK(answers < 40, "no end");
      int before = emitted, n = answers;
      thrown = 0;
      [](dd::channel<int>& c, int& answers, int& emitted, int& thrown, int before) -> co {
        int* p = co_await c.next();
        answers++;
        if (p) MC_CHECK(*p == emitted && !thrown && emitted == before + 1, "%d after %d, emitted %d", *p, before, emitted);
        else MC_CHECK(thrown ? emitted == before + 1 : c.empty() && emitted == before, "no value after %d, emitted %d", before, emitted);
      }(c, answers, emitted, thrown, before);
      MC_CHECK(answers == n + 1, "resumed %d times", answers - n);
      if (thrown) left = thrown;
      if (mc::flip("take")) {
        auto e = c.take_exception();
        MC_CHECK((e ? code_of(e) : 0) == left, "exception %d instead of %d", e ? code_of(e) : 0, left);
        left = 0;
      }
      untaken = left;
    }
    auto e = c.take_exception();
    MC_CHECK((e ? code_of(e) : 0) == left, "exception %d instead of %d at the end", e ? code_of(e) : 0, left);
    MC_CHECK(!c.take_exception(), "handed over twice");
  }
}
// the innermost of n throws; every owner goes on with its value after that
static dd::channel<Probe> falling(int level, int n, int& next, int& died) {
  struct D {
    int& n;
    ~D() { n++; }
  } d{died};
  co_yield Probe(next++);
  if (level + 1 == n) throw Err{n};
  co_yield dd::elements_of(falling(level + 1, n, next, died));
  co_yield Probe(next++);
  if (level % 50 == 7) throw Err{level};
}
static co take_falling(dd::channel<Probe>& c, int style, int n, int& seen, int& caught, int& died) {
  while (!c.empty()) {
    int code = -1;
    try {
      if (style == 0) {
        co_foreach(auto&& v, c) {
          MC_CHECK(v.get() == seen, "%d instead of %d", v.get(), seen);
          seen++;
        }
      } else if (style == 1) {
        if (auto it = co_await c.begin(); it != c.end()) {
          MC_CHECK(it->get() == seen, "%d instead of %d", it->get(), seen);
          seen++;
        }
      } else {
        if (auto* v = co_await c.next()) {
          MC_CHECK(v->get() == seen, "%d instead of %d", v->get(), seen);
          seen++;
        } else if (auto e = c.take_exception())
          std::rethrow_exception(e);
      }
    } catch (Err& e) { code = e.code; }
    if (code < 0) continue;
    caught++;
    MC_CHECK(caught == 1 ? code == n && seen == n : code % 50 == 7, "exception %d after %d values", code, seen);
    MC_CHECK(died == (caught == 1 ? 1 : n - code), "%d bodies ended before the exception of level %d", died, code);
  }
}
MC_SCENARIO(deep_throw, 0, 0, "300 levels, the innermost throws, the owners go on, some throw later") {
  int next = 0, died = 0, seen = 0, caught = 0, n = 300;
  {
    auto c = falling(0, n, next, died);
    take_falling(c, mc::choose(3, "style"), n, seen, caught, died);
  }
  MC_CHECK(caught == 7 && died == n && seen == 2 * n - 1, "%d exceptions, %d bodies, %d values", caught, died, seen);
}
static dd::channel<fragile::Frag> copy_inner(bool catches) { FRAGILE_BODY }
static dd::channel<fragile::Frag> copy_outer(bool catches) {
  co_yield dd::elements_of(copy_inner(catches));
  co_yield fragile::Frag(9);
}
static co take_copies(dd::channel<fragile::Frag>& c, int style, std::vector<int>& got) {
  for (int turns = 0; !c.empty(); turns++) {
    MC_CHECK(turns < 20, "never becomes empty");
    try {
      if (style == 0) {
        co_foreach(auto&& v, c) { got.push_back(v.p.get()); }
      } else if (style == 1) {
        if (auto it = co_await c.begin(); it != c.end()) got.push_back(it->p.get());
      } else {
        if (auto* v = co_await c.next())
          got.push_back(v->p.get());
        else if (auto e = c.take_exception())
          std::rethrow_exception(e);
      }
    } catch (Err& e) { got.push_back(-100 - e.code); }
  }
}
MC_SCENARIO(copy_fails, 0, 0, "lvalues are yielded, and copying one of them throws in the body, which deals with it or not") {
  fragile::live = fragile::caught = 0;
  fragile::bad = mc::choose(4, "bad");
  const bool catches = mc::flip("handled by the body"), nested = mc::flip("nested");
  std::vector<int> got;
  {
    auto c = nested ? copy_outer(catches) : copy_inner(catches);
    take_copies(c, mc::choose(3, "style"), got);
  }
  fragile::check(got, catches, nested);
}
int main(int c, char** v) { return mc_main(c, v); }
