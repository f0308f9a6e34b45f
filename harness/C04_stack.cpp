// C04: nonowner_lockfree_stack under all schedules of pushes, chain pushes, removals.
#include "common.h"
#include <kelcoro/nonowner_lockfree_stack.hpp>

struct N {
  N* next = nullptr;
  int pusher = 0, seq = 0;  // written before the push, read by whoever removes it (race detector)
  int chain = -1;           // >= 0: pushed as part of that chain
  int pos = 0;
};
using Stack = dd::nonowner_lockfree_stack<N>;

struct Removal {
  int by;
  std::vector<N*> v;
};

struct World {
  Stack s;
  N nodes[12];
  int n_nodes = 0;
  std::vector<Removal> rem;
  N* fresh(int pusher, int seq) {
    N* n = &nodes[n_nodes++];
    n->pusher = pusher;
    n->seq = seq;
    return n;
  }
};

static void take(std::vector<Removal>& out, int by, N* top, int max) {
  Removal r{by, {}};
  for (N* n = top; n; n = n->next) {
    (void)*(volatile int*)&n->seq;
    r.v.push_back(n);
    MC_CHECK((int)r.v.size() <= max, "a removal returned a chain longer than all nodes");
  }
  out.push_back(std::move(r));
}

// every node exactly once, newest first per pusher inside a removal, older before newer across the
// removals of one thread, chains contiguous and in order
static void verify(const std::vector<Removal>& rem, int expected, const char* what) {
  std::vector<N*> all;
  for (auto& r : rem)
    for (N* n : r.v) {
      for (N* m : all) MC_CHECK(n != m, "%s: node of pusher %d seq %d handed out twice", what, n->pusher, n->seq);
      all.push_back(n);
    }
  MC_CHECK((int)all.size() == expected, "%s: %d of %d nodes handed out", what, (int)all.size(), expected);
  for (auto& r : rem)
    for (size_t i = 0; i < r.v.size(); i++) {
      N* n = r.v[i];
      for (size_t j = i + 1; j < r.v.size(); j++)
        if (r.v[j]->pusher == n->pusher && !(r.v[j]->chain == n->chain && n->chain >= 0))
          MC_CHECK(r.v[j]->seq < n->seq, "%s: pusher %d: %d before %d in one removal", what, n->pusher, n->seq, r.v[j]->seq);
      if (n->chain >= 0 && n->pos == 0)
        for (size_t k = i; k < r.v.size() && r.v[k]->chain == n->chain; k++) MC_CHECK(r.v[k]->pos == (int)(k - i), "%s: chain out of order", what);
      if (n->chain >= 0 && n->pos > 0)
        MC_CHECK(i > 0 && r.v[i - 1]->chain == n->chain && r.v[i - 1]->pos == n->pos - 1, "%s: chain torn apart", what);
    }
  for (size_t a = 0; a < rem.size(); a++)
    for (size_t b = a + 1; b < rem.size(); b++)
      if (rem[a].by == rem[b].by || rem[b].by == 99)
        for (N* x : rem[a].v)
          for (N* y : rem[b].v)
            if (x->pusher == y->pusher) MC_CHECK(x->seq <= y->seq, "%s: a newer node of pusher %d was removed first", what, x->pusher);
}

static void outcome(const std::vector<Removal>& rem) {
  std::string s;
  for (auto& r : rem) {
    s += "[";
    for (N* n : r.v) s += std::to_string(n->pusher * 10 + n->seq) + " ";
    s += "]";
  }
  mc_outcome("%s", s.c_str());
}

// threads with op lists from {push, push chain of 2, pop all}, every assignment of lists explored
template <int T, int OPS>
static void ops_scenario() {
  Stack s;
  N nodes[T][OPS * 2];
  std::vector<Removal> rem[T];
  int ops[T][OPS];
  int expected = 0;
  for (int t = 0; t < T; t++)
    for (int i = 0; i < OPS; i++) {
      ops[t][i] = mc::choose(3, "op");
      expected += ops[t][i] == 0 ? 1 : ops[t][i] == 1 ? 2 : 0;
    }
  auto body = [&](int t) {
    int k = 0;
    for (int i = 0; i < OPS; i++) {
      if (ops[t][i] == 0) {
        N* n = &nodes[t][k++];
        n->pusher = t;
        n->seq = i;
        s.push(n);
      } else if (ops[t][i] == 1) {
        N* a = &nodes[t][k++];
        N* b = &nodes[t][k++];
        a->pusher = b->pusher = t;
        a->seq = b->seq = i;
        a->chain = b->chain = t * 10 + i;
        a->pos = 0;
        b->pos = 1;
        a->next = b;
        s.push_stack(a);
      } else {
        take(rem[t], t, s.try_pop_all(), T * OPS * 2);
      }
    }
  };
  std::vector<std::thread> th;
  for (int t = 1; t < T; t++) th.emplace_back(body, t);
  body(0);
  for (auto& x : th) x.join();
  std::vector<Removal> all;
  for (int t = 0; t < T; t++)
    for (auto& r : rem[t]) all.push_back(r);
  take(all, 99, s.try_pop_all(), T * OPS * 2);
  verify(all, expected, "ops");
  outcome(all);
  MC_CHECK(s.try_pop_all() == nullptr, "the stack is not empty after removing everything");
}

MC_SCENARIO(two_threads_two_ops, 5, 7, "2 threads x 2 ops from {push, push chain, pop all}, all combinations") { ops_scenario<2, 2>(); }
MC_SCENARIO(two_threads_three_ops, 2, 4, "2 threads x 3 ops, all combinations") { ops_scenario<2, 3>(); }
MC_SCENARIO(three_threads_one_op, 5, 8, "3 threads x 1 op, all combinations") { ops_scenario<3, 1>(); }
MC_SCENARIO(three_threads_two_ops, 1, 3, "3 threads x 2 ops, all combinations") { ops_scenario<3, 2>(); }

// two pushers against a remover that takes twice
MC_SCENARIO(two_pushers_one_remover, 5, 7, "2 pushers x 2 pushes against 2 removals") {
  Stack s;
  N nodes[2][2];
  std::vector<Removal> rem;
  auto pusher = [&](int t) {
    for (int i = 0; i < 2; i++) {
      nodes[t][i].pusher = t;
      nodes[t][i].seq = i;
      s.push(&nodes[t][i]);
    }
  };
  std::thread a(pusher, 0), b(pusher, 1);
  for (int i = 0; i < 2; i++) take(rem, 7, s.try_pop_all(), 4);
  a.join();
  b.join();
  take(rem, 99, s.try_pop_all(), 4);
  verify(rem, 4, "2 pushers");
  outcome(rem);
}

// removers put the chain they took back (as top of another stack); nothing may be lost or doubled
MC_SCENARIO(take_and_put_back, 6, 9, "removed chains are pushed back while others push and remove") {
  Stack s;
  N nodes[4];
  for (int i = 0; i < 4; i++) nodes[i].pusher = i;
  s.push(&nodes[0]);
  s.push(&nodes[1]);
  std::vector<Removal> rem;
  std::thread a([&] {
    N* c = s.try_pop_all();
    s.push_stack(c);
  });
  std::thread b([&] { s.push(&nodes[2]); });
  int who = mc::choose(3, "main");
  if (who == 0) s.push(&nodes[3]);
  if (who == 1) take(rem, 7, s.try_pop_all(), 4);
  if (who == 2) s.push_stack(s.try_pop_all());
  a.join();
  b.join();
  take(rem, 99, s.try_pop_all(), 4);
  std::vector<N*> all;
  for (auto& r : rem)
    for (N* n : r.v) {
      for (N* m : all) MC_CHECK(n != m, "node %d handed out twice", n->pusher);
      all.push_back(n);
    }
  MC_CHECK((int)all.size() == (who == 0 ? 4 : 3), "%d nodes handed out", (int)all.size());
  for (auto& r : rem) {  // 0 and 1 went in as 1 -> 0 and only ever moved together
    int p0 = -1, p1 = -1;
    for (size_t i = 0; i < r.v.size(); i++) {
      if (r.v[i] == &nodes[0]) p0 = i;
      if (r.v[i] == &nodes[1]) p1 = i;
    }
    MC_CHECK((p0 < 0) == (p1 < 0) && (p0 < 0 || p0 > p1), "the order of a re-pushed chain changed");
  }
  std::string o;
  for (auto& r : rem) {
    o += "[";
    for (N* n : r.v) o += std::to_string(n->pusher);
    o += "]";
  }
  mc_outcome("%d %s", who, o.c_str());
}

// the same node goes through the stack again and again
MC_SCENARIO(node_reuse, 6, 8, "nodes are pushed again by whoever removed them") {
  Stack s;
  N nodes[2];
  static int owned[2];  // touched only by the owner of the node: the race detector checks hand-over
  owned[0] = owned[1] = 0;
  auto body = [&](int t) {
    N* mine = &nodes[t];
    for (int i = 0; i < 2; i++) {
      if (mine) {
        owned[mine - nodes]++;
        s.push(mine);
      }
      mine = nullptr;
      N* c = s.try_pop_all();
      while (c) {
        N* nx = c->next;
        owned[c - nodes] += 10;
        if (!mine) mine = c;
        else s.push(c);
        c = nx;
      }
    }
    if (mine) s.push(mine);
  };
  std::thread a(body, 1);
  body(0);
  a.join();
  int cnt = 0;
  N* c = s.try_pop_all();
  bool seen[2] = {};
  for (; c; c = c->next) {
    MC_CHECK(!seen[c - nodes], "node twice");
    seen[c - nodes] = true;
    MC_CHECK(++cnt <= 2, "chain too long");
  }
  MC_CHECK(cnt == 2, "%d of 2 nodes left", cnt);
  mc_outcome("%d %d", owned[0], owned[1]);
}

MC_SCENARIO(sequential, 0, 0, "every sequence of 5 operations against a list") {
  Stack s;
  N nodes[12];
  int k = 0;
  std::vector<N*> model;
  for (int i = 0; i < 5; i++) {
    switch (mc::choose(5, "op")) {
      case 0:
        nodes[k].next = mc::flip("stale next") ? &nodes[11] : nullptr;  // next need not be null before a push
        s.push(&nodes[k]);
        model.insert(model.begin(), &nodes[k++]);
        break;
      case 1: {
        N* c = s.try_pop_all();
        for (N* m : model) {
          MC_CHECK(c == m, "wrong node");
          c = c->next;
        }
        MC_CHECK(!c, "chain does not end");
        model.clear();
        break;
      }
      case 2: {
        N *a = &nodes[k], *b = &nodes[k + 1];
        k += 2;
        a->next = b;
        b->next = nullptr;
        s.push_stack(a);
        model.insert(model.begin(), {a, b});
        break;
      }
      case 3: s.push_stack(nullptr); break;
      case 4: {
        N* a = &nodes[k++];
        a->next = nullptr;
        s.push_stack(a);
        model.insert(model.begin(), a);
        break;
      }
    }
  }
  N* c = s.try_pop_all();
  for (N* m : model) {
    MC_CHECK(c == m, "wrong node at the end");
    c = c->next;
  }
  MC_CHECK(!c, "chain does not end");
}

MC_SCENARIO(many, 0, 1, "500 nodes pushed one by one and as chains by two threads") {
  struct N {
    N* next = nullptr;
    int owner = -1, id = -1;
  };
  static N n[2][250];
  dd::nonowner_lockfree_stack<N> s;
  auto feed = [&](int t) {
    for (int i = 0; i < 250; i++) {
      n[t][i].owner = t;
      n[t][i].id = i;
    }
    for (int i = 0; i < 100; i++) s.push(&n[t][i]);
    for (int i = 249; i > 100; i--) n[t][i].next = &n[t][i - 1];  // newest first
    n[t][100].next = nullptr;
    s.push_stack(&n[t][249]);
  };
  std::thread a(feed, 0);
  feed(1);
  a.join();
  int last[2] = {250, 250}, count = 0;
  for (N* x = s.try_pop_all(); x; x = x->next) {
    MC_CHECK(x->owner >= 0 && x->id == last[x->owner] - 1, "node %d of thread %d after node %d", x->id, x->owner, last[x->owner]);
    last[x->owner] = x->id;
    MC_CHECK(++count <= 500, "a cycle");
  }
  MC_CHECK(count == 500 && !s.try_pop_all(), "%d nodes", count);
}

int main(int c, char** v) { return mc_main(c, v); }
