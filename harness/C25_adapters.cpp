// C25: executor adapters attach each node exactly once to the executor meant.
#include "exec.h"

// records what it is given; runs nodes when told to
struct Rec {
  std::vector<dd::task_node*> got;
  bool inl = false;
  dd::schedule_errc st = dd::schedule_errc::ok;
  void attach(dd::task_node* n) {
    got.push_back(n);
    MC_CHECK(n && n->task, "an empty node was attached");
    if (inl) {
      n->status = st;
      n->task.resume();
    }
  }
};
static co jmp(auto& e, int id, int* state, std::thread::id* on = nullptr) {
  Probe local(id);
  *state = 1;
  dd::schedule_status s = co_await dd::jump_on(e);
  MC_CHECK(local.get() == id, "");
  if (on) *on = std::this_thread::get_id();
  MC_CHECK((bool)s == (s.what == dd::schedule_errc::ok), "");
  *state = 10 + (int)s.what;
}
MC_SCENARIO(jump_reports, 0, 0, "jump_on: one attach of a suspended coroutine, every status is reported, inline or later") {
  static int st[2];
  st[0] = st[1] = 0;
  Rec r;
  int code = mc::choose(4, "status");
  r.inl = mc::flip("inline");
  r.st = (dd::schedule_errc)code;
  int via = mc::choose(3, "via");
  dd::any_executor_ref ref(r);
  dd::any_executor_ref copy = ref;
  if (via == 0) jmp(r, 0, &st[0]);
  if (via == 1) jmp(ref, 0, &st[0]);
  if (via == 2) jmp(copy, 0, &st[0]);
  MC_CHECK(r.got.size() == 1, "attached %d times", (int)r.got.size());
  if (!r.inl) {
    MC_CHECK(st[0] == 1, "the coroutine went on although the executor has not run it");
    MC_CHECK(r.got[0]->status == dd::schedule_errc::ok, "");
    r.got[0]->status = r.st;
    r.got[0]->task.resume();
  }
  MC_CHECK(st[0] == 10 + code, "state %d", st[0]);
}
static co two_jumps(auto& a, auto& b, int* state) {
  *state = 1;
  MC_CHECK(co_await dd::jump_on(a), "");
  *state = 2;
  MC_CHECK(co_await dd::jump_on(b), "");
  *state = 3;
}
MC_SCENARIO(refs_to_two, 0, 0, "references to two executors, copied and assigned around, stay with their executor") {
  Rec a, b;
  dd::any_executor_ref ra(a), rb(b);
  dd::any_executor_ref ca(ra), cb(std::move(rb));
  dd::any_executor_ref cca = ca;
  static int st;
  st = 0;
  two_jumps(cca, cb, &st);
  MC_CHECK(st == 1 && a.got.size() == 1 && b.got.empty(), "");
  a.got[0]->task.resume();
  MC_CHECK(st == 2 && a.got.size() == 1 && b.got.size() == 1, "");
  b.got[0]->task.resume();
  MC_CHECK(st == 3 && a.got.size() == 1 && b.got.size() == 1, "");
  // a list through a reference
  dd::task_node n[3];
  raw_co c[3];
  auto body = [](int) -> raw_co { co_return; };
  for (int i = 0; i < 3; i++) {
    c[i] = body(i);
    n[i] = {i < 2 ? &n[i + 1] : nullptr, c[i].h};
  }
  a.got.clear();
  dd::attach_list(ra, &n[0]);
  MC_CHECK(a.got.size() == 3 && a.got[0] == &n[0] && a.got[1] == &n[1] && a.got[2] == &n[2], "");
  for (auto& x : c) x.h.destroy();
}
MC_SCENARIO(inline_executor, 0, 0, "this_thread_executor resumes on this thread before attach returns, also through a reference") {
  static int st[3];
  static std::thread::id on[3];
  auto me = std::this_thread::get_id();
  for (int& s : st) s = 0;
  jmp(dd::this_thread_executor, 0, &st[0], &on[0]);
  MC_CHECK(st[0] == 10 && on[0] == me, "");
  dd::this_thread_executor_t e;
  dd::any_executor_ref r(e), r2(r);
  jmp(r2, 1, &st[1], &on[1]);
  MC_CHECK(st[1] == 10 && on[1] == me, "");
  auto body = [](int* s) -> raw_co { *s = 5; co_return; };
  raw_co c = body(&st[2]);
  dd::task_node n{nullptr, c.h};
  r.attach(&n);
  MC_CHECK(st[2] == 5 && c.h.done(), "not run before attach returned");
  c.h.destroy();
}
MC_SCENARIO(noop_executor, 0, 0, "noop_executor never resumes") {
  static int st;
  st = 0;
  auto body = [](int* s) -> raw_co {
    *s = 1;
    (void)co_await dd::jump_on(dd::noop_executor);
    *s = 2;
  };
  raw_co c = body(&st);
  c.h.resume();
  MC_CHECK(st == 1 && !c.h.done(), "");
  dd::noop_executor_t e;
  dd::any_executor_ref r(e);
  dd::task_node n{nullptr, c.h};
  r.attach(&n);
  MC_CHECK(st == 1, "");
  c.h.destroy();
}
MC_SCENARIO(new_thread, 20, 20, "new_thread_executor: each jump on a fresh thread, the submitter's effects visible") {
  static std::thread::id on[2];
  static int st[2];
  static std::atomic<int> done;
  done = 0;
  st[0] = st[1] = 0;
  auto body = [](int id, bool ref) -> co {
    Probe local(id);
    dd::new_thread_executor_t e;
    dd::any_executor_ref r(e);
    st[id] = 1;
    bool ok = ref ? (bool)co_await dd::jump_on(r) : (bool)co_await dd::jump_on(dd::new_thread_executor);
    MC_CHECK(ok && st[id] == 1 && local.get() == id, "");
    on[id] = std::this_thread::get_id();
    st[id] = 2;
    done.fetch_add(1);
  };
  body(0, false);
  body(1, mc::flip("ref"));
  mc_wait_quiescent();
  MC_CHECK(done.load() == 2 && st[0] == 2 && st[1] == 2, "resumed %d times", done.load());
  MC_CHECK(on[0] != on[1] && on[0] != std::this_thread::get_id() && on[1] != std::this_thread::get_id(), "not a fresh thread");
  MC_CHECK(mc_threads_started() == 2 && mc_threads_alive() == 0, "%d threads", mc_threads_started());
}
MC_SCENARIO(new_thread_returns, 8, 20, "attaching to the new-thread executor does not wait for what it started") {
  static std::atomic<int> left, done;
  left = done = 0;
  auto body = [](int id, bool ref) -> co {
    Probe local(id);
    dd::new_thread_executor_t e;
    dd::any_executor_ref r(e);
    if (ref)
      (void)co_await dd::jump_on(r);
    else
      (void)co_await dd::jump_on(dd::new_thread_executor);
    // until the submitter has gone on
    for (int v = left.load(); v != 2; v = left.load()) left.wait(v);
    MC_CHECK(local.get() == id, "");
    done.fetch_add(1);
  };
  for (int id = 0; id < 2; id++) {
    body(id, mc::flip("ref"));
    left.fetch_add(1);
    left.notify_all();
  }
  mc_wait_quiescent();
  MC_CHECK(done.load() == 2, "%d are done", done.load());
}
// attaching kills the node
struct Killer {
  std::vector<int> order;
  struct N : dd::task_node {
    int id;
  };
  void attach(dd::task_node* n) {
    order.push_back(static_cast<N*>(n)->id);
    delete static_cast<N*>(n);
  }
};
MC_SCENARIO(attach_list_order, 0, 0, "attach_list: lists of 0 to 5 nodes that die as soon as they are attached; reversed first or not") {
  Killer k;
  int len = mc::choose(6, "len");
  int rev = mc::choose(3, "reverse");
  bool ref = mc::flip("ref");
  dd::task_node* top = nullptr;
  std::vector<dd::task_node*> all;
  for (int i = len - 1; i >= 0; i--) {
    auto* n = new Killer::N;
    n->id = i;
    n->next = top;
    top = n;
    all.insert(all.begin(), n);
  }
  for (int i = 0; i < rev; i++) {
    top = dd::reverse_list(top);
    int j = 0;
    for (auto* n = top; n; n = n->next, j++) {
      MC_CHECK(j < len, "reverse_list made the list longer");
      MC_CHECK(n == all[i & 1 ? j : len - 1 - j], "reverse_list: wrong node at %d", j);
    }
    MC_CHECK(j == len, "reverse_list lost nodes: %d of %d", j, len);
  }
  if (ref) {
    dd::any_executor_ref r(k);
    dd::attach_list(r, top);
  } else
    dd::attach_list(k, top);
  MC_CHECK((int)k.order.size() == len, "%d of %d nodes attached", (int)k.order.size(), len);
  for (int i = 0; i < len; i++) MC_CHECK(k.order[i] == (rev == 1 ? len - 1 - i : i), "wrong order");
}
MC_SCENARIO(ref_to_worker_and_pool, 8, 12, "references to a worker, a strand, a queue and a pool act like them") {
  static int st[4];
  static std::thread::id on[4];
  for (int& s : st) s = 0;
  dd::worker w;
  dd::thread_pool p(2);
  dd::strand s(w);
  dd::any_executor_ref rw(w), rs(s), rq(s.get_queue()), rp(p);
  int k = mc::choose(4, "which");
  dd::any_executor_ref r = k == 0 ? rw : k == 1 ? rs : k == 2 ? rq : rp;
  jmp(r, 0, &st[0], &on[0]);
  mc_wait_quiescent();
  MC_CHECK(st[0] == 10, "");
  if (k < 3) MC_CHECK(on[0] == w.get_id(), "");
  else MC_CHECK(on[0] == p.workers_range()[0].get_id() || on[0] == p.workers_range()[1].get_id(), "");
}
MC_SCENARIO(list_to_pool, 4, 7, "attach_list of 0-4 coroutines that die as soon as they ran to a pool of 1-3, also through a reference") {
  struct Keep {
    dd::task_node* top = nullptr;
    void attach(dd::task_node* n) {
      n->next = top;
      top = n;
    }
  } keep;
  static int st[4];
  static std::thread::id on[4];
  for (int& s : st) s = 0;
  dd::thread_pool p(1 + mc::choose(3, "threads"));
  int n = mc::choose(5, "len");
  for (int i = 0; i < n; i++) jmp(keep, i, &st[i], &on[i]);
  if (mc::flip("ref")) {
    dd::any_executor_ref r(p);
    dd::attach_list(r, keep.top);
  } else
    dd::attach_list(p, keep.top);
  mc_wait_quiescent();
  for (int i = 0; i < n; i++) {
    MC_CHECK(st[i] == 10, "coroutine %d: state %d", i, st[i]);
    MC_CHECK(p.is_worker(on[i]), "not on a worker");
  }
}
// executors of every kind. All keep what they were given in the executor itself, so that a copy would be noticed
struct Small {  // fits in a pointer, trivially copyable
  dd::task_node* last = nullptr;
  void attach(dd::task_node* n) {
    n->next = last;
    last = n;
  }
};
struct Big {
  dd::task_node* last = nullptr;
  int n = 0;
  char more[40] = {};
  void attach(dd::task_node* x) {
    x->next = last;
    last = x;
    n++;
  }
};
struct Pinned {  // no copy, no move
  dd::task_node* last = nullptr;
  Pinned() = default;
  Pinned(Pinned&&) = delete;
  void attach(dd::task_node* n) noexcept {
    n->next = last;
    last = n;
  }
};
struct Owner {  // copies are not the same
  std::unique_ptr<int> mark{new int(0)};
  dd::task_node* last = nullptr;
  Owner() = default;
  Owner(const Owner& o) : mark(new int(1)), last(o.last) {}
  void attach(dd::task_node* n) {
    MC_CHECK(*mark == 0, "attach on a copy");
    n->next = last;
    last = n;
  }
};
struct ConstAttach {  // what it changes is elsewhere
  mutable dd::task_node* last = nullptr;
  void attach(dd::task_node* n) const {
    n->next = last;
    last = n;
  }
};
template <typename E>
void kind() {
  static int st[3];
  E e, other;
  int via = mc::choose(6, "via");
  int count = mc::choose(3, "count") + 1;
  std::optional<dd::any_executor_ref> from, ref;
  if (via == 1) ref.emplace(e);
  if (via >= 2) {
    from.emplace(via == 5 ? other : e);
    if (via == 5) {
      dd::any_executor_ref third(e);
      from.reset();
      from.emplace(third);  // of a mutable one, which dies
    }
    if (via == 3) ref.emplace(std::move(*from));
    else if (via == 4) ref.emplace(std::as_const(*from));
    else ref.emplace(*from);
    from.reset();
    from.emplace(other);
  }
  for (int i = 0; i < count; i++) {
    st[i] = 0;
    if (via == 0) jmp(e, i, &st[i]);
    else jmp(*ref, i, &st[i]);
    MC_CHECK(st[i] == 1, "not suspended");
  }
  MC_CHECK(!other.last, "attached to another executor");
  dd::task_node* x = e.last;
  for (int i = count - 1; i >= 0; i--) {
    MC_CHECK(x, "%d of %d attached", count - 1 - i, count);
    dd::task_node* next = x->next;
    x->status = (dd::schedule_errc)i;
    x->task.resume();
    x = next;
    for (int k = 0; k < count; k++) MC_CHECK(st[k] == (k < i ? 1 : 10 + k), "state of %d: %d", k, st[k]);
  }
  MC_CHECK(!x, "attached more than once");
}
MC_SCENARIO(kinds, 0, 0, "small, big, immovable, owning and const executors, directly, by reference and by copied references whose source died") {
  switch (mc::choose(5, "kind")) {
    case 0: return kind<Small>();
    case 1: return kind<Big>();
    case 2: return kind<Pinned>();
    case 3: return kind<Owner>();
    case 4: return kind<ConstAttach>();
  }
}
static co on_const(const ConstAttach& e, int* st) {
  *st = 1;
  dd::schedule_status s = co_await dd::jump_on(e);
  *st = 10 + (int)s.what;
}
static co on_temporary(dd::worker& w, int* st, std::thread::id* on) {
  *st = 1;
  dd::schedule_status s = co_await dd::jump_on(dd::strand(w));
  *on = std::this_thread::get_id();
  *st = 10 + (int)s.what;
}
MC_SCENARIO(const_and_temporary, 12, 20, "jumping on const executors and on temporary strands") {
  static int st;
  static std::thread::id on;
  st = 0;
  if (mc::flip("const")) {
    const ConstAttach e;
    on_const(e, &st);
    MC_CHECK(st == 1 && e.last && !e.last->next, "");
    e.last->task.resume();
    MC_CHECK(st == 10, "");
    return;
  }
  dd::worker w;
  on_temporary(w, &st, &on);
  mc_wait_quiescent();
  MC_CHECK(st == 10 && on == w.get_id(), "state %d", st);
}
// an executor whose & is overloaded
struct OddRec : Rec {
  NO_ADDRESS_OF(OddRec)
};
MC_SCENARIO(odd_executor, 0, 0, "a reference to an executor whose & is overloaded; a reference to that reference's copy") {
  static int st;
  st = 0;
  OddRec r;
  dd::any_executor_ref ref(r), copy(ref);
  if (mc::flip("copy")) jmp(copy, 0, &st);
  else jmp(ref, 0, &st);
  MC_CHECK(st == 1 && r.got.size() == 1, "attached %d times", (int)r.got.size());
  r.got[0]->task.resume();
  MC_CHECK(st == 10, "");
}
MC_SCENARIO(long_list, 0, 0, "a list of 1000 nodes is reversed and attached; nodes die at once") {
  Killer k;
  dd::task_node* top = nullptr;
  for (int i = 999; i >= 0; i--) {
    auto* n = new Killer::N;
    n->id = i;
    n->next = top;
    top = n;
  }
  bool rev = mc::flip("reverse");
  if (rev) top = dd::reverse_list(top);
  dd::attach_list(k, top);
  MC_CHECK(k.order.size() == 1000, "%zu nodes attached", k.order.size());
  for (int i = 0; i < 1000; i++) MC_CHECK(k.order[i] == (rev ? 999 - i : i), "place %d: node %d", i, k.order[i]);
}

int main(int c, char** v) { return mc_main(c, v); }
