// C22: coroutine frames come from the chosen memory resource and go back to it
#include "res.h"
#include <array>
#include <kelcoro/async_task.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/job.hpp>
#include <kelcoro/logical_thread.hpp>
#include <kelcoro/stack_memory_resource.hpp>
#include <kelcoro/task.hpp>
#include <kelcoro/thread_pool.hpp>

namespace {
struct Boom {};

// where the frames come from
struct Sink {
  struct B {
    void* p;
    size_t n;
  };
  std::vector<B> live;
  int taken = 0, given = 0;
  bool fail = false;
  void* allocate(size_t n) {
    mc::quiet q;
    if (fail) throw std::bad_alloc();
    void* p = ::operator new(n, std::align_val_t(16));
    live.push_back({p, n});
    taken++;
    return p;
  }
  void deallocate(void* p, size_t n) {
    mc::quiet q;
    for (size_t i = 0; i < live.size(); i++)
      if (live[i].p == p) {
        MC_CHECK(live[i].n == n, "deallocated with size %zu, allocated with %zu", n, live[i].n);
        live.erase(live.begin() + i);
        given++;
        ::operator delete(p, std::align_val_t(16));
        return;
      }
    mc_fail("deallocated memory that is not of this resource");
  }
};
Sink* sinks[2];

// resources of several shapes; the default constructed ones use sinks[1]
struct Empty {
  static void* allocate(size_t n) { return sinks[1]->allocate(n); }
  static void deallocate(void* p, size_t n) noexcept { sinks[1]->deallocate(p, n); }
};
struct Ptr {
  Sink* s = sinks[1];
  void* allocate(size_t n) { return s->allocate(n); }
  void deallocate(void* p, size_t n) noexcept { s->deallocate(p, n); }
};
struct alignas(16) Wide {
  Sink* s = sinks[1];
  size_t guard[5] = {1, 2, 3, 4, 5};
  void* allocate(size_t n) {
    check();
    return s->allocate(n);
  }
  void check() {
    MC_CHECK((uintptr_t)this % 16 == 0, "the stored resource is not aligned");
    for (size_t i = 0; i < 5; i++) MC_CHECK(guard[i] == i + 1, "the stored resource was overwritten");
  }
  void deallocate(void* p, size_t n) noexcept {
    check();
    s->deallocate(p, n);
  }
};
struct Byte {
  unsigned char i = 1;
  void* allocate(size_t n) { return sinks[i]->allocate(n); }
  void deallocate(void* p, size_t n) noexcept {
    MC_CHECK(i < 2, "the stored resource was overwritten");
    sinks[i]->deallocate(p, n);
  }
};
// knows all of its living instances
struct Registered {
  static inline std::vector<const void*> alive;
  Registered() { add(); }
  Registered(const Registered&) { add(); }
  Registered& operator=(const Registered&) { return *this; }
  void add() {
    mc::quiet q;
    for (const void* x : alive) MC_CHECK(x != this, "constructed over a living resource");
    alive.push_back(this);
  }
  ~Registered() {
    mc::quiet q;
    for (auto& x : alive)
      if (x == this) {
        x = alive.back();
        alive.pop_back();
        return;
      }
    mc_fail("destroyed a resource that is not alive");
  }
  static void begin() {
    mc::quiet q;
    alive.clear();
    alive.reserve(64);
  }
  static void all_gone() {
    mc::quiet q;
    MC_CHECK(alive.empty(), "%zu resource objects were never destroyed", alive.size());
    std::vector<const void*>().swap(alive);
  }
};
// resource that owns something: has to live until the deallocation is over, and die exactly once
struct Owner {
  Sink* s = sinks[1];
  Probe alive{42};
  Registered reg;
  Owner() = default;
  Owner(Sink* s) : s(s) {}
  Owner(const Owner&) = default;
  Owner(Owner&&) noexcept = default;
  void* allocate(size_t n) {
    MC_CHECK(alive.get() == 42, "allocation from a resource that is not alive");
    return s->allocate(n);
  }
  void deallocate(void* p, size_t n) noexcept {
    MC_CHECK(alive.get() == 42, "deallocation through a resource that is not alive");
    s->deallocate(p, n);
    MC_CHECK(alive.get() == 42, "resource died during the deallocation");
  }
};
// the same, not copyable
struct Sole {
  Sink* s = sinks[1];
  std::unique_ptr<int> alive{new int(42)};
  Registered reg;
  Sole() = default;
  Sole(Sink* s) : s(s) {}
  Sole(Sole&&) noexcept = default;
  void* allocate(size_t n) {
    MC_CHECK(alive && *alive == 42, "allocation from a resource that is not alive");
    return s->allocate(n);
  }
  void deallocate(void* p, size_t n) noexcept {
    MC_CHECK(alive && *alive == 42, "deallocation through a resource that is not alive");
    s->deallocate(p, n);
    MC_CHECK(alive && *alive == 42, "resource died during the deallocation");
  }
};

// throws when it is copied into the frame, if told so
int arg_throws;  // the so many-th copy or move of an Arg throws
struct Arg {
  Probe p{7};
  Arg() = default;
  Arg(const Arg& o) : p(o.p) {
    if (arg_throws && !--arg_throws) throw Boom{};
  }
  Arg(Arg&& o) : p(std::move(o.p)) {
    if (arg_throws && !--arg_throws) throw Boom{};
  }
};
enum { RETURNS, THROWS, STOPS };
std::coroutine_handle<> stopped;
struct stop_here {
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> h) { stopped = h; }
  void await_resume() {}
};
// bodies ------------------------------------------------------------------------------------------
#define TASK_BODY                                       \
  Probe local(9);                                       \
  char big[40] = {};                                    \
  if (mode == STOPS) co_await stop_here{};              \
  MC_CHECK(a.p.get() == 7 && local.get() == 9 && big[39] == 0, "frame damaged"); \
  if (mode == THROWS) throw Boom{};
#define GEN_BODY                                        \
  Probe local(9);                                       \
  co_yield 1;                                           \
  MC_CHECK(a.p.get() == 7 && local.get() == 9, "frame damaged"); \
  if (mode == THROWS) throw Boom{};                     \
  co_yield 2;
template <typename W>
dd::task<int> task_a(Arg a, int mode, W) {
  TASK_BODY co_return 5;
}
template <typename R>
dd::task_r<int, R> task_t(Arg a, int mode) {
  TASK_BODY co_return 5;
}
template <typename W>
dd::generator<int> gen_a(Arg a, int mode, W) {
  GEN_BODY
}
template <typename R>
dd::generator_r<int, R> gen_t(Arg a, int mode) {
  GEN_BODY
}
template <typename W>
dd::channel<int> chan_a(Arg a, int mode, W) {
  GEN_BODY
}
template <typename R>
dd::channel_r<int, R> chan_t(Arg a, int mode) {
  GEN_BODY
}
template <typename W>
dd::async_task<int> async_a(Arg a, int mode, W) {
  TASK_BODY co_return 5;
}
template <typename R>
dd::async_task_r<int, R> async_t(Arg a, int mode) {
  TASK_BODY co_return 5;
}
template <typename W>
dd::logical_thread lt_a(Arg a, int mode, W) {
  TASK_BODY
}
template <typename R>
dd::logical_thread_r<R> lt_t(Arg a, int mode) {
  TASK_BODY
}
template <typename W>
dd::job job_a(Arg a, int mode, W) {
  TASK_BODY
}
template <typename R>
dd::job_r<R> job_t(Arg a, int mode) {
  TASK_BODY
}
// lives -------------------------------------------------------------------------------------------
// after creation exactly one block is taken
void taken(Sink& s, int n = 1) { MC_CHECK(s.taken == n && s.given == 0 && sinks[&s == sinks[0]]->taken == 0, "frame took %d blocks of its resource and %d of another, gave back %d", s.taken, sinks[&s == sinks[0]]->taken, s.given); }

template <typename F>
void task_life(F make, Sink& s) {
  int mode = mc::choose(3, "mode");
  dd::task<int> t = make(Arg{}, mode).decay();
  taken(s);
  if (mode == STOPS) {
    t.start_and_detach();
    if (mc::flip("resume")) stopped.resume();
    else stopped.destroy();
    return;
  }
  switch (mc::choose(4, "life")) {
    case 0: return;  // never started
    case 1:
      try {
        int v = t.get();
        MC_CHECK(v == 5 && mode == RETURNS, "value");
      } catch (Boom&) {
        MC_CHECK(mode == THROWS, "exception");
      }
      return;
    case 2: t.start_and_detach(); return;
    case 3: {
      auto h = t.start_and_detach(true);
      MC_CHECK(h.done() && s.given == 0, "not done");
      h.destroy();
    }
  }
}
template <typename F>
void gen_life(F make, Sink& s) {
  int mode = mc::choose(2, "mode");
  auto outer = [](dd::generator<int>& g) -> dd::generator<int> {
    co_yield 0;
    co_yield dd::elements_of(std::move(g));
    co_yield 3;
  };
  dd::generator<int> g = make(Arg{}, mode).decay();
  taken(s);
  int stop_after = mc::choose(4, "values before the break"), n = 0;
  bool nested = mc::flip("nested");
  try {
    if (nested) {
      for (int x : outer(g)) {
        (void)x;
        if (++n > stop_after) break;
      }
    } else if (stop_after) {
      for (int x : g) {
        (void)x;
        if (++n >= stop_after) break;
      }
    }
  } catch (Boom&) {
    MC_CHECK(mode == THROWS, "exception");
  }
}
co consume(dd::channel<int>& c, int stop_after, int mode, bool& over) {
  int n = 0;
  try {
    if (stop_after)
      co_foreach(int x, c) {
        (void)x;
        if (++n >= stop_after) break;
      }
  } catch (Boom&) {
    MC_CHECK(mode == THROWS, "exception");
  }
  over = true;
}
template <typename F>
void chan_life(F make, Sink& s) {
  int mode = mc::choose(2, "mode");
  auto outer = [](dd::channel<int>& g) -> dd::channel<int> {
    co_yield 0;
    co_yield dd::elements_of(std::move(g));
    co_yield 3;
  };
  dd::channel<int> g = make(Arg{}, mode).decay();
  taken(s);
  int stop_after = mc::choose(4, "values before the break");
  bool over = false;
  if (mc::flip("nested")) {
    dd::channel<int> o = outer(g);
    consume(o, stop_after, mode, over);
  } else consume(g, stop_after, mode, over);
  MC_CHECK(over, "consumer did not end");
}
template <typename F>
void async_life(F make, Sink& s) {
  int mode = mc::choose(3, "mode");
  dd::async_task<int> t = make(Arg{}, mode).decay();
  taken(s);
  bool early = mc::flip("detach early");
  if (early) t.detach();
  if (mode == STOPS) {
    stopped.resume();
  }
  if (!early && mc::flip("get")) try {
      MC_CHECK(t.get() == 5, "value");
    } catch (Boom&) {
      MC_CHECK(mode == THROWS, "exception");
    }
}
template <typename F>
void lt_life(F make, Sink& s) {
  int mode = mc::flip("stops") ? STOPS : RETURNS;
  dd::logical_thread t = make(Arg{}, mode).decay();
  taken(s);
  int how = mc::choose(3, "how");
  if (how == 0) t.detach();
  if (mode == STOPS) stopped.resume();
  if (how == 1) t.join();
}
template <typename F>
void job_life(F make, Sink& s, bool by_type = false) {
  // by_type: clang 18 at -O0 keeps the unconverted return object (job, to be made job_r) in the frame
  // although a job that is over is gone by then; not the library's doing, so such a job stops once
  int mode = by_type || mc::flip("stops") ? STOPS : RETURNS;
  make(Arg{}, mode);
  MC_CHECK(s.taken == 1, "not allocated from the resource");
  if (mode == STOPS) {
    taken(s);
    if (mc::flip("resume")) stopped.resume();
    else stopped.destroy();
  }
}
// a job ends before its creator can look, so it has no decay()
template <typename T>
struct has_decay : T {
  T&& decay() { return std::move(*this); }
};
template <typename T>
auto dec(T&& t) {
  if constexpr (requires { t.decay(); }) return std::move(t);
  else return has_decay<T>{std::move(t)};
}
// one coroutine kind, the resource given by argument (tag) or by type
template <typename R>
void by_argument(int kind, R r, Sink& s) {
  dd::with_resource<R> w(std::move(r));
#define WITH(f) [&](Arg&& a, int m) { return dec(f<dd::with_resource<R>>(std::move(a), m, std::move(w))); }
  switch (kind) {
    case 0: task_life(WITH(task_a), s); break;
    case 1: gen_life(WITH(gen_a), s); break;
    case 2: chan_life(WITH(chan_a), s); break;
    case 3: async_life(WITH(async_a), s); break;
    case 4: lt_life(WITH(lt_a), s); break;
    case 5: job_life(WITH(job_a), s); break;
  }
#undef WITH
}
template <typename R>
void by_type(int kind, Sink& s) {
#define WITH(f) [&](Arg&& a, int m) { return dec(f<R>(std::move(a), m)); }
  switch (kind) {
    case 0: task_life(WITH(task_t), s); break;
    case 1: gen_life(WITH(gen_t), s); break;
    case 2: chan_life(WITH(chan_t), s); break;
    case 3: async_life(WITH(async_t), s); break;
    case 4: lt_life(WITH(lt_t), s); break;
    case 5: job_life(WITH(job_t), s, true); break;
  }
#undef WITH
}
void world(auto&& f, int frames = 1) {
  arg_throws = 0;
  stopped = nullptr;
  Sink a, b;
  sinks[0] = &a;
  sinks[1] = &b;
  Registered::begin();
  f();
  Registered::all_gone();
  MC_CHECK(a.live.empty() && b.live.empty() && a.taken + b.taken == frames, "frame memory: %zu + %zu blocks kept, %d taken", a.live.size(), b.live.size(), a.taken + b.taken);
  sinks[0] = sinks[1] = nullptr;
}
// the allocation, or the copy of an argument into the frame, fails
template <typename F>
void failing(F f) {
  Sink a, b;
  sinks[0] = &a;
  sinks[1] = &b;
  long blocks = mc_live_blocks();
  bool alloc = mc::flip("allocation fails");
  Registered::begin();
  bool thrown = false;
  arg_throws = 0;
  try {
    Arg x;
    if (alloc) a.fail = b.fail = true;
    else arg_throws = 2;  // the first move is into the parameter, the second one into the frame
    f(x);
  } catch (std::bad_alloc&) {
    MC_CHECK(alloc, "bad_alloc");
    thrown = true;
  } catch (Boom&) {
    MC_CHECK(!alloc, "exception");
    thrown = true;
  }
  arg_throws = 0;
  MC_CHECK(thrown, "the failure was not reported");
  Registered::all_gone();
  MC_CHECK(a.live.empty() && b.live.empty(), "frame memory not returned");
  MC_CHECK(a.given == a.taken && b.given == b.taken && a.taken + b.taken == !alloc, "taken %d", a.taken + b.taken);
  a.live = {};
  b.live = {};
  a.live.shrink_to_fit();
  b.live.shrink_to_fit();
  MC_CHECK(mc_live_blocks() == blocks, "leaked %ld blocks", mc_live_blocks() - blocks);
  sinks[0] = sinks[1] = nullptr;
}
int kind() { return mc::choose(6, "kind"); }
}  // namespace

MC_SCENARIO(argument_ptr, 0, 0, "every coroutine kind and life; resource: trivially destructible, by argument") {
  world([] { by_argument<Ptr>(kind(), Ptr{sinks[0]}, *sinks[0]); });
}
MC_SCENARIO(argument_chunk_from, 0, 0, "the same through chunk_from<Sink>") {
  world([] { by_argument<dd::chunk_from<Sink>>(kind(), dd::chunk_from<Sink>(*sinks[0]), *sinks[0]); });
}
MC_SCENARIO(argument_owner, 0, 0, "the same with a resource that owns something") {
  world([] { by_argument<Owner>(kind(), Owner(sinks[0]), *sinks[0]); });
}
MC_SCENARIO(argument_sole, 0, 0, "the same with a resource that can only be moved") {
  world([] { by_argument<Sole>(kind(), Sole(sinks[0]), *sinks[0]); });
}
MC_SCENARIO(argument_wide, 0, 0, "the same with a big over-aligned resource") {
  world([] { by_argument<Wide>(kind(), Wide{sinks[0]}, *sinks[0]); });
}
MC_SCENARIO(argument_byte, 0, 0, "the same with a resource of one byte") {
  world([] { by_argument<Byte>(kind(), Byte{0}, *sinks[0]); });
}
MC_SCENARIO(argument_empty, 0, 0, "the same with an empty resource") {
  world([] { by_argument<Empty>(kind(), Empty{}, *sinks[1]); });
}
MC_SCENARIO(type_empty, 0, 0, "every coroutine kind and life; resource fixed by the type: empty") {
  world([] { by_type<Empty>(kind(), *sinks[1]); });
}
MC_SCENARIO(type_ptr, 0, 0, "resource fixed by the type: default constructed, trivially destructible") {
  world([] { by_type<Ptr>(kind(), *sinks[1]); });
}
MC_SCENARIO(type_owner, 0, 0, "resource fixed by the type: default constructed, owning") {
  world([] { by_type<Owner>(kind(), *sinks[1]); });
}
MC_SCENARIO(type_sole, 0, 0, "resource fixed by the type: default constructed, move-only") {
  world([] { by_type<Sole>(kind(), *sinks[1]); });
}
MC_SCENARIO(type_wide, 0, 0, "resource fixed by the type: big, over-aligned") {
  world([] { by_type<Wide>(kind(), *sinks[1]); });
}
MC_SCENARIO(type_byte, 0, 0, "resource fixed by the type: one byte") {
  world([] { by_type<Byte>(kind(), *sinks[1]); });
}
#define FAIL_ARG(R, ...)                                              \
  failing([](Arg& x) {                                                \
    dd::with_resource<R> w{__VA_ARGS__};                              \
    switch (kind()) {                                                 \
      case 0: task_a<dd::with_resource<R>>(std::move(x), 0, w); break;   \
      case 1: gen_a<dd::with_resource<R>>(std::move(x), 0, w); break;    \
      case 2: chan_a<dd::with_resource<R>>(std::move(x), 0, w); break;   \
      case 3: async_a<dd::with_resource<R>>(std::move(x), 0, w); break;  \
      case 4: lt_a<dd::with_resource<R>>(std::move(x), 0, w); break;     \
      case 5: job_a<dd::with_resource<R>>(std::move(x), 0, w); break;    \
    }                                                                 \
  })
MC_SCENARIO(fails_ptr, 0, 0, "failed allocation or argument copy: reported, nothing leaks") { FAIL_ARG(Ptr, Ptr{sinks[0]}); }
MC_SCENARIO(fails_owner, 0, 0, "the same with an owning resource") { FAIL_ARG(Owner, Owner(sinks[0])); }
MC_SCENARIO(fails_empty, 0, 0, "the same with an empty resource") { FAIL_ARG(Empty, Empty{}); }

// frames of many sizes: the resource behind the frame stays where it is aligned
template <typename R, size_t N>
static dd::generator<int> sized(std::array<unsigned char, N> x, dd::with_resource<R>) {
  for (size_t i = 0; i < N; i++) MC_CHECK(x[i] == 0xEE, "frame damaged");
  for (auto& c : x) c = 0xFF;
  co_yield 1;
  for (auto& c : x) c = 0xFF;
}
template <typename R>
static void sizes(R r) {
  world([&] {
    r = R{};
    auto go = [&]<size_t N>() {
      std::array<unsigned char, N> x;
      x.fill(0xEE);
      auto g = sized<R, N>(x, std::move(r));
      if (mc::flip("run"))
        for (int v : g) MC_CHECK(v == 1, "value");
    };
    switch (mc::choose(9, "size")) {
      case 0: go.template operator()<1>(); break;
      case 1: go.template operator()<7>(); break;
      case 2: go.template operator()<8>(); break;
      case 3: go.template operator()<9>(); break;
      case 4: go.template operator()<15>(); break;
      case 5: go.template operator()<16>(); break;
      case 6: go.template operator()<24>(); break;
      case 7: go.template operator()<33>(); break;
      case 8: go.template operator()<200>(); break;
    }
  });
}
MC_SCENARIO(padding_wide, 0, 0, "frames of 9 sizes with an over-aligned resource") { sizes(Wide{}); }
MC_SCENARIO(padding_byte, 0, 0, "frames of 9 sizes with a resource of one byte") { sizes(Byte{}); }
MC_SCENARIO(padding_ptr, 0, 0, "frames of 9 sizes with a resource of a pointer") { sizes(Ptr{}); }

// polymorphic resources: size and alignment of each call are checked by Res
template <typename T>
static dd::task<int> pmr_task(T x, dd::with_pmr_resource) { co_return x.get(); }
static dd::generator<int> pmr_gen(int a, dd::with_resource<dd::pmr::polymorphic_resource>) { co_yield a; }
MC_SCENARIO(pmr_argument, 0, 0, "with_pmr_resource and with_resource<polymorphic_resource> as arguments") {
  Res r;
  if (mc::flip("which")) {
    auto t = pmr_task(Probe(3), r);
    MC_CHECK(r.live.size() == 1 && r.live[0].a == dd::coroframe_align(), "frame");
    if (mc::flip("run")) MC_CHECK(t.get() == 3, "value");
  } else {
    auto g = pmr_gen(4, r);
    MC_CHECK(r.live.size() == 1 && r.live[0].a == dd::coroframe_align(), "frame");
    if (mc::flip("run"))
      for (int x : g) MC_CHECK(x == 4, "value");
  }
  MC_CHECK(r.count == 1, "allocations %d", r.count);
}
// the default tag and no tag use the global allocator, one block per frame
static dd::task<int> def_task(Probe p, dd::with_default_resource) { co_return p.get(); }
static dd::task<int> no_task(Probe p) { co_return p.get(); }
static dd::task_r<int, dd::new_delete_resource> type_task(Probe p) { co_return p.get(); }
static dd::task<int> chunk_task(Probe p, dd::with_resource<dd::chunk_from<dd::new_delete_resource>>) { co_return p.get(); }
MC_SCENARIO(default_resource, 0, 0, "with_default_resource and no resource: one block of the global heap") {
  Probe p(3);
  long n = mc_live_blocks();
  {
    int tag = mc::choose(4, "tag");
    dd::task<int> t = tag == 0   ? def_task(std::move(p), {})
                      : tag == 1 ? no_task(std::move(p))
                      : tag == 2 ? std::move(type_task(std::move(p)).decay())
                                 : chunk_task(std::move(p), {});
    MC_CHECK(mc_live_blocks() == n + 1, "frame is not one block");
    if (mc::flip("run")) {
      int v = t.get();
      MC_CHECK(v == 3, "value");
    }
  }
  MC_CHECK(mc_live_blocks() == n - 1, "leak");  // the probe went with the frame
}
// member functions and lambdas: `this` comes first, the tag stays last
struct Obj {
  Probe p{11};
  dd::task<int> member(int a, dd::with_resource<Ptr>) { co_return a + p.get(); }
  dd::task_r<int, Ptr> member_t(int a) { co_return a + p.get(); }
  dd::task<int> only(dd::with_resource<Ptr>) const { co_return p.get(); }
};
MC_SCENARIO(members, 0, 0, "member coroutines and lambdas with a resource tag") {
  world([] {
    Obj o;
    auto l = [&o](dd::with_resource<Ptr> w) -> dd::task<int> { co_return o.p.get(); };
    int k = mc::choose(4, "which");
    dd::task<int> t = k == 0 ? o.member(1, Ptr{sinks[0]}) : k == 1 ? std::move(o.member_t(1).decay()) : k == 2 ? o.only(Ptr{sinks[0]}) : l(Ptr{sinks[0]});
    taken(*sinks[k == 1]);
    int v = t.get();
    MC_CHECK(v == (k < 2 ? 12 : 11), "value %d", v);
  });
}
// two coroutines on one resource, others created meanwhile do not touch it
static dd::task<int> child() { co_return 1; }
static dd::task<int> parent(dd::with_resource<Owner> w) {
  int a = co_await child();
  int b = co_await child();
  co_return a + b;
}
MC_SCENARIO(children_elsewhere, 0, 0, "children without a tag do not use the parent's resource") {
  world([] {
    auto t = parent(Owner(sinks[0]));
    int v = t.get();
    MC_CHECK(v == 2 && sinks[0]->taken == 1, "children used the resource");
  });
}
// frame freed on another thread
static dd::job hop_job(dd::any_executor_ref e, Arg a, dd::with_resource<Owner>) {
  co_await dd::jump_on(e);
  MC_CHECK(a.p.get() == 7, "frame damaged");
}
MC_SCENARIO(freed_on_worker, 12, 20, "a job frame is returned by the thread on which the job ends") {
  Sink a, b;
  sinks[0] = &a;
  sinks[1] = &b;
  arg_throws = 0;
  Registered::begin();
  {
    dd::worker w;
    dd::worker& ref = w;
    hop_job(ref, Arg{}, Owner(&a));
  }
  Registered::all_gone();
  MC_CHECK(a.taken == 1 && a.given == 1 && a.live.empty(), "taken %d given %d", a.taken, a.given);
}
// thread pools
MC_SCENARIO(pool, 12, 14, "a thread pool returns all its memory to its resource; scheduled jobs included") {
  Res r;
  {
    dd::thread_pool p(1 + mc::choose(2, "threads"), dd::default_worker_job, r);
    MC_CHECK(r.count > 0, "the pool takes nothing from its resource");
    auto before = r.count;
    bool hashed = mc::flip("hash");
    auto work = [x = Probe(5)] { MC_CHECK(x.get() == 5, "callable damaged"); };
    if (hashed) p.schedule(std::move(work), 3);
    else p.schedule(std::move(work));
    MC_CHECK(r.count > before, "%d blocks taken from the pool's resource for a scheduled callable", (int)(r.count - before));
    MC_CHECK(&p.get_resource() == &r, "get_resource");
  }
  MC_CHECK(r.live.empty() && r.freed == r.count, "memory not returned");
}
// big frames, many frames
template <typename R, size_t N>
static dd::task<int> big_task(std::array<unsigned char, N> x, dd::with_resource<R>) {
  unsigned char local[N];
  std::fill(local, local + N, 0x77);
  for (size_t i = 0; i < N; i++)
    if (x[i] != 0xEE) mc_fail("frame damaged");
  std::fill(x.begin(), x.end(), 0xFF);
  co_await dd::this_coro::handle;
  for (size_t i = 0; i < N; i++)
    if (local[i] != 0x77) mc_fail("frame damaged");
  co_return 1;
}
template <typename R, size_t N>
static dd::task_r<int, R> big_typed(std::array<unsigned char, N> x) {
  for (size_t i = 0; i < N; i++)
    if (x[i] != 0xEE) mc_fail("frame damaged");
  std::fill(x.begin(), x.end(), 0xFF);
  co_return 1;
}
template <typename R, size_t N>
static void big(R r) {
  std::array<unsigned char, N> x;
  x.fill(0xEE);
  if (mc::flip("resource by type")) {
    auto t = big_typed<R, N>(x);
    if (mc::flip("run")) MC_CHECK(t.get() == 1, "value");
  } else {
    auto t = big_task<R, N>(x, std::move(r));
    if (mc::flip("run")) MC_CHECK(t.get() == 1, "value");
  }
}
template <typename R>
static void big_any(R r) {
  switch (mc::choose(4, "size")) {
    case 0: big<R, 255>(std::move(r)); break;
    case 1: big<R, 4100>(std::move(r)); break;
    case 2: big<R, 33000>(std::move(r)); break;
    case 3: big<R, 66001>(std::move(r)); break;
  }
}
MC_SCENARIO(big_frames, 0, 0, "frames of 255 to 66001 bytes with resources of every shape") {
  world([] {
    switch (mc::choose(5, "resource")) {
      case 0: big_any(Ptr{}); break;
      case 1: big_any(Owner{}); break;
      case 2: big_any(Wide{}); break;
      case 3: big_any(Byte{}); break;
      case 4: big_any(Empty{}); break;
    }
  });
}
static dd::task<int> numbered(int i, Probe p, dd::with_resource<Ptr>) {
  co_await dd::this_coro::handle;
  co_return i + p.get();
}
static dd::generator<int> numbered_gen(int i, Probe p, dd::with_resource<Byte>) {
  co_yield i;
  co_yield i + p.get();
}
MC_SCENARIO(many_frames, 0, 0, "600 coroutines alive at once, on two resources, ended in one of two orders") {
  world([] {
    std::vector<dd::task<int>> t;
    std::vector<dd::generator<int>> g;
    for (int i = 0; i < 300; i++) {
      t.push_back(numbered(i, i, Ptr{sinks[i & 1]}));
      g.push_back(numbered_gen(i, i, Byte{(unsigned char)(i % 3 == 0)}));
    }
    MC_CHECK(sinks[0]->taken + sinks[1]->taken == 600 && sinks[0]->taken == 350, "%d + %d", sinks[0]->taken, sinks[1]->taken);
    bool rev = mc::flip("reverse");
    for (int k = 0; k < 300; k++) {
      int i = rev ? 299 - k : k;
      if (k % 7 == 3) {
        t[i] = {};
        g[i] = {};
        continue;
      }
      int v = t[i].get(), n = 0;
      MC_CHECK(v == 2 * i, "%d", v);
      for (int x : g[i]) {
        MC_CHECK(x == i * (n + 1), "%d", x);
        n++;
      }
    }
  }, 600);
}
// 1 to 17 arguments of mixed kinds, tags of another resource among them; only the last one counts
template <size_t I>
using mixed_t = std::conditional_t<I % 5 == 0, int, std::conditional_t<I % 5 == 1, Probe, std::conditional_t<I % 5 == 2, dd::with_resource<Ptr>, std::conditional_t<I % 5 == 3, const Probe&, dd::with_pmr_resource>>>>;
static int mixed_val(int a) { return a; }
static int mixed_val(const Probe& a) { return a.get(); }
template <typename R>
static int mixed_val(const dd::with_resource<R>&) { return 0; }
template <typename... A>
static dd::task<int> with_many(A... a) {
  co_await dd::this_coro::handle;
  co_return (0 + ... + mixed_val(a));
}
template <typename Last, size_t... I>
static dd::task<int> many_of(std::index_sequence<I...>, Res& r, const Probe& q, Last last) {
  return with_many<mixed_t<I>..., Last>([&]() -> mixed_t<I> {
    if constexpr (I % 5 == 0) return (int)I;
    else if constexpr (I % 5 == 1) return Probe((int)I);
    else if constexpr (I % 5 == 2) return Ptr{sinks[1]};
    else if constexpr (I % 5 == 3) return q;
    else return r;
  }()..., std::move(last));
}
template <size_t N>
static void many_args(int kind) {
  Res r;
  Probe q(7);
  int sum = 0;
  for (size_t i = 0; i < N; i++) sum += i % 5 == 3 ? 7 : i % 5 < 2 ? (int)i : 0;
  {
    std::make_index_sequence<N> is;
    dd::task<int> t = kind == 0 ? many_of<dd::with_resource<Ptr>>(is, r, q, Ptr{sinks[0]}) : kind == 1 ? many_of<dd::with_resource<Owner>>(is, r, q, Owner(sinks[0])) : many_of<int>(is, r, q, 0);
    if (kind == 2) MC_CHECK(!sinks[0]->taken && !sinks[1]->taken, "a tag that is not the last argument was used");
    else taken(*sinks[0]);
    MC_CHECK(!r.count, "a tag that is not the last argument was used");
    if (mc::flip("run")) {
      int v = t.get();
      MC_CHECK(v == sum, "value %d instead of %d", v, sum);
    }
  }
  if (kind == 2) return;
  MC_CHECK(sinks[0]->given == 1, "not given back");
}
MC_SCENARIO(many_arguments, 0, 0, "1 to 17 arguments of mixed kinds, tags of another resource among them: the last one decides") {
  int n = mc::choose(8, "arguments"), kind = mc::choose(3, "last");
  world([&] {
    switch (n) {
      case 0: return many_args<0>(kind);
      case 1: return many_args<1>(kind);
      case 2: return many_args<3>(kind);
      case 3: return many_args<5>(kind);
      case 4: return many_args<8>(kind);
      case 5: return many_args<13>(kind);
      case 6: return many_args<15>(kind);
      case 7: return many_args<16>(kind);
    }
  }, kind == 2 ? 0 : 1);
}
// one tag for several coroutines: by value, by reference, handed on from inside
namespace {
// shares what it owns; copying it cannot fail
struct Shared {
  Sink* s = sinks[1];
  std::shared_ptr<int> alive = std::make_shared<int>(42);
  Registered reg;
  Shared() = default;
  Shared(Sink* s) : s(s) {}
  Shared(const Shared&) noexcept = default;
  Shared(Shared&&) noexcept = default;
  void* allocate(size_t n) {
    MC_CHECK(alive && *alive == 42, "allocation from a resource that is not alive");
    return s->allocate(n);
  }
  void deallocate(void* p, size_t n) noexcept {
    MC_CHECK(alive && *alive == 42, "deallocation through a resource that is not alive");
    s->deallocate(p, n);
    MC_CHECK(alive && *alive == 42, "resource died during the deallocation");
  }
};
template <typename R>
dd::task<int> deep(int n, dd::with_resource<R> r) {
  if (!n) co_return 0;
  int x = co_await deep(n - 1, r);
  int y = co_await deep(0, r);
  co_return x + y + 1;
}
template <typename R>
dd::task<int> by_lvalue(int n, dd::with_resource<R>& r) { co_return n + 0 * sizeof(r); }
template <typename R>
dd::task<int> by_clvalue(int n, const dd::with_resource<R>& r) { co_return n + 0 * sizeof(r); }
template <typename R>
dd::generator<int> counted(int n, dd::with_resource<R> r) {
  if (n) co_yield dd::elements_of(counted(n - 1, r));
  co_yield n;
}
template <typename R>
void tag_again(R r) {
  dd::with_resource<R> w(std::move(r));
  const dd::with_resource<R> cw(w);
  int frames = 0;
  for (int i = 0; i < 2; i++) switch (mc::choose(6, "use")) {
      case 0: MC_CHECK(deep(2, w).get() == 2, "value"); frames += 5; break;
      case 1: MC_CHECK(by_lvalue(3, w).get() == 3, "value"); frames++; break;
      case 2: MC_CHECK(by_clvalue(4, w).get() == 4, "value"); frames++; break;
      case 3: MC_CHECK(by_clvalue(4, cw).get() == 4, "value"); frames++; break;
      case 4: {
        dd::task<int> a = by_lvalue(1, w), b = by_clvalue(2, w), c = deep(0, w), d = deep(0, cw);
        MC_CHECK(a.get() + b.get() + c.get() + d.get() == 3, "value");
        frames += 4;
        break;
      }
      case 5: {
        int n = 0;
        for (int x : counted(2, w)) MC_CHECK(x == n++, "value");
        MC_CHECK(n == 3, "values");
        frames += 3;
      }
    }
  Sink& s = std::is_empty_v<R> ? *sinks[1] : *sinks[0];
  MC_CHECK(s.taken == frames && s.given == frames, "%d frames took %d blocks and gave back %d", frames, s.taken, s.given);
}
void tags(auto&& f) {
  Sink a, b;
  sinks[0] = &a;
  sinks[1] = &b;
  Registered::begin();
  f();
  Registered::all_gone();
  sinks[0] = sinks[1] = nullptr;
}
}  // namespace
MC_SCENARIO(tag_again, 0, 0, "a tag used for several coroutines at once, one after the other, and handed on from inside; 6 kinds of resources") {
  tags([] {
    switch (mc::choose(6, "resource")) {
      case 0: tag_again(Ptr{sinks[0]}); break;
      case 1: tag_again(Wide{sinks[0]}); break;
      case 2: tag_again(Byte{0}); break;
      case 3: tag_again(dd::chunk_from<Sink>(*sinks[0])); break;
      case 4: tag_again(Shared(sinks[0])); break;
      case 5: tag_again(Empty{}); break;
    }
  });
}
int main(int c, char** v) { return mc_main(c, v); }
