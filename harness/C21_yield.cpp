// C21: yielding hands over the very object or a private copy, as asked
#include "gen.h"
#include <kelcoro/inplace_generator.hpp>
#include <list>
#include <ranges>
#include <map>

namespace {
int copies, moves, alive;
struct Obj {
  Probe p;
  explicit Obj(int v) : p(v) { alive++; }
  Obj(const Obj& o) : p(o.p) { alive++, copies++; }
  Obj(Obj&& o) noexcept : p(std::move(o.p)) { alive++, moves++; }
  Obj& operator=(const Obj& o) {
    p = o.p;
    copies++;
    return *this;
  }
  Obj& operator=(Obj&& o) noexcept {
    p = std::move(o.p);
    return *this;
  }
  ~Obj() { alive--; }
  int get() const { return p.get(); }
  NO_ADDRESS_OF(Obj)
};
struct MoveOnly {
  std::unique_ptr<int> p;
  explicit MoveOnly(int v) : p(new int(v)) { alive++; }
  MoveOnly(MoveOnly&& o) noexcept : p(std::move(o.p)) { alive++, moves++; }
  MoveOnly& operator=(MoveOnly&& o) noexcept = default;
  ~MoveOnly() { alive--; }
  int get() const { return p ? *p : -1; }
  NO_ADDRESS_OF(MoveOnly)
};
template <typename T>
int val(const T& x) {
  if constexpr (std::is_same_v<T, int>) return x;
  else return x.get();
}
enum Form { TEMP, RVALUE, CONST, LVALUE, BY_REF, ELEMENTS, OF_REFS, OF_OTHER_KIND, AS_REF, NFORMS };
enum Action { READ, MOVE_AWAY, WRITE, NACTIONS };
struct Ctx {
  std::vector<int> forms;
  int left = 0;  // yields to go
  Res* res = nullptr;
  // the value on its way
  const void* addr = nullptr;
  const void* not_addr = nullptr;
  int value = 0, copies0 = 0, moves0 = 0, alive0 = 0, expect_copies = 0;
  bool writable = true;
  int action = -1;  // what the consumer did, -1: not seen yet
  int seen = 0, expect_seen = 0;
  int out_value = 0;

  int next() { return value = 10 + 10 * ++expect_seen; }
  void give(const void* same, const void* other, int ncopies = 0) {
    addr = same;
    not_addr = other;
    copies0 = copies;
    moves0 = moves;
    alive0 = alive;
    expect_copies = ncopies;
    action = -1;
  }
  // the consumer has it
  template <typename V>
  void look(V&& v, bool out = false) {
    using T = std::remove_cvref_t<V>;
    MC_CHECK(action == -1, "seen twice");
    const void* a = std::addressof(v);
    if (addr) MC_CHECK(a == addr, "not the very object");
    if (not_addr) MC_CHECK(a != not_addr, "the original instead of a copy");
    MC_CHECK(val<T>(v) == value, "value %d instead of %d", val<T>(v), value);
    if constexpr (!std::is_same_v<T, int>) {
      MC_CHECK(copies - copies0 == expect_copies, "%d copies", copies - copies0);
      if (addr) MC_CHECK(moves == moves0, "%d moves", moves - moves0);
    }
    seen++;
    action = out ? WRITE : READ;
    if constexpr (!std::is_const_v<std::remove_reference_t<V>>) {
      if (out) return;
      action = mc::choose(writable ? 3 : 1, "consumer");
      if (action == MOVE_AWAY) {
        T taken(std::move(v));
        MC_CHECK(val<T>(taken) == value, "taken");
      } else if (action == WRITE)
        v = T(value + 1);
    }
  }
  int after() const { return action == WRITE ? value + 1 : value; }
  // the body goes on; o is the object that was given away
  template <typename T>
  void original(const T& o) {
    MC_CHECK(action >= 0 && seen == expect_seen, "the body goes on before its value was looked at");
    if (action == MOVE_AWAY) {
      if constexpr (!std::is_same_v<T, int>) MC_CHECK(val(o) == -1, "moved away by the consumer, still there");
    } else
      MC_CHECK(val(o) == after(), "%d in the original object instead of %d", val(o), after());
  }
  template <typename T>
  void untouched(const T& o) {
    MC_CHECK(action >= 0 && seen == expect_seen, "the body goes on before its value was looked at");
    MC_CHECK(val(o) == value, "the consumer changed the original");
    if constexpr (!std::is_same_v<T, int>) MC_CHECK(alive == alive0, "the copy is still alive");
  }
};
template <typename Y, template <typename> typename K>
K<Y&> refs(Ctx& x, Y* o, int n) {
  for (int i = 0; i < n; i++) {
    x.value = val(o[i]);
    x.expect_seen++;
    x.give(std::addressof(o[i]), nullptr);
    co_yield o[i];
    x.original(o[i]);
  }
}
// what a body may do; Y is a value type, a reference or a constant reference
#define PRODUCER                                                                                   \
  using T = std::remove_cvref_t<Y>;                                                                \
  constexpr bool ref = std::is_reference_v<Y>;                                                     \
  constexpr bool cref = ref && std::is_const_v<std::remove_reference_t<Y>>;                        \
  while (x.left-- > 0) {                                                                           \
    int f = x.forms[mc::choose(x.forms.size(), "form")];                                           \
    if (f == TEMP) {                                                                               \
      if constexpr (!ref) {                                                                        \
        int v = x.next();                                                                          \
        x.give(nullptr, nullptr);                                                                  \
        int a = alive;                                                                             \
        co_yield T(v);                                                                             \
        MC_CHECK(x.action >= 0 && alive == a, "temporary");                                        \
      } else if constexpr (cref) {                                                                 \
        int v = x.next();                                                                          \
        x.give(nullptr, nullptr);                                                                  \
        int a = alive;                                                                             \
        co_yield T(v);                                                                             \
        MC_CHECK(x.action >= 0 && alive == a, "temporary");                                        \
      }                                                                                            \
    } else if (f == RVALUE) {                                                                      \
      if constexpr (!ref) {                                                                        \
        T o(x.next());                                                                             \
        x.give(std::addressof(o), nullptr);                                                                 \
        co_yield std::move(o);                                                                     \
        x.original(o);                                                                             \
      }                                                                                            \
    } else if (f == CONST || f == LVALUE) {                                                        \
      if constexpr (!ref && std::is_copy_constructible_v<T>) {                                     \
        T o(x.next());                                                                             \
        x.give(nullptr, std::addressof(o), 1);                                                                    \
        if (f == CONST) co_yield std::as_const(o);                                                 \
        else co_yield o;                                                                           \
        x.untouched(o);                                                                            \
      }                                                                                            \
    } else if (f == BY_REF) {                                                                      \
      if constexpr (!cref) {                                                                       \
        T o(x.next());                                                                             \
        x.give(std::addressof(o), nullptr);                                                                 \
        co_yield dd::by_ref{o};                                                                    \
        x.original(o);                                                                             \
      }                                                                                            \
    } else if (f == AS_REF) {                                                                      \
      if constexpr (ref) {                                                                         \
        T o(x.next());                                                                             \
        x.give(std::addressof(o), nullptr);                                                                 \
        co_yield o;                                                                                \
        x.original(o);                                                                             \
      }                                                                                            \
    }                                                                                              \
    NESTED_FORMS                                                                                   \
  }
#define NESTED_FORMS_FOR_REAL                                                                      \
  else if (f == ELEMENTS) {                                                                        \
    if constexpr (!ref) {                                                                          \
      std::vector<T> v;                                                                            \
      v.emplace_back(x.value + 10);                                                                \
      v.emplace_back(x.value + 20);                                                                \
      struct NotBorrowed : std::ranges::view_interface<NotBorrowed> {                              \
        Ctx* x;                                                                                    \
        std::vector<T>* v;                                                                         \
        struct it {                                                                                \
          Ctx* x;                                                                                  \
          std::vector<T>* v;                                                                       \
          size_t i;                                                                                \
          using value_type = T;                                                                    \
          using difference_type = ptrdiff_t;                                                       \
          T& operator*() const {                                                                   \
            x->value = val((*v)[i]);                                                               \
            x->expect_seen = x->seen + 1;                                                          \
            x->give(std::addressof((*v)[i]), nullptr);                                                            \
            return (*v)[i];                                                                        \
          }                                                                                        \
          it& operator++() {                                                                       \
            x->original((*v)[i]);                                                                  \
            i++;                                                                                   \
            return *this;                                                                          \
          }                                                                                        \
          void operator++(int) { ++*this; }                                                        \
          bool operator==(std::default_sentinel_t) const { return i == v->size(); }                \
        };                                                                                         \
        NotBorrowed(Ctx* x, std::vector<T>* v) : x(x), v(v) {}                                     \
        it begin() const { return {x, v, 0}; }                                                     \
        std::default_sentinel_t end() const { return {}; }                                         \
      };                                                                                           \
      static_assert(!std::ranges::borrowed_range<NotBorrowed> && std::ranges::input_range<NotBorrowed>); \
      co_yield dd::elements_of(NotBorrowed(&x, &v));                                               \
    }                                                                                              \
  }                                                                                                \
  else if (f == OF_REFS) {                                                                         \
    if constexpr (!ref) {                                                                          \
      T o[2] = {T(x.value + 10), T(x.value + 20)};                                                 \
      co_yield dd::elements_of(refs<T, KIND>(x, o, 2));                                            \
    } else if constexpr (!cref) {                                                                  \
      std::vector<T> v;                                                                            \
      v.emplace_back(x.value + 10);                                                                \
      x.value = val(v[0]);                                                                         \
      x.expect_seen++;                                                                             \
      x.give(std::addressof(v[0]), nullptr);                                                                      \
      co_yield dd::elements_of(v);                                                                 \
      x.original(v[0]);                                                                            \
    }                                                                                              \
  }                                                                                                \
  else if (f == OF_OTHER_KIND) {                                                                   \
    if constexpr (!ref) {                                                                          \
      T o[2] = {T(x.value + 10), T(x.value + 20)};                                                 \
      co_yield dd::elements_of(refs<T, dd::generator>(x, o, 2));                                   \
    }                                                                                              \
  }
// generators
#define NESTED_FORMS NESTED_FORMS_FOR_REAL
#define KIND dd::generator
template <typename Y>
dd::generator<Y> gen(Ctx& x) { PRODUCER }
template <typename Y>
dd::generator<Y> gen_arg(Ctx& x, dd::with_pmr_resource) { PRODUCER }
template <typename Y>
dd::pmr::generator<Y> gen_type(Ctx& x) { PRODUCER }
#undef KIND
#define KIND dd::channel
template <typename Y>
dd::channel<Y> chan(Ctx& x) { PRODUCER }
template <typename Y>
dd::channel<Y> chan_arg(Ctx& x, dd::with_pmr_resource) { PRODUCER }
template <typename Y>
dd::pmr::channel<Y> chan_type(Ctx& x) { PRODUCER }
#undef NESTED_FORMS
#define NESTED_FORMS
template <typename Y>
dd::inplace_generator<Y> inplace(Ctx& x) { PRODUCER }

#define NESTING(name, K, PK, plain, arg, type)                                   \
  template <typename Y>                                                          \
  K<Y> name(Ctx& x, int level);                                                  \
  template <typename Y>                                                          \
  K<Y> name##_arg(Ctx& x, int level, dd::with_pmr_resource);                     \
  template <typename Y>                                                          \
  PK<Y> name##_type(Ctx& x, int level);                                          \
  NESTING_BODY(K<Y> name(Ctx & x, int level), name, plain, arg, type)            \
  NESTING_BODY(K<Y> name##_arg(Ctx & x, int level, dd::with_pmr_resource), name, plain, arg, type) \
  NESTING_BODY(PK<Y> name##_type(Ctx & x, int level), name, plain, arg, type)
#define NESTING_BODY(head, name, plain, arg, type)                               \
  template <typename Y>                                                          \
  head {                                                                         \
    dd::pmr::pass_resource(*x.res);                                              \
    switch (mc::choose(3, "flavour")) {                                          \
      case 0:                                                                    \
        if (level) co_yield dd::elements_of(name<Y>(x, level - 1));              \
        else co_yield dd::elements_of(plain<Y>(x));                              \
        break;                                                                   \
      case 1:                                                                    \
        if (level) co_yield dd::elements_of(name##_arg<Y>(x, level - 1, *x.res)); \
        else co_yield dd::elements_of(arg<Y>(x, *x.res));                        \
        break;                                                                   \
      case 2:                                                                    \
        if (level) co_yield dd::elements_of(name##_type<Y>(x, level - 1));       \
        else co_yield dd::elements_of(type<Y>(x));                               \
        break;                                                                   \
    }                                                                            \
  }
NESTING(nest, dd::generator, dd::pmr::generator, gen, gen_arg, gen_type)
NESTING(cnest, dd::channel, dd::pmr::channel, chan, chan_arg, chan_type)

template <typename Y>
dd::generator<Y> any_gen(Ctx& x, int level) {
  dd::pmr::pass_resource(*x.res);
  switch (mc::choose(3, "flavour")) {
    case 0: return level ? nest<Y>(x, level - 1) : gen<Y>(x);
    case 1: return level ? nest_arg<Y>(x, level - 1, *x.res) : gen_arg<Y>(x, *x.res);
    default: return level ? nest_type<Y>(x, level - 1).decay() : gen_type<Y>(x).decay();
  }
}
template <typename Y>
dd::channel<Y> any_chan(Ctx& x, int level) {
  dd::pmr::pass_resource(*x.res);
  switch (mc::choose(3, "flavour")) {
    case 0: return level ? cnest<Y>(x, level - 1) : chan<Y>(x);
    case 1: return level ? cnest_arg<Y>(x, level - 1, *x.res) : chan_arg<Y>(x, *x.res);
    default: return level ? cnest_type<Y>(x, level - 1).decay() : chan_type<Y>(x).decay();
  }
}
template <typename G>
void take(Ctx& x, G& g, bool can_out) {
  if (can_out && mc::flip("output iterator")) {
    using T = typename G::value_type;
    if constexpr (requires(T t) { *g.begin().out() = std::move(t); }) {
      auto it = g.begin();
      auto out = g.cur_iterator().out();
      while (it != g.end()) {
        x.look(*out, true);
        *out = T(x.value + 1);
        if (mc::flip("postfix")) out++;
        else ++out;
      }
      return;
    }
  }
  for (auto&& v : g) x.look(std::forward<decltype(v)>(v));
}
template <typename Y>
co take_from(Ctx& x, dd::channel<Y>& c, bool& done) {
  if (mc::flip("next")) {
    while (auto* p = co_await c.next()) x.look(*p);
  } else
    co_foreach(auto&& v, c) x.look(std::forward<decltype(v)>(v));
  done = true;
}
enum Kind { GEN, CHAN, INPLACE };
template <typename Y>
void run(Kind k, int yields, std::vector<int> forms, int max_level) {
  copies = moves = alive = 0;
  Res r;
  Ctx x;
  x.res = &r;
  x.forms = forms;
  x.left = yields;
  int total = 0;
  {
    int level = k == INPLACE ? 0 : mc::choose(max_level + 1, "nesting");
    if (k == GEN) {
      auto g = any_gen<Y>(x, level);
      constexpr bool writable = !std::is_const_v<std::remove_reference_t<Y>>;
      take(x, g, writable);
      MC_CHECK(g.empty(), "not over");
    } else if (k == CHAN) {
      auto c = any_chan<Y>(x, level);
      bool done = false;
      take_from<Y>(x, c, done);
      MC_CHECK(done && c.empty(), "not over");
    } else {
      auto g = inplace<Y>(x);
      for (auto&& v : g) x.look(std::forward<decltype(v)>(v));
      MC_CHECK(g.empty(), "not over");
    }
    total = x.seen;
  }
  MC_CHECK(total == x.expect_seen && x.left < 0, "seen %d of %d", total, x.expect_seen);
  MC_CHECK(alive == 0, "%d objects left", alive);
  MC_CHECK(r.live.empty(), "memory left");
}
const std::vector<int> values = {TEMP, RVALUE, CONST, LVALUE, BY_REF, ELEMENTS, OF_REFS, OF_OTHER_KIND};
const std::vector<int> move_only = {TEMP, RVALUE, BY_REF, ELEMENTS, OF_REFS, OF_OTHER_KIND};
const std::vector<int> flat = {TEMP, RVALUE, CONST, LVALUE, BY_REF};
const std::vector<int> references = {BY_REF, AS_REF, OF_REFS};
const std::vector<int> const_references = {TEMP, AS_REF};
}  // namespace
MC_SCENARIO(generator_objects, 0, 0, "values with counted copies, every form and consumer action, up to two levels of nesting of every allocation flavour") { run<Obj>(GEN, mc::depth(2, 3), values, 2); }
MC_SCENARIO(generator_move_only, 0, 0, "same, values that can only be moved") { run<MoveOnly>(GEN, mc::depth(2, 3), move_only, 2); }
MC_SCENARIO(generator_numbers, 0, 0, "same, numbers") { run<int>(GEN, mc::depth(2, 3), values, 2); }
MC_SCENARIO(generator_references, 0, 0, "same, references") { run<Obj&>(GEN, mc::depth(2, 3), references, 2); }
MC_SCENARIO(generator_const_references, 0, 0, "same, constant references") { run<const Obj&>(GEN, mc::depth(3, 4), const_references, 2); }
MC_SCENARIO(channel_objects, 0, 0, "channels of values with counted copies") { run<Obj>(CHAN, mc::depth(2, 3), values, 2); }
MC_SCENARIO(channel_move_only, 0, 0, "same, values that can only be moved") { run<MoveOnly>(CHAN, mc::depth(2, 3), move_only, 2); }
MC_SCENARIO(channel_numbers, 0, 0, "same, numbers") { run<int>(CHAN, mc::depth(2, 3), values, 2); }
MC_SCENARIO(channel_references, 0, 0, "same, references") { run<Obj&>(CHAN, mc::depth(2, 3), references, 2); }
MC_SCENARIO(channel_const_references, 0, 0, "same, constant references") { run<const Obj&>(CHAN, mc::depth(3, 4), const_references, 2); }
MC_SCENARIO(inplace_objects, 0, 0, "in-place generators of values with counted copies") { run<Obj>(INPLACE, mc::depth(4, 5), flat, 0); }
MC_SCENARIO(inplace_move_only, 0, 0, "same, values that can only be moved") { run<MoveOnly>(INPLACE, mc::depth(4, 5), {TEMP, RVALUE, BY_REF}, 0); }
MC_SCENARIO(inplace_numbers, 0, 0, "same, numbers") { run<int>(INPLACE, mc::depth(4, 5), flat, 0); }
MC_SCENARIO(inplace_references, 0, 0, "same, references") { run<Obj&>(INPLACE, mc::depth(4, 6), {BY_REF, AS_REF}, 0); }
MC_SCENARIO(inplace_const_references, 0, 0, "same, constant references") { run<const Obj&>(INPLACE, mc::depth(6, 8), const_references, 0); }
// elements of another type than the one yielded: rvalues are handed over as rvalues, lvalues stay as they are
namespace {
struct To {
  int value = -1, via = 0;
  To(Obj&& o) noexcept : via(1) {
    value = o.get();
    Obj taken(std::move(o));
  }
  To(const Obj& o) : value(o.get()), via(2) {}
};
enum Source { OTHER_FRESH, OTHER_STARTED, OTHER_ARG, OTHER_TYPE, OTHER_REFS, VECTOR_L, VECTOR_R, TRANSFORMED, NSOURCES };
struct Conv {
  int forms[2];
  int source;
  Res* res;
  std::vector<int> vals, vias;
  bool intact = true;
};
#define CONV_BODY(SKIP)                                                     \
  if (SKIP) co_yield Obj(5);                                                \
  for (int i = 0; i < 2; i++) {                                             \
    Obj o(10 + i);                                                          \
    switch (x.forms[i]) {                                                   \
      case 0: co_yield Obj(10 + i); break;                                  \
      case 1: co_yield std::move(o); break;                                 \
      case 2:                                                               \
        co_yield std::as_const(o);                                          \
        if (o.get() != 10 + i) x.intact = false;                            \
        break;                                                              \
    }                                                                       \
  }
template <template <typename> typename G>
G<Obj> conv_inner(Conv& x, bool skip) { CONV_BODY(skip) }
template <template <typename> typename G>
G<Obj> conv_arg(Conv& x, dd::with_pmr_resource) { CONV_BODY(false) }
template <template <typename> typename G>
dd::resourced<G<Obj>, dd::pmr::polymorphic_resource> conv_type(Conv& x) { CONV_BODY(false) }
template <template <typename> typename G>
G<Obj&> conv_refs(Conv& x) {
  for (int i = 0; i < 2; i++) {
    Obj o(10 + i);
    co_yield o;
    if (o.get() != 10 + i) x.intact = false;
  }
}
#define CONV_OUTER(G, START)                                                \
  switch (x.source) {                                                       \
    case OTHER_FRESH: co_yield dd::elements_of(conv_inner<G>(x, false)); break; \
    case OTHER_STARTED: {                                                   \
      auto g = conv_inner<G>(x, true);                                      \
      START;                                                                \
      co_yield dd::elements_of(std::move(g));                               \
      break;                                                                \
    }                                                                       \
    case OTHER_ARG: co_yield dd::elements_of(conv_arg<G>(x, *x.res)); break;\
    case OTHER_TYPE: co_yield dd::elements_of(conv_type<G>(x)); break;      \
    case OTHER_REFS: co_yield dd::elements_of(conv_refs<G>(x)); break;      \
    case VECTOR_L:                                                          \
    case VECTOR_R: {                                                        \
      std::vector<Obj> v;                                                   \
      v.reserve(2);                                                         \
      v.emplace_back(10);                                                   \
      v.emplace_back(11);                                                   \
      if (x.source == VECTOR_L) co_yield dd::elements_of(v);                \
      else co_yield dd::elements_of(std::as_const(v));                      \
      if (v[0].get() != 10 || v[1].get() != 11) x.intact = false;           \
      break;                                                                \
    }                                                                       \
    case TRANSFORMED: {                                                     \
      int n[2] = {10, 11};                                                  \
      co_yield dd::elements_of(n | std::views::transform([](int i) { return Obj(i); })); \
      break;                                                                \
    }                                                                       \
  }
dd::generator<To> conv_gen(Conv& x) { CONV_OUTER(dd::generator, (void)g.begin()) }
dd::channel<To> conv_chan(Conv& x) { CONV_OUTER(dd::channel, (void)co_await g.next()) }
co conv_take(Conv& x, bool& done) {
  auto c = conv_chan(x);
  while (To* t = co_await c.next()) {
    x.vals.push_back(t->value);
    x.vias.push_back(t->via);
    t->value = -5;
  }
  done = true;
}
void converted(bool channel) {
  copies = moves = alive = 0;
  Res r;
  {
    Conv x{};
    x.source = mc::choose(NSOURCES, "source");
    x.res = &r;
    bool own = x.source <= OTHER_TYPE;
    if (own)
      for (int& f : x.forms) f = mc::choose(3, "form");
    if (channel) {
      bool done = false;
      conv_take(x, done);
      MC_CHECK(done, "not over");
    } else {
      for (To&& t : conv_gen(x)) {
        x.vals.push_back(t.value);
        x.vias.push_back(t.via);
        t.value = -5;
      }
    }
    MC_CHECK((x.vals == std::vector<int>{10, 11}), "other values: %zu", x.vals.size());
    bool rvalues = own || x.source == TRANSFORMED;
    for (int v : x.vias) MC_CHECK(v == (rvalues ? 1 : 2), "elements made from %s", v == 1 ? "rvalues" : "lvalues");
    MC_CHECK(x.intact, "an original was changed");
    int held = 0;
    if (own)
      for (int f : x.forms) held += f == 2;
    MC_CHECK(copies == held, "%d copies, %d asked for", copies, held);
  }
  MC_CHECK(alive == 0, "%d objects left", alive);
  MC_CHECK(r.live.empty(), "memory left");
}
}  // namespace
MC_SCENARIO(generator_converted, 0, 0, "elements of generators (5 kinds), containers and views of another type: rvalues are moved from, lvalues are left alone") { converted(false); }
MC_SCENARIO(channel_converted, 0, 0, "same for channels") { converted(true); }
int main(int c, char** v) { return mc_main(c, v); }
