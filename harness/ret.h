// returning a value from a coroutine: what is returned is copied or moved exactly as written
#pragma once
#include "common.h"

namespace ret {
inline int copies, moves;
// T may be built from others: what it was built from tells the category it saw
struct Src {
  int v;
  bool taken = false;
};
template <bool Trivial>
struct Val {
  int v = 0;
  bool taken = false;  // moved from
  Val() = default;
  explicit Val(int v) : v(v) {}
  Val(const Val& o) : v(o.v), taken(o.taken) { copies++; }
  Val(Val&& o) noexcept : v(o.v), taken(std::exchange(o.taken, true)) { moves++; }
  Val(Src& s) : v(s.v) { copies++; }
  Val(const Src& s) : v(s.v) { copies++; }
  Val(Src&& s) : v(s.v) { moves++, s.taken = true; }
  template <typename A, typename B>
  Val(A&& a, B&& b) : v(a.v + b.v) {
    auto take = [](auto& x, bool rvalue) { rvalue ? (moves++, x.taken = true) : (copies++, false); };
    take(a, !std::is_reference_v<A>);
    take(b, !std::is_reference_v<B>);
  }
  Val& operator=(const Val& o) = default;
  Val& operator=(Val&& o) noexcept {
    v = o.v, taken = std::exchange(o.taken, true);
    return *this;
  }
  ~Val() requires(Trivial) = default;
  ~Val() requires(!Trivial) {}
};
// without a default constructor, cannot be copied or moved by assignment
template <bool Trivial>
struct Hard : Val<Trivial> {
  Hard() = delete;
  using Val<Trivial>::Val;
  Hard(const Hard&) = default;
  Hard(Hard&&) = default;
  Hard& operator=(const Hard&) = delete;
};
enum Form { LVALUE, CONST_LVALUE, RVALUE, TEMP, LOCAL, FROM_LVALUE, FROM_CONST, FROM_RVALUE, PLACE_LVALUE, PLACE_RVALUE, PLACE_MIXED, PLACE_COPY, PLACE_MOVE, NFORMS };
template <typename T>
struct Sources {
  T a{7};
  Src s{8}, s2{100};
};
// has_place: the promise is reachable through this_coro::handle
template <typename C, typename T>
C body(Form f, Sources<T>& x) {
  if constexpr (requires(typename C::promise_type p) { p.ctx; }) {
    if (f >= PLACE_LVALUE) {
      auto h = co_await dd::this_coro::handle;
      auto& p = h.promise();
      T* at = nullptr;
      switch (f) {
        case PLACE_LVALUE: at = &p.return_place(x.s); break;
        case PLACE_RVALUE: at = &p.return_place(std::move(x.s)); break;
        case PLACE_MIXED: at = &p.return_place(x.s2, std::move(x.s)); break;
        case PLACE_COPY: at = &p.return_place(x.a); break;
        case PLACE_MOVE: at = &p.return_place(std::move(x.a)); break;
        default: break;
      }
      T&& there = p.result();
      MC_CHECK(at == &there, "another place");
      co_return dd::rvo;
    }
  }
  switch (f) {
    case LVALUE: co_return x.a;
    case CONST_LVALUE: co_return std::as_const(x.a);
    case RVALUE: co_return std::move(x.a);
    case TEMP: co_return T(7);
    case LOCAL: {
      T local(7);
      co_return local;
    }
    case FROM_LVALUE: co_return x.s;
    case FROM_CONST: co_return std::as_const(x.s);
    case FROM_RVALUE: co_return std::move(x.s);
    default: std::abort();
  }
}
template <typename C, typename T>
void one(bool place) {
  Sources<T> x;
  Form f = (Form)mc::choose(place ? (int)NFORMS : (int)PLACE_LVALUE, "form");
  copies = moves = 0;
  {
    C c = body<C, T>(f, x);
    T r(c.get());
    moves -= 1;  // ours
    bool from_src = (f >= FROM_LVALUE && f <= FROM_RVALUE) || (f >= PLACE_LVALUE && f <= PLACE_MIXED);
    MC_CHECK(!r.taken && r.v == (f == PLACE_MIXED ? 108 : from_src ? 8 : 7), "value %d", r.v);
  }
  bool moved = f == RVALUE || f == PLACE_MOVE, src_moved = f == FROM_RVALUE || f == PLACE_RVALUE || f == PLACE_MIXED;
  MC_CHECK(x.a.taken == moved && x.a.v == 7, "an lvalue that is returned is %s", x.a.taken ? "moved from" : "left alone");
  MC_CHECK(x.s.taken == src_moved && !x.s2.taken, "an lvalue that a result is made of is %s", x.s.taken ? "moved from" : "left alone");
  int want_copies = f == LVALUE || f == CONST_LVALUE || f == FROM_LVALUE || f == FROM_CONST || f == PLACE_LVALUE || f == PLACE_MIXED || f == PLACE_COPY;
  MC_CHECK(copies == want_copies, "%d copies instead of %d", copies, want_copies);
}
template <template <typename> typename C>
void all(bool place) {
  switch (mc::choose(4, "type")) {
    case 0: return one<C<Val<false>>, Val<false>>(place);
    case 1: return one<C<Val<true>>, Val<true>>(place);
    case 2: return one<C<Hard<false>>, Hard<false>>(place);
    case 3: return one<C<Hard<true>>, Hard<true>>(place);
  }
}
}  // namespace ret
