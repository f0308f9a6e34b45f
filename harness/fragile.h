// a value of which copying throws for one of the numbers, and bodies that yield it as an lvalue
#pragma once
#include "common.h"

namespace fragile {
inline int bad;  // copying the value with this number fails
struct Frag {
  Probe p;
  explicit Frag(int v) : p(v) {}
  Frag(const Frag& o) : p(o.p) {
    if (p.get() == bad) throw Err{bad};
  }
  Frag(Frag&& o) noexcept = default;
};
inline int live, caught;
struct Local {
  Local() { live++; }
  ~Local() { live--; }
};
inline bool is_const(int i) { return i != 1; }
// yields 0, 1, 2 as lvalues; a copy that fails is dealt with, or ends the body
#define FRAGILE_BODY                                                              \
  fragile::Local l;                                                               \
  for (int i = 0; i < 3; i++) {                                                   \
    const fragile::Frag c(i);                                                     \
    fragile::Frag v(i);                                                           \
    try {                                                                         \
      if (fragile::is_const(i)) co_yield c;                                       \
      else co_yield v;                                                            \
    } catch (Err& e) {                                                            \
      MC_CHECK(e.code == i && i == fragile::bad, "exception %d at %d", e.code, i); \
      if (!catches) throw;                                                        \
      fragile::caught++;                                                          \
    }                                                                             \
    MC_CHECK(c.p.get() == i && v.p.get() == i, "the original was changed");       \
  }
// what the consumer gets: values, -100 - code for an exception
inline void check(const std::vector<int>& got, bool catches, bool nested) {
  std::vector<int> r;
  for (int i = 0; i < 3; i++) {
    if (i != bad) r.push_back(i);
    else if (!catches) {
      r.push_back(-100 - i);
      break;
    }
  }
  if (nested) r.push_back(9);
  MC_CHECK(got.size() == r.size(), "%zu values and exceptions instead of %zu", got.size(), r.size());
  for (size_t i = 0; i < r.size(); i++) MC_CHECK(got[i] == r[i], "number %zu is %d instead of %d", i, got[i], r[i]);
  MC_CHECK(live == 0, "a body outlives its generator");
  MC_CHECK(caught == (catches && bad < 3), "%d exceptions caught by the body", caught);
}
}  // namespace fragile
