// Force-included before everything: a weak compare-exchange may fail although the values are equal
// (clang's thread sanitizer instrumentation does not tell weak from strong).
#pragma once
#ifdef __cplusplus
extern "C" int mc_weak_fail(void);
template <typename P, typename E, typename V>
__attribute__((always_inline)) inline bool mc_cas(P* p, E* e, V v, bool weak, int s, int f) {
  if (weak && mc_weak_fail()) {
    *e = __atomic_load_n(p, f);
    return false;
  }
  return __atomic_compare_exchange_n(p, e, v, weak, s, f);
}
template <typename P, typename E, typename V>
__attribute__((always_inline)) inline bool mc_cas_g(P* p, E* e, V* v, bool weak, int s, int f) {
  if (weak && mc_weak_fail()) {
    __atomic_load(p, e, f);
    return false;
  }
  return __atomic_compare_exchange(p, e, v, weak, s, f);
}
#define __atomic_compare_exchange_n(p, e, v, w, s, f) mc_cas(p, e, v, w, s, f)
#define __atomic_compare_exchange(p, e, v, w, s, f) mc_cas_g(p, e, v, w, s, f)
#endif
