// a polymorphic memory resource that checks what it gets back
#pragma once
#include <memory_resource>
#include "common.h"

// all memory through it has to come back through it
struct Res : std::pmr::memory_resource {
  struct B {
    void* p;
    size_t n, a;
  };
  std::vector<B> live;
  int fail_at = -1, count = 0, freed = 0;
  void* do_allocate(size_t n, size_t a) override {
    mc::quiet q;  // thread safe as far as the checker is concerned
    if (count++ == fail_at) throw std::bad_alloc();
    void* p = ::operator new(n, std::align_val_t(a));
    live.push_back({p, n, a});
    return p;
  }
  void do_deallocate(void* p, size_t n, size_t a) override {
    mc::quiet q;
    for (size_t i = 0; i < live.size(); i++)
      if (live[i].p == p) {
        MC_CHECK(live[i].n == n && live[i].a == a, "deallocated with size %zu align %zu, allocated with %zu %zu", n, a, live[i].n, live[i].a);
        live.erase(live.begin() + i);
        freed++;
        ::operator delete(p, std::align_val_t(a));
        return;
      }
    mc_fail("memory that does not come from this resource was deallocated through it");
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
