// C24: dd::stack_resource, all LIFO histories of allocations, deallocations, moves and reuse
#include <algorithm>
#include <cstring>
#include <span>
#include "common.h"
#include <kelcoro/stack_memory_resource.hpp>
using R = dd::stack_resource;

namespace {
struct Blk {
  unsigned char* p;
  size_t n;
  unsigned char pat;
};
// a resource and what we know of it
struct Slot {
  std::optional<R> r;
  std::vector<Blk> live;
  unsigned char* init = nullptr;  // initial buffer that it has now
  size_t init_n = 0;
  size_t just_freed = 0;  // size of the block deallocated by the previous operation on it
};
alignas(64) unsigned char buffers[2][512];
const unsigned char GUARD = 0xA5;
unsigned char next_pat;

void begin_buffers() {
  memset(buffers, GUARD, sizeof buffers);
  next_pat = 1;
}
void make(Slot& s, int buf, size_t n) {
  s.init = n ? buffers[buf] + 64 : nullptr;
  s.init_n = n;
  if (n) s.r.emplace(std::span<unsigned char>(s.init, n));
  else s.r.emplace();
}
void check_content(Slot& s) {
  for (Blk& b : s.live)
    for (size_t i = 0; i < b.n; i++)
      MC_CHECK(b.p[i] == b.pat, "live block of %zu bytes changed at offset %zu", b.n, i);
}
void check_guards(size_t n0, size_t n1) {
  size_t n[2] = {n0, n1};
  for (int k = 0; k < 2; k++)
    for (size_t i = 0; i < 512; i++)
      if (i < 64 || i >= 64 + n[k]) MC_CHECK(buffers[k][i] == GUARD, "wrote outside of the initial buffer at %ld", (long)i - 64);
}
void* alloc(Slot& s, size_t n, std::initializer_list<Slot*> all) {
  long before = mc_total_allocs();
  unsigned char* p = (unsigned char*)s.r->allocate(n);
  bool asked = mc_total_allocs() != before;
  MC_CHECK(p, "null");
  MC_CHECK((uintptr_t)p % dd::coroframe_align() == 0, "block %p is not aligned", p);
  bool in_init = s.init && p >= s.init && p + n <= s.init + s.init_n;
  MC_CHECK(in_init || (mc_addr_live(p) && mc_addr_live(p + n - 1)), "block of %zu bytes outside of any memory", n);
  for (Slot* o : all)
    for (Blk& b : o->live) MC_CHECK(p + n <= b.p || b.p + b.n <= p, "block overlaps a live one");
  if (s.just_freed >= n) MC_CHECK(!asked, "asked for memory although a block of %zu was given back just before", s.just_freed);
  s.just_freed = 0;
  memset(p, next_pat, n);
  s.live.push_back({p, n, next_pat++});
  return p;
}
void dealloc(Slot& s) {
  Blk b = s.live.back();
  s.live.pop_back();
  long before = mc_total_allocs();
  s.r->deallocate(b.p, b.n);
  MC_CHECK(mc_total_allocs() == before, "deallocate allocates");
  s.just_freed = b.n;
}
// all of it is available again, the initial buffer included
void reuse(Slot& s, std::initializer_list<Slot*> all) {
  s.live.clear();
  s.r->reuse_memory();
  s.just_freed = 0;
}
void moved(Slot& from, Slot& to) {
  to.live = std::move(from.live);
  from.live.clear();
  to.init = std::exchange(from.init, nullptr);
  to.init_n = std::exchange(from.init_n, 0);
  to.just_freed = std::exchange(from.just_freed, 0);
}

void one_resource(size_t init, const std::vector<size_t>& sizes, int depth) {
  begin_buffers();
  {
    Slot s;
    make(s, 0, init);
    for (int i = 0; i < depth; i++) {
      int k = mc::choose((int)sizes.size() + 2 + (s.live.empty() ? 0 : 1), "op");
      if (k < (int)sizes.size()) alloc(s, sizes[k], {&s});
      else if (k == (int)sizes.size()) {
        reuse(s, {&s});
        if (s.init_n) {
          s.live.reserve(1);
          long before = mc_total_allocs();
          void* p = alloc(s, s.init_n / 16 * 16, {&s});
          MC_CHECK(p == s.init && mc_total_allocs() == before, "the initial buffer is not available after reuse_memory");
          dealloc(s);
        }
        s.just_freed = 0;
      } else if (k == (int)sizes.size() + 1) {
        // through another object and back
        Slot t;
        t.r.emplace(std::move(*s.r));
        moved(s, t);
        s.r.emplace(std::move(*t.r));
        moved(t, s);
      } else dealloc(s);
      check_content(s);
    }
    while (!s.live.empty()) {
      dealloc(s);
      check_content(s);
    }
  }
  check_guards(init, 0);
  MC_CHECK(mc_live_blocks() >= 0);
}
}  // namespace

MC_SCENARIO(histories_no_buffer, 0, 0, "all histories of 6 operations on a resource without initial buffer") {
  one_resource(0, {1, 16, 40, 200}, mc::depth(6, 7));
}
MC_SCENARIO(histories_buffer_16, 0, 0, "all histories of 6 operations with an initial buffer of 16 bytes") {
  one_resource(16, {16, 17, 64, 300}, mc::depth(6, 7));
}
MC_SCENARIO(histories_buffer_64, 0, 0, "all histories of 6 operations with an initial buffer of 64 bytes") {
  one_resource(64, {1, 32, 64, 80}, mc::depth(6, 7));
}
MC_SCENARIO(histories_odd_buffer, 0, 0, "initial buffer whose size is no multiple of the alignment") {
  one_resource(40, {8, 24, 40, 112}, mc::depth(5, 7));
}
MC_SCENARIO(histories_long, 0, 0, "longer histories over two sizes") { one_resource(48, {24, 130}, mc::depth(8, 10)); }

MC_SCENARIO(two_resources, 0, 0, "all histories of 5 operations on two resources: move, assign, swap, reuse") {
  begin_buffers();
  {
    Slot s[2];
    make(s[0], 0, 64);
    make(s[1], 1, mc::flip("second has buffer") ? 32 : 0);
    for (int i = 0; i < mc::depth(5, 6); i++) {
      int w = mc::choose(2, "which");
      Slot &a = s[w], &b = s[!w];
      switch (mc::choose(a.live.empty() ? 6 : 7, "op")) {
        case 0: alloc(a, 24, {&s[0], &s[1]}); break;
        case 1: alloc(a, 100, {&s[0], &s[1]}); break;
        case 2:  // drops all a has
          *a.r = std::move(*b.r);
          a.live.clear();
          moved(b, a);
          a.just_freed = 0;
          break;
        case 3: std::swap(*a.r, *b.r); std::swap(a.live, b.live); std::swap(a.init, b.init); std::swap(a.init_n, b.init_n); std::swap(a.just_freed, b.just_freed); break;
        case 4: reuse(a, {}); break;
        case 5: {
          a.r.reset();
          a.live.clear();
          a.init = nullptr;
          a.init_n = a.just_freed = 0;
          a.r.emplace();
          break;
        }
        case 6: dealloc(a); break;
      }
      check_content(s[0]);
      check_content(s[1]);
    }
  }
  for (int k = 0; k < 2; k++)
    for (size_t i = 0; i < 64; i++) MC_CHECK(buffers[k][i] == GUARD, "underrun");
}

// the same allocations again need no new memory once the first ones were given back
static void again(size_t init, const std::vector<size_t>& sizes, int depth) {
  begin_buffers();
  {
    Slot s;
    make(s, 0, init);
    std::vector<size_t> h;
    int n = 1 + mc::choose(depth, "length");
    for (int i = 0; i < n; i++) h.push_back(sizes[mc::choose((int)sizes.size(), "size")]);
    bool by_reuse = mc::flip("reuse_memory");
    for (int round = 0; round < 3; round++) {
      long before = mc_total_allocs();
      for (size_t x : h) {
        s.just_freed = 0;
        mc_quiet_begin();
        s.live.reserve(16);
        mc_quiet_end();
        alloc(s, x, {&s});
      }
      check_content(s);
      if (round) MC_CHECK(mc_total_allocs() == before, "round %d asked for memory again", round);
      if (by_reuse) reuse(s, {&s});
      else
        while (!s.live.empty()) dealloc(s);
    }
  }
}
MC_SCENARIO(reuse_no_buffer, 0, 0, "repeating any history of up to 5 allocations asks for no memory again") { again(0, {16, 40, 90, 200}, mc::depth(5, 7)); }
MC_SCENARIO(reuse_buffer, 0, 0, "the same with an initial buffer") { again(64, {16, 48, 64, 300}, mc::depth(5, 7)); }

// the same after any use that leaves pieces of several sizes, so that smaller ones come after bigger ones
static void used_before(size_t init) {
  begin_buffers();
  {
    Slot s;
    make(s, 0, init);
    s.live.reserve(1024);
    int n = 1 + mc::choose(mc::depth(3, 4), "length of the use");
    size_t last = 16;
    auto op = [&](int k) {
      s.just_freed = 0;
      switch (k) {
        case 0: alloc(s, 16, {&s}); break;
        case 1: alloc(s, 64, {&s}); break;
        case 2: alloc(s, last = 2 * last + 80, {&s}); break;  // bigger than any before
        case 3:  // what is left of the current piece, as far as we can know it
          for (int i = 0; i < 100; i++) {
            long before = mc_total_allocs();
            s.just_freed = 0;
            unsigned char* end = s.live.empty() ? nullptr : s.live.back().p + (s.live.back().n + 15) / 16 * 16;
            alloc(s, 16, {&s});
            if (mc_total_allocs() != before || s.live.back().p != end) break;
          }
          break;
        case 4: if (!s.live.empty()) dealloc(s); break;
        case 5: while (!s.live.empty()) dealloc(s); break;
      }
    };
    for (int i = 0; i < n; i++) op(mc::choose(6, "use"));
    while (!s.live.empty()) dealloc(s);
    // a history, recorded while it is done for the first time
    int m = 1 + mc::choose(mc::depth(3, 4), "length");
    const int ops[] = {0, 1, 2, 3};
    for (int i = 0; i < m; i++) op(ops[mc::choose(4, "history")]);
    std::vector<size_t> h;
    h.reserve(s.live.size());
    for (Blk& b : s.live) h.push_back(b.n);
    while (!s.live.empty()) dealloc(s);
    for (int round = 0; round < 3; round++) {
      long before = mc_total_allocs();
      s.just_freed = 0;
      for (size_t x : h) {
        alloc(s, x, {&s});
        s.just_freed = 0;
      }
      check_content(s);
      // (the first rounds may order the pieces anew)
      if (round == 2) MC_CHECK(mc_total_allocs() == before, "round %d asked for memory again", round);
      while (!s.live.empty()) dealloc(s);
    }
  }
  check_guards(init, 0);
}
MC_SCENARIO(reuse_after_use, 0, 0, "the same after any use that leaves pieces of several sizes") { used_before(0); }
MC_SCENARIO(reuse_after_use_buffer, 0, 0, "the same with an initial buffer") { used_before(64); }

// after reuse_memory every piece ever seen is available: blocks of their sizes, in descending order, need no new memory
// (the first block may take any piece that is big enough, and so on: there is always one left for the next size)
static void all_of_it(size_t init) {
  begin_buffers();
  {
    Slot s;
    make(s, 0, init);
    s.live.reserve(2048);
    std::vector<std::pair<unsigned char*, unsigned char*>> pieces;  // the part of them that was handed out
    pieces.reserve(64);
    auto seen = [&](Blk& b) {
      unsigned char* end = b.p + (b.n + 15) / 16 * 16;
      for (auto& [from, to] : pieces)
        if (b.p >= from && b.p <= to) {
          to = std::max(to, end);
          return;
        }
      pieces.emplace_back(b.p, end);
    };
    size_t last = 16;
    int n = mc::depth(7, 8);
    for (int i = 0; i < n; i++) {
      s.just_freed = 0;
      switch (mc::choose(6, "use")) {
        case 0: alloc(s, 16, {&s}); seen(s.live.back()); break;
        case 1: alloc(s, last = 2 * last + 80, {&s}); seen(s.live.back()); break;
        case 2:  // the rest of the piece
          for (int k = 0; k < 200; k++) {
            unsigned char* end = s.live.empty() ? nullptr : s.live.back().p + (s.live.back().n + 15) / 16 * 16;
            s.just_freed = 0;
            alloc(s, 16, {&s});
            seen(s.live.back());
            if (s.live.back().p != end) break;
          }
          break;
        case 3: if (!s.live.empty()) dealloc(s); break;
        case 4: while (!s.live.empty()) dealloc(s); break;
        case 5: i = n; break;
      }
    }
    reuse(s, {&s});
    long before = mc_total_allocs();
    if (s.init_n) alloc(s, s.init_n / 16 * 16, {&s});
    std::erase_if(pieces, [&](auto& p) { return s.init && p.first >= s.init && p.first < s.init + s.init_n; });
    std::ranges::sort(pieces, [](auto& a, auto& b) { return a.second - a.first > b.second - b.first; });
    for (auto& [from, to] : pieces) {
      alloc(s, to - from, {&s});
      MC_CHECK(mc_total_allocs() == before, "asked for memory for a block of %ld bytes, which one of %zu pieces held before", (long)(to - from), pieces.size());
    }
    check_content(s);
  }
  check_guards(init, 0);
}
MC_SCENARIO(all_of_it_no_buffer, 0, 0, "after any use of 7 operations and reuse_memory every piece is available") { all_of_it(0); }
MC_SCENARIO(all_of_it_buffer, 0, 0, "the same with an initial buffer") { all_of_it(64); }

// memory that lay in one piece and was given back serves one block of its whole size
static void whole(size_t init, bool two) {
  begin_buffers();
  {
    Slot s;
    make(s, 0, init);
    s.live.reserve(64);
    size_t first[] = {16, 24, 48, 160};
    if (two) alloc(s, 200, {&s});
    if (mc::flip("another block first")) alloc(s, first[mc::choose(4, "its size")], {&s});
    size_t old = s.live.size();
    alloc(s, first[mc::choose(4, "size")], {&s});
    unsigned char* begin = s.live.back().p;
    unsigned char* end = begin + (s.live.back().n + 15) / 16 * 16;
    // go on while the blocks come from the same piece
    int most = mc::choose(6, "further blocks") * 3;
    for (int i = 0; i < most; i++) {
      long before = mc_total_allocs();
      alloc(s, 16, {&s});
      if (mc_total_allocs() != before || s.live.back().p != end) {
        dealloc(s);
        break;
      }
      end += 16;
    }
    bool all = mc::flip("reuse_memory");
    if (all) reuse(s, {&s});
    else
      while (s.live.size() > old) dealloc(s);
    s.just_freed = 0;
    bool small_first = all && mc::flip("a block before");
    if (small_first) {
      // may take from the same piece: the rest of the pieces is still there for what fits into it
      alloc(s, 16, {&s});
      dealloc(s);
      s.just_freed = 0;
    }
    long before = mc_total_allocs();
    alloc(s, end - begin, {&s});
    MC_CHECK(mc_total_allocs() == before, "asked for memory for %ld bytes although so many in one piece were given back", (long)(end - begin));
    check_content(s);
  }
  check_guards(init, 0);
}
MC_SCENARIO(whole_no_buffer, 0, 0, "blocks in one piece that are given back serve one block of the size of the piece") { whole(0, false); }
MC_SCENARIO(whole_buffer, 0, 0, "the same with an initial buffer") { whole(64, mc::flip("after a bigger block")); }
MC_SCENARIO(whole_later, 0, 0, "the same after a bigger block") { whole(0, true); }

// everything goes back when the resource dies, whatever is still allocated
MC_SCENARIO(death, 0, 0, "a resource that dies with live blocks frees everything it requested") {
  begin_buffers();
  long blocks = mc_live_blocks();
  {
    R r = mc::flip("buffer") ? R(std::span<unsigned char>(buffers[0] + 64, 64)) : R();
    int n = mc::choose(5, "blocks");
    size_t sizes[] = {16, 64, 200, 1000};
    void* last = nullptr;
    size_t last_n = 0;
    for (int i = 0; i < n; i++) {
      last_n = sizes[mc::choose(4, "size")];
      last = r.allocate(last_n);
      memset(last, 0xFF, last_n);
    }
    if (last && mc::flip("free the last")) r.deallocate(last, last_n);
  }
  MC_CHECK(mc_live_blocks() == blocks, "memory of the resource is not returned");
}
// the coroutine frame form: chunk_from<stack_resource>
struct nested {
  struct promise_type : dd::overload_new_delete<dd::chunk_from<R>> {
    nested get_return_object() noexcept { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { mc_fail("escaped"); }
  };
  std::coroutine_handle<promise_type> h;
};
static int depth_seen;
static nested recurse(int n, Probe p, dd::with_stack_resource r) {
  Probe local(n);
  if (n > 0) {
    nested x = recurse(n - 1, p, r);
    if (mc::flip("run the child")) x.h.resume();
    MC_CHECK(local.get() == n && p.get() == 77, "frame damaged");
    x.h.destroy();
  }
  depth_seen++;
  co_return;
}
MC_SCENARIO(frames, 0, 0, "nested coroutines on one stack resource, destroyed in reverse order") {
  begin_buffers();
  depth_seen = 0;
  R r = mc::flip("buffer") ? R(std::span<unsigned char>(buffers[0] + 64, 256)) : R();
  for (int round = 0; round < 2; round++) {
    nested x = recurse(3, Probe(77), r);
    x.h.resume();
    x.h.destroy();
  }
  MC_CHECK(depth_seen >= 2);
}
// big blocks, many blocks, memory that runs out
MC_SCENARIO(big, 0, 0, "histories of 4 operations over blocks of 255 and 66001 bytes") { one_resource(mc::flip("buffer") ? 320 : 0, {255, 66001}, 4); }
MC_SCENARIO(many, 0, 0, "4000 live blocks of mixed sizes, given back in part and taken again") {
  begin_buffers();
  R r = mc::flip("buffer") ? R(std::span<unsigned char>(buffers[0] + 64, 64)) : R();
  struct B {
    unsigned char* p;
    size_t n;
  };
  std::vector<B> v;
  v.reserve(4100);
  auto size = [](int i) -> size_t { return i % 97 == 5 ? 5000 : 1 + (i * 37) % 200; };
  auto fill = [&](int upto) {
    while ((int)v.size() < upto) {
      size_t n = size(v.size());
      v.push_back({(unsigned char*)r.allocate(n), n});
      MC_CHECK((uintptr_t)v.back().p % dd::coroframe_align() == 0, "alignment");
      memset(v.back().p, v.size() % 251, n);
    }
  };
  auto drop = [&](int downto) {
    while ((int)v.size() > downto) {
      B b = v.back();
      for (size_t i = 0; i < b.n; i++)
        if (b.p[i] != v.size() % 251) mc_fail("block %zu changed", v.size());
      r.deallocate(b.p, b.n);
      v.pop_back();
    }
  };
  fill(4000);
  long before = mc_total_allocs();
  drop(1000);
  fill(3500);
  drop(10);
  fill(4000);
  MC_CHECK(mc_total_allocs() == before, "asked for memory again");
  if (mc::flip("reuse_memory")) {
    v.clear();
    r.reuse_memory();
    fill(3000);
  }
  drop(0);
}
MC_SCENARIO(memory_runs_out, 0, 0, "any allocation of a history may fail: reported, nothing changed, later ones work") {
  begin_buffers();
  {
    Slot s;
    make(s, 0, mc::flip("buffer") ? 64 : 0);
    s.live.reserve(16);
    size_t sizes[] = {16, 70, 300};
    for (int i = 0; i < mc::depth(4, 5); i++) {
      int k = mc::choose(s.live.empty() ? 4 : 5, "op");
      if (k < 3) {
        mc_faults_new(1);
        unsigned char* p = nullptr;
        try {
          p = (unsigned char*)s.r->allocate(sizes[k]);
        } catch (std::bad_alloc&) {}
        mc_faults_new(0);
        if (!p) p = (unsigned char*)s.r->allocate(sizes[k]);
        for (Blk& b : s.live) MC_CHECK(p + sizes[k] <= b.p || b.p + b.n <= p, "block overlaps a live one");
        memset(p, next_pat, sizes[k]);
        s.live.push_back({p, sizes[k], next_pat++});
      } else if (k == 3) reuse(s, {&s});
      else dealloc(s);
      check_content(s);
    }
  }
  check_guards(64, 0);
}
int main(int argc, char** argv) { return mc_main(argc, argv); }
