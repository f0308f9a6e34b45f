// Fixed sequences for generators and channels alike: unusual ranges inside of elements_of, great depth, great length.
// Their values are 0, 1, 2, ... (or as stated); the consumers of C15 and C18 compare.
#pragma once
#include "gen.h"
#include <array>
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <set>
#include <span>
#include <sstream>

// a range whose & is overloaded, with a sentinel of another type, that can be gone through once
template <typename Y>
struct OnceRange {
  int n;
  int i = 0;
  bool begun = false;
  explicit OnceRange(int n) : n(n) {}
  OnceRange(const OnceRange&) = delete;
  NO_ADDRESS_OF(OnceRange)
  struct it {
    using value_type = Y;
    using difference_type = std::ptrdiff_t;
    OnceRange* r = nullptr;
    it() = default;
    explicit it(OnceRange* r) : r(r) {}
    it(it&&) = default;
    it& operator=(it&&) = default;
    Y operator*() const {
      MC_CHECK(r->i < r->n, "read past the end");
      return Y(r->i);
    }
    it& operator++() {
      r->i++;
      return *this;
    }
    void operator++(int) { r->i++; }
    bool operator==(std::default_sentinel_t) const { return r->i == r->n; }
  };
  it begin() {
    MC_CHECK(!begun, "begun twice");
    begun = true;
    return it(std::addressof(*this));
  }
  std::default_sentinel_t end() { return {}; }
};
// only ADL begin and end
namespace adl {
struct R {
  std::vector<int> v;
};
inline auto begin(R& r) { return r.v.begin(); }
inline auto end(R& r) { return r.v.end(); }
inline auto begin(const R& r) { return r.v.begin(); }
inline auto end(const R& r) { return r.v.end(); }
}  // namespace adl
constexpr int ODD_RANGES = 14;
template <template <typename> typename K, typename Y>
K<Y> odd_range(int kind, int n) {
  switch (kind) {
    case 0: co_yield dd::elements_of(OnceRange<Y>(n)); break;
    case 1: {
      OnceRange<Y> r(n);
      co_yield dd::elements_of(r);
      break;
    }
    case 2: {
      adl::R r;
      for (int i = 0; i < n; i++) r.v.push_back(i);
      co_yield dd::elements_of(r.v | std::views::transform([](int i) { return Y(i); }));
      break;
    }
    case 3: {
      std::map<int, int> m;
      for (int i = 0; i < n; i++) m[i] = -i;
      co_yield dd::elements_of(m | std::views::keys | std::views::transform([](int i) { return Y(i); }));
      break;
    }
    case 4: {
      std::string s;
      for (int i = 0; i < n; i++) s += std::to_string(i) + " ";
      std::istringstream in(s);
      co_yield dd::elements_of(std::ranges::istream_view<int>(in) | std::views::transform([](int i) { return Y(i); }));
      break;
    }
    case 5: {
      std::list<Y> l;
      for (int i = 0; i < 2 * n; i++) l.emplace_back(i);
      co_yield dd::elements_of(std::ranges::subrange(std::counted_iterator(l.begin(), n), std::default_sentinel));
      int k = 0;
      for (auto& x : l) {
        if (k >= n) MC_CHECK(id_of<Y>(x) == k, "an element beyond the range was touched");
        k++;
      }
      break;
    }
    case 6: {
      std::vector<std::vector<int>> vv;
      for (int i = 0; i < n; i++) {
        vv.emplace_back();
        vv.push_back({i});
      }
      co_yield dd::elements_of(vv | std::views::join | std::views::transform([](int i) { return Y(i); }));
      break;
    }
    case 7: {
      std::deque<Y> q;
      for (int i = n - 1; i >= 0; i--) q.emplace_back(i);
      co_yield dd::elements_of(q | std::views::reverse);
      break;
    }
    case 8:
      co_yield dd::elements_of(std::views::iota(0) | std::views::take_while([n](int i) { return i < n; }) |
                               std::views::transform([](int i) { return Y(i); }));
      break;
    case 9:
      for (int i = 0; i < n; i++) co_yield dd::elements_of(std::views::single(Y(i)));
      break;
    case 10:
      for (int i = 0; i < n; i++) {
        co_yield dd::elements_of(std::views::empty<Y>);
        co_yield Y(i);
      }
      break;
    case 11: {
      const std::vector<short> v = [n] {
        std::vector<short> v;
        for (int i = 0; i < n; i++) v.push_back((short)i);
        return v;
      }();
      if constexpr (std::is_same_v<Y, int>) co_yield dd::elements_of(v);
      else co_yield dd::elements_of(v | std::views::transform([](short i) { return Y(i); }));
      MC_CHECK((int)v.size() == n, "the range was changed");
      break;
    }
    case 12: {
      std::vector<Y> v;
      for (int i = 0; i < n; i++) v.emplace_back(i);
      co_yield dd::elements_of(std::views::all(std::move(v)));
      break;
    }
    case 13:
      co_yield dd::elements_of(odd_range<K, Y>(mc::choose(13, "inner range"), n));
      break;
  }
}
template <template <typename> typename K>
K<bool> bits(int n) {
  std::vector<bool> v;
  for (int i = 0; i < n; i++) v.push_back(i % 3 == 1);
  co_yield dd::elements_of(v);
}
// n levels, each with a value before and after the nested one: 0, 1, ..., 2n-1
template <template <typename> typename K, typename Y>
K<Y> tower(int level, int n, int& next) {
  co_yield Y(next++);
  if (level + 1 < n) {
    if (level % 4 == 3) {
      auto inner = tower<K, Y>(level + 1, n, next);
      co_yield dd::elements_of(inner);
    } else
      co_yield dd::elements_of(tower<K, Y>(level + 1, n, next));
  }
  co_yield Y(next++);
}
// n nested ones in a row, some empty: 0, 1, ...
template <template <typename> typename K, typename Y>
K<Y> up_to(int& next, int n) {
  for (int i = 0; i < n; i++) co_yield Y(next++);
}
template <template <typename> typename K, typename Y>
K<Y> row(int n, int& next) {
  for (int i = 0; i < n; i++) {
    co_yield dd::elements_of(up_to<K, Y>(next, i % 4));
    if (i % 5 == 0) co_yield Y(next++);
  }
}
