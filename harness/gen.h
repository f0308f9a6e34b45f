// Shared by the generator and channel harnesses: bodies whose every step is chosen by the checker, and a record of
// what they emitted.
#pragma once
#include "res.h"
#include <kelcoro/channel.hpp>
#include <kelcoro/generator.hpp>

struct Tree {
  int budget = 0;      // steps the bodies of this tree may still take
  int max_depth = 3;
  bool may_throw = false;
  bool resources = true;
  bool may_suspend = false;
  Res* res = nullptr;
  int next_id = 1;     // ids of values
  std::vector<int> emitted;
  size_t seen = 0;     // how many of them the consumer has got
  bool asked = false;  // the consumer runs the body
  int live = 0;        // bodies begun and not ended
  bool root_done = false;
  int thrown = 0;      // code of the exception in flight
  int thrown_depth = 0;
  std::coroutine_handle<> parked;
  std::vector<int> pending;  // values of a range given away as a whole, not seen yet
  size_t npending = 0;

  void running() { MC_CHECK(asked, "the body runs although nobody asked for a value"); }
  int emit() {
    running();
    MC_CHECK(emitted.size() == seen, "the body went on before the value was looked at");
    MC_CHECK(npending == pending.size(), "the body went on before the nested range was over");
    emitted.push_back(next_id);
    return next_id++;
  }
  int give() {  // as a part of a range
    running();
    pending.push_back(next_id);
    return next_id++;
  }
  void got(int v) {
    if (npending < pending.size()) {
      MC_CHECK(emitted.size() == seen, "value %d is lost", emitted.back());
      MC_CHECK(v == pending[npending], "got %d instead of %d", v, pending[npending]);
      npending++;
      return;
    }
    MC_CHECK(emitted.size() == seen + 1, "got a value although the body has emitted %zu and %zu were seen", emitted.size(), seen);
    MC_CHECK(v == emitted.back(), "got %d instead of %d", v, emitted.back());
    seen++;
  }
  void got_end() {
    MC_CHECK(emitted.size() == seen, "value %d is lost", emitted.back());
    MC_CHECK(npending == pending.size(), "value %d is lost", pending[npending]);
    MC_CHECK(!thrown, "exception is lost");
    MC_CHECK(root_done, "end before the body ended");
  }
  void got_exception(int code) {
    MC_CHECK(thrown && code == thrown, "exception %d instead of %d", code, thrown);
    MC_CHECK(emitted.size() == seen && npending == pending.size(), "value is lost before the exception");
    thrown = 0;
  }
};
// life of one body
struct BodyLife {
  Tree& t;
  int depth;
  bool& finished;
  Probe p{77};
  BodyLife(Tree& t, int depth, bool& finished) : t(t), depth(depth), finished(finished) { t.live++; }
  BodyLife(const BodyLife&) = delete;
  ~BodyLife() {
    MC_CHECK(p.get() == 77, "local of a body damaged");
    t.live--;
    finished = true;
    if (depth == 0) t.root_done = true;
  }
};
// value that owns memory, or a plain number
template <typename Y>
int id_of(const Y& y) {
  if constexpr (std::is_same_v<Y, int>) return y;
  else return y.get();
}
