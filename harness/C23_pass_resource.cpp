// C23: dd::pmr::pass_resource / set_default_resource / get_default_resource
#include "res.h"
#include <kelcoro/async_task.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/task.hpp>
#include <kelcoro/job.hpp>

namespace {
struct CountRes : Res {};

dd::pmr::task<int> ptask(int x) { co_return x; }
dd::pmr::generator<int> pgen(int x) { co_yield x; }
dd::pmr::channel<int> pchan(int x) { co_yield x; }
dd::task<int> plain(int x) { co_return x; }
dd::task<int> explicit_res(int x, dd::with_pmr_resource) { co_return x; }
dd::task<int> explicit_poly(int x, dd::with_resource<dd::pmr::polymorphic_resource>) { co_return x; }

// a polymorphic coroutine of any kind, alive until reset
struct Frame {
  std::variant<std::monostate, dd::task<int>, dd::generator<int>, dd::channel<int>> v;
  Res* from = nullptr;  // null: new/delete
};
void make(Frame& f, int kind) {
  switch (kind) {
    case 0: f.v = ptask(1).decay(); break;
    case 1: f.v = pgen(1).decay(); break;
    case 2: f.v = pchan(1).decay(); break;
  }
}
int total(Res& r) { return (int)r.live.size(); }

void script(Res* r, int depth, bool kinds) {
  Res* def = nullptr;     // model: null is new_delete_resource
  Res* passed = nullptr;  // model
  bool has_passed = false;
  std::vector<Frame> frames(depth);
  int nf = 0;
  auto name = [&](std::pmr::memory_resource& m) -> Res* {
    if (&m == &r[0]) return &r[0];
    if (&m == &r[1]) return &r[1];
    MC_CHECK(&m == std::pmr::new_delete_resource(), "unknown default resource");
    return nullptr;
  };
  auto expect = [&](int was0, int was1, Res* from, int d) {
    MC_CHECK(total(r[0]) == was0 + (from == &r[0] ? d : 0) && total(r[1]) == was1 + (from == &r[1] ? d : 0),
             "frame of resource %d: resource 0 has %d blocks (was %d), resource 1 has %d (was %d)", from ? int(from - r) : -1, total(r[0]), was0, total(r[1]), was1);
  };
  for (int i = 0; i < depth; i++) {
    int was0 = total(r[0]), was1 = total(r[1]);
    switch (mc::choose(8, "op")) {
      case 0:
      case 1: {
        Res* x = &r[mc::choose(2, "resource")];
        dd::pmr::pass_resource(*x);
        passed = x;
        has_passed = true;
        break;
      }
      case 2: {
        int k = mc::choose(3, "default");
        Res* x = k == 2 ? nullptr : &r[k];
        Res* old = name(dd::pmr::set_default_resource(x ? *(std::pmr::memory_resource*)x : *std::pmr::new_delete_resource()));
        MC_CHECK(old == def, "set_default_resource did not return the previous one");
        def = x;
        MC_CHECK(name(dd::pmr::get_default_resource()) == def, "get_default_resource");
        break;
      }
      case 3:
      case 4: {
        Frame& f = frames[nf++];
        f.from = has_passed ? passed : def;
        has_passed = false;
        make(f, kinds ? mc::choose(3, "kind") : 0);
        expect(was0, was1, f.from, 1);
        break;
      }
      case 5: {  // neither of these takes what was passed for a polymorphic one
        int e = mc::choose(3, "explicit");
        dd::task<int> t = e == 0 ? plain(1) : e == 1 ? explicit_res(1, r[1]) : explicit_poly(1, r[1]);
        expect(was0, was1, e ? &r[1] : nullptr, 1);
        break;
      }
      case 6:  // the oldest frame
      case 7:  // the newest
        if (nf) {
          bool last = mc::flip("newest");
          Frame& f = last ? frames[nf - 1] : frames[0];
          Res* from = f.from;
          f.v.emplace<0>();
          expect(was0, was1, from, -1);
          if (last) nf--;
          else {
            for (int k = 1; k < nf; k++) std::swap(frames[k - 1], frames[k]);
            nf--;
          }
        }
        break;
    }
  }
}
}  // namespace

MC_SCENARIO(histories, 0, 0, "all histories of 5-6 operations: pass, set default, create, create another kind, destroy") {
  Res r[2];
  script(r, mc::depth(5, 6), false);
  MC_CHECK(r[0].live.empty() && r[1].live.empty(), "memory not returned");
}
MC_SCENARIO(histories_kinds, 0, 0, "the same with tasks, generators and channels, shorter") {
  Res r[2];
  script(r, mc::depth(4, 5), true);
  MC_CHECK(r[0].live.empty() && r[1].live.empty(), "memory not returned");
}

// what one thread passes is nobody else's; frames may end on another thread
MC_SCENARIO(two_threads_pass, 20, 20, "two threads pass and create; each frame comes from the resource of its thread") {
  Res r[3];
  dd::pmr::set_default_resource(r[2]);
  std::vector<dd::pmr::task<int>> made[2];
  bool pass[2] = {mc::flip("first passes"), mc::flip("second passes")};
  auto body = [&](int k) {
    if (pass[k]) dd::pmr::pass_resource(r[k]);
    made[k].push_back(ptask(k));
    made[k].push_back(ptask(k + 10));
  };
  std::thread a(body, 0), b(body, 1);
  a.join();
  b.join();
  for (int k = 0; k < 2; k++) MC_CHECK(total(r[k]) == (pass[k] ? 1 : 0), "thread %d passed %d, its resource served %d frames", k, pass[k], total(r[k]));
  MC_CHECK(total(r[2]) == 4 - pass[0] - pass[1], "default resource served %d", total(r[2]));
  made[0].clear();
  made[1].clear();
  for (Res& x : r) MC_CHECK(x.live.empty(), "memory not returned");
}
MC_SCENARIO(default_changes, 20, 20, "the default is replaced while another thread creates: the old or the new one, and back to that") {
  Res r[2];
  dd::pmr::set_default_resource(r[0]);
  int served = -1;
  std::thread a([&] {
    dd::pmr::task<int> t = ptask(1);
    served = r[0].count ? 0 : r[1].count ? 1 : -1;
  });
  std::pmr::memory_resource& old = dd::pmr::set_default_resource(r[1]);
  MC_CHECK(&old == &r[0], "previous default");
  {
    dd::pmr::task<int> t = ptask(2);
    mc::quiet q;
    MC_CHECK(r[1].count >= 1, "the new default was not used after it was set");
  }
  a.join();
  MC_CHECK(served >= 0, "the frame came from nowhere");
  mc_outcome("served by %d", served);
  MC_CHECK(r[0].count + r[1].count == 2 && r[0].live.empty() && r[1].live.empty(), "memory not returned");
  dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
}
MC_SCENARIO(concurrent_setters, 20, 20, "two threads set the default: each gets a distinct previous one back") {
  Res r[3];
  dd::pmr::set_default_resource(r[2]);
  std::pmr::memory_resource* old[2];
  std::thread a([&] { old[0] = &dd::pmr::set_default_resource(r[0]); });
  std::thread b([&] { old[1] = &dd::pmr::set_default_resource(r[1]); });
  a.join();
  b.join();
  std::pmr::memory_resource* last = &dd::pmr::get_default_resource();
  if (last == &r[0]) MC_CHECK(old[1] == &r[2] && old[0] == &r[1], "chain of defaults broken");
  else MC_CHECK(last == &r[1] && old[0] == &r[2] && old[1] == &r[0], "chain of defaults broken");
  mc_outcome("last %d", last == &r[1]);
  dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
}
// a resource with plain state of its own, built right before it becomes the default
struct Fresh : std::pmr::memory_resource {
  int ready, used = 0;
  explicit Fresh(int x) : ready(x) {}
  void* do_allocate(size_t n, size_t) override {
    MC_CHECK(ready == 5, "not built yet");
    return ::operator new(n);
  }
  void do_deallocate(void* p, size_t, size_t) override { ::operator delete(p); }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
MC_SCENARIO(built_before_set, 20, 20, "a resource built right before it becomes the default is complete for whoever is given it: creators and later setters") {
  std::unique_ptr<Fresh> f[2];
  auto look = [](std::pmr::memory_resource& m) {
    if (&m != std::pmr::new_delete_resource()) MC_CHECK(static_cast<Fresh&>(m).ready == 5, "not built yet");
  };
  int role = mc::choose(3, "the other thread");
  std::thread a([&] {
    f[0] = std::make_unique<Fresh>(5);
    look(dd::pmr::set_default_resource(*f[0]));
  });
  switch (role) {
    case 0: { dd::pmr::task<int> t = ptask(1); break; }
    case 1: look(dd::pmr::get_default_resource()); break;
    case 2:
      f[1] = std::make_unique<Fresh>(5);
      look(dd::pmr::set_default_resource(*f[1]));
      break;
  }
  a.join();
  dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
}
// created on one thread, started and destroyed on another that passed something else meanwhile
MC_SCENARIO(ends_elsewhere, 20, 20, "frame destroyed on another thread goes back to its own resource") {
  Res r[2];
  dd::pmr::pass_resource(r[0]);
  std::optional<dd::pmr::task<int>> t(ptask(5));
  MC_CHECK(total(r[0]) == 1, "passed resource not used");
  bool other_passes = mc::flip("other passes");
  std::thread a([&] {
    if (other_passes) dd::pmr::pass_resource(r[1]);
    int v = t->get();
    MC_CHECK(v == 5, "value %d", v);
    t.reset();
  });
  dd::pmr::pass_resource(r[1]);
  dd::pmr::task<int> u = ptask(6);
  a.join();
  MC_CHECK(r[0].live.empty() && total(r[1]) == 1, "frame went back to a wrong resource");
}
// pmr::async_task: started at once, may free itself
dd::pmr::async_task<int> pasync(int x) { co_return x; }
MC_SCENARIO(async_frame, 0, 0, "async_task frame from the passed resource, back when both owners are done") {
  Res r[2];
  dd::pmr::set_default_resource(r[1]);
  bool pass = mc::flip("pass");
  if (pass) dd::pmr::pass_resource(r[0]);
  {
    dd::pmr::async_task<int> t = pasync(3);
    MC_CHECK(total(r[!pass]) == 1 && total(r[pass]) == 0, "wrong resource");
    if (mc::flip("detach")) t.detach();
    else MC_CHECK(t.get() == 3, "value");
  }
  MC_CHECK(r[0].live.empty() && r[1].live.empty(), "memory not returned");
  dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
}
int main(int c, char** v) { return mc_main(c, v); }
