// Public interface of the model checker runtime (librt: rt/mc.cpp).
// A harness is ordinary C++: std::thread, std::mutex, std::atomic, new/delete,
// coroutines.  The runtime explores every schedule (up to a preemption bound)
// and every mc::choose() outcome, running the real code each time.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>

extern "C" {
// ---- nondeterminism -------------------------------------------------------
// any of 0..n-1, all explored
int mc_choose(int n, const char* what);
// 0 is the default; every other answer costs one deviation (same budget as a preemption)
int mc_choose_dev(int n, const char* what);
// explicit scheduling point of the harness (visible event with its own identity)
void mc_point(const char* what);
// ---- oracle ----------------------------------------------------------------
[[noreturn]] void mc_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// global event log; its order is part of the explored state, it creates no happens-before
void mc_log(int tag, long a, long b);
int mc_log_size(void);
int mc_log_tag(int i);
long mc_log_a(int i);
long mc_log_b(int i);
int mc_log_tid(int i);
// distinct strings recorded here are counted as distinct observed outcomes
void mc_outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// shown in a replay
void mc_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// end this execution here: what follows is outside the explored space
[[noreturn]] void mc_stop_here(void);
// prune this execution if an execution with the same key already went on from here
// (sound only if the future depends on nothing but key)
void mc_merge(uint64_t key);
// ---- environment -----------------------------------------------------------
int mc_self(void);             // id of the running thread, 0 = the scenario's thread
int mc_threads_started(void);  // number of threads ever created, without the scenario's one
int mc_threads_alive(void);    // not finished threads, without the scenario's one
// operator new / malloc blocks
long mc_live_blocks(void);
long mc_live_bytes(void);
long mc_total_allocs(void);
int mc_block_live(const void* p);      // p points to the start of a live block
long mc_block_size(const void* p);     // size of the live block that starts at p, -1 if none
int mc_addr_live(const void* p);       // p points into a live block
// fault injection: while on, every operator new may throw bad_alloc (one deviation each)
void mc_faults_new(int on);
// while on, every thread creation may fail with EAGAIN (one deviation each)
void mc_faults_thread(int on);
long mc_faults_taken(void);
// run code of the harness without race detection / scheduling points (nests)
void mc_quiet_begin(void);
void mc_quiet_end(void);
// allow blocks allocated so far / threads still blocked at the end of the execution
void mc_allow_leaks(void);
void mc_horizon(unsigned long ops);  // visible operations after which this execution counts as endless
void mc_allow_stuck_threads(void);
void mc_hw_concurrency(int n);
// 1 in the thorough tier: harnesses choose deeper histories
int mc_thorough(void);
// true in the final state only: every other thread is finished or blocked
int mc_wait_quiescent(void);

typedef void (*mc_fn)(void);
struct mc_scenario_desc {
  const char* name;
  mc_fn fn;
  int quick_bound;     // preemption / deviation bound, quick tier
  int thorough_bound;
  const char* what;
  mc_scenario_desc* next;
};
void mc_register(mc_scenario_desc*);
int mc_main(int argc, char** argv);
}

namespace mc {
struct registrar {
  mc_scenario_desc d;
  registrar(const char* n, mc_fn f, int q, int t, const char* w) : d{n, f, q, t, w, nullptr} {
    mc_register(&d);
  }
};
inline int choose(int n, const char* what = "choose") { return n <= 1 ? 0 : mc_choose(n, what); }
// a size for the quick and one for the thorough tier
inline int depth(int quick, int thorough) { return mc_thorough() ? thorough : quick; }
inline bool flip(const char* what = "flip") { return mc_choose(2, what) != 0; }
struct quiet {
  quiet() { mc_quiet_begin(); }
  ~quiet() { mc_quiet_end(); }
};
}  // namespace mc

#define MC_SCENARIO(name, qbound, tbound, what)                          \
  static void scenario_##name();                                         \
  static mc::registrar registrar_##name(#name, scenario_##name, qbound, tbound, what); \
  static void scenario_##name()

#define MC_CHECK(cond, ...)                                   \
  do {                                                        \
    if (!(cond)) mc_fail("check failed: " #cond " -- " __VA_ARGS__); \
  } while (0)
