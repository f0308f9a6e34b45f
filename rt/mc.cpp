// Stateless model checker runtime.
//
// The code under test is compiled with clang -fsanitize=thread (instrumentation only) and linked
// against this library, which implements the __tsan_* entry points, pthreads, malloc/new, TLS and
// atomic waiting.  Threads are fibers on one kernel thread; before every synchronisation operation
// the explorer decides which fiber goes on.  See DESIGN.md for the exploration algorithm.
#include "mc.h"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <memory_resource>
#include <new>
#include <string>
#include <unordered_set>
#include <vector>
#include <dlfcn.h>
#include <execinfo.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;
#define EXPORT extern "C" __attribute__((visibility("default")))
#define NOINL __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define CALLER ((uptr)__builtin_return_address(0))

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* __cxa_get_globals();
extern char __libc_single_threaded;
}

namespace std {
extern __thread void* __once_callable;
extern __thread void (*__once_call)();
}
struct emutls_ctrl { size_t size, align; void* obj; void* templ; };
// std::call_once keeps its callable in two real TLS variables of libstdc++
EXPORT emutls_ctrl mcrt_once_callable asm("__emutls_v._ZSt15__once_callable");
EXPORT emutls_ctrl mcrt_once_call asm("__emutls_v._ZSt11__once_call");
emutls_ctrl mcrt_once_callable{8, 8, nullptr, nullptr}, mcrt_once_call{8, 8, nullptr, nullptr};

namespace {

template <typename T>
struct RtAlloc {
  using value_type = T;
  RtAlloc() = default;
  template <typename U>
  RtAlloc(const RtAlloc<U>&) {}
  T* allocate(size_t n) { return (T*)__libc_malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { __libc_free(p); }
  template <typename U>
  bool operator==(const RtAlloc<U>&) const { return true; }
};
template <typename T>
using Vec = std::vector<T, RtAlloc<T>>;
using Str = std::basic_string<char, std::char_traits<char>, RtAlloc<char>>;

constexpr int MAXT = 16;
constexpr uptr ARENA = 0x200000000000, ARENA_PER = 64u << 20;
constexpr uptr ARENA_END = ARENA + MAXT * ARENA_PER;
constexpr uptr STACKS = 0x210000000000, STACK_SZ = 1u << 20;  // first page of each is a guard
constexpr uptr STACKS_END = STACKS + MAXT * STACK_SZ;

inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull + b;
  x ^= x >> 32;
  x *= 0xD6E8FEB86659FD93ull;
  x ^= x >> 29;
  x *= 0xC2B2AE3D27D4EB4Full;
  x ^= x >> 32;
  return x;
}

struct VC {
  u32 c[MAXT];
  void clear() { memset(c, 0, sizeof c); }
  void join(const VC& o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

// ---------------------------------------------------------------- shadow
struct Ent {
  u32 clk;
  u8 tid, mask, flags, pad;  // flags: 1 write, 2 atomic
  u32 pc;                    // exe is linked at a fixed low address
};
struct Gran {
  u32 exec;
  u8 n, ovn, ovcap, pad;
  Ent* ov;
  Ent e[3];
};
Gran *sh_arena, *sh_stack, *sh_data;
u8* st_arena;  // per granule: number of valid bytes (8, or 1..7 at a block's end), 0 not allocated, 0xFD freed
uptr data_lo, data_hi;
u32 EXEC = 1;

struct Hdr {  // precedes every arena block
  u64 magic;
  u64 size;
  u32 align;
  u8 kind;  // 1 new, 2 malloc, 3 tls, 4 new[] 5 aligned new
  u8 freed;
  u8 allow_leak;
  u8 tid;
  u64 pc;
  u64 idx;
};
constexpr u64 MAGIC = 0x6d63686561704b21ull;
static_assert(sizeof(Hdr) % 16 == 0 || true);

// ---------------------------------------------------------------- fibers
enum Status : u8 { S_UNUSED, S_RUN, S_BLOCK, S_TIMED, S_QUIET, S_DONE };
struct TlsEnt { void* ctrl; void* p; };
struct DtorEnt { void (*f)(void*); void* o; };
struct SpinEnt { uptr a; u64 v; u32 n; };
struct Fiber {
  int id;
  Status st;
  bool yielded, detached, joined, timed_out;
  void* sp;
  VC vc, relf, acqp;
  bool has_relf, has_acqp;
  u64 h;
  u64 cxa[4];
  const void* waitobj;
  u8 waitkind;
  void* (*start)(void*);
  void* arg;
  void* ret;
  uptr bump, bump_lo;
  TlsEnt tls[48];
  int ntls;
  DtorEnt dtors[32];
  int ndtors;
  SpinEnt spin[8];
  int nspin;
  u32 quiet, nostale;
};
Fiber F[MAXT];
int nf;        // fibers of this execution
Fiber* cur;    // running fiber, null outside of executions
bool in_rt;    // runtime code that must not be tracked is on the stack
bool multi;    // more than one fiber was created in this execution
void* sched_sp;
Fiber* next_fiber;
u64 fp;        // sum of mix(h, id): happens-before fingerprint of the execution so far

enum WaitKind : u8 { W_NONE, W_MUTEX, W_COND, W_ADDR, W_JOIN, W_GUARD, W_RW };

extern "C" void mcrt_switch(void** save, void* to);
asm(R"(
.text
.globl mcrt_switch
.hidden mcrt_switch
.type mcrt_switch,@function
mcrt_switch:
  .cfi_startproc
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
  .cfi_endproc
.size mcrt_switch,.-mcrt_switch
.globl mcrt_entry
.hidden mcrt_entry
.type mcrt_entry,@function
mcrt_entry:
  .cfi_startproc
  .cfi_undefined rip
  .cfi_undefined rsp
  call mcrt_fiber_main@PLT
  ud2
  .cfi_endproc
.size mcrt_entry,.-mcrt_entry
)");
extern "C" void mcrt_entry();

// ---------------------------------------------------------------- sync objects
struct Old {  // an earlier store a relaxed/acquire load may still return
  u64 v;
  u32 seq, clk;
  u8 tid;
  VC rel;
};
struct Slot {
  u8 off, size, nold;
  VC rel;
  u64 v;         // value, writer and number of the newest store
  u32 seq, clk;
  u8 tid;
  bool known;
  u32 rd_seq[MAXT], rd_clk[MAXT];  // newest store read by each thread, and when it first read
  Old old[3];    // oldest first
};
struct Waiter { u8 tid; };
struct Obj {
  uptr key;
  u32 exec;
  u32 ver;      // notify version
  u64 wh, rsum;
  int owner;    // mutex owner + 1; guard: 1 in progress
  int count;    // recursive / rw readers
  u8 nslots, nwait;
  u8 waiters[MAXT];
  Slot slots[4];
};
constexpr int OBJN = 1 << 13;
Obj* objs;
int obj_used;

// ---------------------------------------------------------------- exploration state
struct Point {
  u8 n, chosen, kind;  // kind 0 sched, 1 choose
  u8 tid;
  u16 costs;           // bit i: option i costs one
  u16 used;            // deviations used before this point
};
Vec<Point> stackp;
size_t pos;
int bound, used;
bool budget_cut;
Vec<u8> replay;
bool replaying, verbose;
bool weak_memory = true;
int spin_rounds;
u64 n_exec, n_complete, n_pruned, n_points, n_edges, n_ops, ops_exec, max_ops, acc_exec;
u64 n_switches;
int max_threads;
u64 vt;  // virtual time
const char* cur_scn = "";
const char* out_path;
bool faults_new, faults_thread;
long faults_taken;
long live_blocks, live_bytes, total_allocs;
bool allow_stuck;
int hwc = 2;
Vec<Hdr*> blocks;
struct LogE { int tag, tid; long a, b; };
Vec<LogE> logv;
std::unordered_set<u64, std::hash<u64>, std::equal_to<u64>, RtAlloc<u64>> outcomes;
// --traces: the happens-before fingerprints of all complete executions, alone and with their outcomes
std::unordered_set<u64, std::hash<u64>, std::equal_to<u64>, RtAlloc<u64>> final_fps, final_pairs;
bool record_traces = false, no_prune = false;
Vec<Str> outcome_samples;
Vec<Str> exec_samples;
Str exec_outcome;
mc_scenario_desc* scenarios;
double t_start;
constexpr u64 HORIZON = 40000;
u64 horizon = HORIZON;
u64 acc_limit = 60000000;

struct VEnt { u64 k; u8 rem; };
VEnt* vis;
u64 vis_cap, vis_n;

double now() {
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

bool visit(u64 k, int rem) {  // true: already explored with at least this budget
  if (!k) k = 1;
  if (vis_n * 2 >= vis_cap) {
    u64 oc = vis_cap;
    VEnt* o = vis;
    vis_cap = vis_cap ? vis_cap * 2 : 1 << 16;
    vis = (VEnt*)__libc_calloc(vis_cap, sizeof(VEnt));
    for (u64 i = 0; i < oc; i++)
      if (o[i].k) {
        u64 j = o[i].k & (vis_cap - 1);
        while (vis[j].k) j = (j + 1) & (vis_cap - 1);
        vis[j] = o[i];
      }
    __libc_free(o);
  }
  u64 j = k & (vis_cap - 1);
  while (vis[j].k && vis[j].k != k) j = (j + 1) & (vis_cap - 1);
  if (vis[j].k == k) {
    if (vis[j].rem >= rem) return true;
    vis[j].rem = rem;
    return false;
  }
  vis[j] = {k, (u8)rem};
  vis_n++;
  return false;
}
void vis_clear() {
  __libc_free(vis);
  vis = nullptr;
  vis_cap = vis_n = 0;
}

// ---------------------------------------------------------------- failure
[[noreturn]] void finish_violation(const char* msg, uptr* pcs, int npc);
[[noreturn]] NOINL void failv(const char* fmt, va_list ap) {
  in_rt = true;
  char buf[2048];
  vsnprintf(buf, sizeof buf, fmt, ap);
  void* bt[48];
  int n = backtrace(bt, 48);
  finish_violation(buf, (uptr*)bt, n);
}
[[noreturn]] NOINL __attribute__((format(printf, 1, 2))) void fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  failv(fmt, ap);
}
[[noreturn]] __attribute__((format(printf, 1, 2))) void hard_error(const char* fmt, ...) {
  in_rt = true;
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "MC-ERROR scenario=%s: ", cur_scn);
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  _exit(3);
}

__attribute__((format(printf, 2, 3))) void trace(uptr pc, const char* fmt, ...) {
  bool s = in_rt;
  in_rt = true;
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  fprintf(stderr, "  [T%d] %s  @0x%lx\n", cur ? cur->id : -1, buf, (unsigned long)pc);
  in_rt = s;
}
#define TRACE(pc, ...) do { if (UNLIKELY(verbose)) trace(pc, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- switching
inline void set_h(Fiber* t, u64 h) {
  fp -= mix(t->h, t->id + 77);
  t->h = h;
  fp += mix(h, t->id + 77);
}

void to_scheduler() {  // abandon or finish: never comes back for abandoned fibers
  void* dummy;
  Fiber* me = cur;
  mcrt_switch(me ? &me->sp : &dummy, sched_sp);
}
[[noreturn]] void abandon() {
  next_fiber = nullptr;
  to_scheduler();
  __builtin_unreachable();
}

void switch_to(Fiber* to) {
  if (to == cur) return;
  Fiber* from = cur;
  u64* g = (u64*)__cxa_get_globals();
  from->cxa[0] = g[0];
  from->cxa[1] = g[1];
  g[0] = to->cxa[0];
  g[1] = to->cxa[1];
  from->cxa[2] = (u64)std::__once_callable;
  from->cxa[3] = (u64)std::__once_call;
  std::__once_callable = (void*)to->cxa[2];
  std::__once_call = (void (*)())to->cxa[3];
  cur = to;
  n_switches++;
  mcrt_switch(&from->sp, to->sp);
}

// ---------------------------------------------------------------- choice points
int choice_point(int n, u16 costs, int kind, u64 extra) {
  if (n > 16) hard_error("too many options: %d", n);
  if (pos < stackp.size()) {
    Point& p = stackp[pos];
    if (p.n != n || p.kind != kind || p.tid != cur->id || p.costs != costs)
      hard_error("divergence while replaying point %zu: n %d/%d kind %d/%d tid %d/%d", pos, p.n, n, p.kind, kind,
                 p.tid, cur->id);
    pos++;
    if (costs >> p.chosen & 1) used++;
    return p.chosen;
  }
  if (replaying) {
    int c = pos < replay.size() ? replay[pos] : 0;
    if (c >= n) hard_error("replay: choice %d out of %d at point %zu", c, n, pos);
    stackp.push_back(Point{(u8)n, (u8)c, (u8)kind, (u8)cur->id, costs, (u16)used});
    pos++;
    if (costs >> c & 1) used++;
    return c;
  }
  if (multi) {
    u64 ym = 0;
    for (int i = 0; i < nf; i++)
      if (F[i].yielded) ym |= 1ull << i;
    u64 key = mix(mix(fp, ym), mix(cur->id * 8 + kind, extra));
    if (!no_prune && visit(key, bound - used)) {
      n_pruned++;
      abandon();
    }
  }
  n_points++;
  stackp.push_back(Point{(u8)n, 0, (u8)kind, (u8)cur->id, costs, (u16)used});
  pos++;
  return 0;
}

int data_choice(int n, u16 costs, const char* what) {
  if (n <= 1) return 0;
  bool s = in_rt;
  in_rt = true;
  int c = choice_point(n, costs, 1, 0);
  set_h(cur, mix(cur->h, 0xC0FFEE + c * 131 + n));
  TRACE(0, "choose %s: %d of %d", what, c, n);
  in_rt = s;
  return c;
}

bool enabled(Fiber* f) { return f->st == S_RUN; }

// picks the fiber to run next; cur_ok: the current fiber may simply go on
void schedule(bool cur_ok) {
  for (;;) {
    Fiber* opt[MAXT];
    int n = 0;
    bool cur_free = !cur_ok;  // leaving cur costs nothing
    if (cur_ok && !cur->yielded) opt[n++] = cur;
    else cur_free = true;
    for (int i = 0; i < nf; i++)
      if (&F[i] != cur && enabled(&F[i]) && !F[i].yielded) opt[n++] = &F[i];
    if (!n) {
      // only spinners / timed waiters / quiescence waiters are left
      bool any = false;
      for (int i = 0; i < nf; i++)
        if (F[i].yielded && enabled(&F[i])) {
          F[i].yielded = false;
          F[i].nspin = 0;
          any = true;
        }
      if (any) {
        bool quiet_waiter = false;
        for (int i = 0; i < nf; i++)
          if (F[i].st == S_QUIET) quiet_waiter = true;
        if (++spin_rounds > 30 && !quiet_waiter) fail("livelock: every thread that is not blocked spins without progress");
        if (spin_rounds > 30)
          for (int i = 0; i < nf; i++)
            if (F[i].st == S_QUIET) {
              F[i].st = S_RUN;
              spin_rounds = 0;
            }
        cur_ok = enabled(cur);
        continue;
      }
      for (int i = 0; i < nf && !any; i++)
        if (F[i].st == S_QUIET) {
          F[i].st = S_RUN;
          any = true;
        }
      if (!any)
        for (int i = 0; i < nf; i++)
          if (F[i].st == S_TIMED) {
            F[i].st = S_RUN;
            F[i].timed_out = true;
            any = true;
          }
      if (!any) {
        // deadlock or end of the execution: the scheduler decides
        next_fiber = nullptr;
        to_scheduler();
        __builtin_unreachable();
      }
      cur_ok = enabled(cur);
      continue;
    }
    int c = 0;
    if (n > 1) c = choice_point(n, cur_free ? 0 : (u16)0xFFFE, 0, cur_free ? 1 : 0);
    switch_to(opt[c]);
    return;
  }
}

void progress() {  // a visible write happened: spinners may look again
  spin_rounds = 0;
  for (int i = 0; i < nf; i++)
    if (F[i].yielded && &F[i] != cur) {
      F[i].yielded = false;
      F[i].nspin = 0;
    }
}

inline void count_op() {
  n_ops++;
  if (UNLIKELY(++ops_exec > horizon)) fail("no end within the horizon of %lu visible operations", (unsigned long)horizon);
}

inline void sched_point() {
  count_op();
  if (!multi) return;
  bool s = in_rt;
  in_rt = true;
  schedule(true);
  in_rt = s;
}

void block(const void* o, WaitKind k) {
  cur->st = S_BLOCK;
  cur->waitobj = o;
  cur->waitkind = k;
  cur->nspin = 0;
  bool s = in_rt;
  in_rt = true;
  schedule(false);
  in_rt = s;
}
void wake(const void* o, WaitKind k) {
  for (int i = 0; i < nf; i++)
    if ((F[i].st == S_BLOCK || F[i].st == S_TIMED) && F[i].waitobj == o && F[i].waitkind == k) {
      F[i].st = S_RUN;
      F[i].waitobj = nullptr;
    }
}

void spin_note(uptr a, u64 v) {  // a load / failed RMW that made no progress
  if (!multi) return;
  for (int i = 0; i < cur->nspin; i++)
    if (cur->spin[i].a == a && cur->spin[i].v == v) {
      if (++cur->spin[i].n >= 6) {
        cur->yielded = true;
        cur->spin[i].n = 0;
      }
      return;
    }
  if (cur->nspin == 8) {
    memmove(cur->spin, cur->spin + 1, 7 * sizeof(SpinEnt));
    cur->nspin = 7;
  }
  cur->spin[cur->nspin++] = {a, v, 1};
}

// ---------------------------------------------------------------- objects
Obj* obj_of(uptr key) {
  u32 i = (u32)(mix(key, 5) & (OBJN - 1));
  for (;;) {
    Obj& o = objs[i];
    if (o.exec != EXEC) {
      if (++obj_used > OBJN / 2) hard_error("too many synchronisation objects");
      o.exec = EXEC;
      o.key = key;
      o.ver = 0;
      o.wh = key * 31 + 7;
      o.rsum = 0;
      o.owner = o.count = 0;
      o.nslots = o.nwait = 0;
      return &o;
    }
    if (o.key == key) return &o;
    i = (i + 1) & (OBJN - 1);
  }
}
void ev_write(Obj* o, u64 op) {
  set_h(cur, mix(mix(cur->h, o->wh), mix(o->rsum, op * 2 + 1 + o->key)));
  o->wh = cur->h;
  o->rsum = 0;
}
void ev_read(Obj* o, u64 op) {
  set_h(cur, mix(mix(cur->h, o->wh), op * 2 + o->key));
  o->rsum += mix(cur->h, 3);
}
Slot* slot_of(Obj* o, int off, int size) {
  for (int i = 0; i < o->nslots; i++)
    if (o->slots[i].off == off && o->slots[i].size == size) return &o->slots[i];
  if (o->nslots == 4) {  // merge everything (over-approximates synchronisation)
    for (int i = 1; i < 4; i++) o->slots[0].rel.join(o->slots[i].rel);
    o->nslots = 1;
    o->slots[0].off = off;
    o->slots[0].size = size;
    return &o->slots[0];
  }
  Slot* s = &o->slots[o->nslots++];
  s->off = off;
  s->size = size;
  s->rel.clear();
  s->nold = 0;
  s->known = false;
  s->seq = 0;
  memset(s->rd_seq, 0, sizeof s->rd_seq);
  return s;
}

// ---------------------------------------------------------------- memory checks
inline Gran* gran(uptr a) {
  if (a - ARENA < ARENA_END - ARENA) return sh_arena + ((a - ARENA) >> 3);
  if (a - STACKS < STACKS_END - STACKS) return sh_stack + ((a - STACKS) >> 3);
  if (a - data_lo < data_hi - data_lo) return sh_data + ((a - data_lo) >> 3);
  return nullptr;
}

Hdr* hdr_of(const void* p) {
  Hdr* h = (Hdr*)p - 1;
  return h->magic == (MAGIC ^ (uptr)p) ? h : nullptr;
}

const char* describe(uptr a, char* buf, size_t n) {
  if (a >= ARENA && a < ARENA_END) {
    // look back for the header
    for (uptr g = a & ~7ull; g > ARENA && a - g < (1 << 16); g -= 8) {
      Hdr* h = (Hdr*)g - 1;
      if (h->magic == (MAGIC ^ g)) {
        snprintf(buf, n, "%lu bytes into a %lu-byte heap block %s(allocated by T%d @0x%lx)", (unsigned long)(a - g),
                 (unsigned long)h->size, h->freed ? "[freed] " : "", h->tid, (unsigned long)h->pc);
        return buf;
      }
    }
    snprintf(buf, n, "heap");
  } else if (a >= STACKS && a < STACKS_END)
    snprintf(buf, n, "stack of T%d", (int)((a - STACKS) / STACK_SZ));
  else if (a >= data_lo && a < data_hi)
    snprintf(buf, n, "global @0x%lx", (unsigned long)a);
  else
    snprintf(buf, n, "address 0x%lx", (unsigned long)a);
  return buf;
}

NOINL void bad_access(uptr a, size_t sz, bool w, u8 st) {
  char b[256];
  fail("%s of %zu bytes in %s memory: %s", w ? "write" : "read", sz, st == 0xFD ? "freed" : "unallocated",
       describe(a, b, sizeof b));
}
NOINL void race(const Ent& e, uptr a, bool w, bool at, bool fr) {
  char b[256];
  fail("data race on %s: %s%s by T%d, not ordered with the earlier %s%s by T%d @0x%x", describe(a, b, sizeof b),
       at ? "atomic " : "", fr ? "free" : w ? "write" : "read", cur->id, e.flags & 2 ? "atomic " : "",
       e.flags & 1 ? "write" : "read", e.tid, e.pc);
}

void acc_gran(Gran* g, uptr a, u8 mask, bool w, bool at, bool fr, uptr pc) {
  Fiber* t = cur;
  u32 clk = t->vc.c[t->id];
  u8 fl = (w ? 1 : 0) | (at ? 2 : 0);
  if (g->exec != EXEC) {
    g->exec = EXEC;
    g->n = 1;
    g->ovn = 0;
    g->e[0] = Ent{clk, (u8)t->id, mask, fl, 0, (u32)pc};
    return;
  }
  if (g->n == 1 && !g->ovn) {
    Ent& e = g->e[0];
    if (e.tid == t->id && e.mask == mask) {
      if (e.flags == fl) {
        e.clk = clk;
        e.pc = (u32)pc;
        return;
      }
      if (e.clk == clk && e.flags == 1) return;
    }
  }
  int total = g->n + g->ovn, out = 0;
  for (int i = 0; i < total; i++) {
    Ent e = i < g->n ? g->e[i] : g->ov[i - g->n];
    if (e.mask & mask) {
      bool hb = e.tid == t->id || e.clk <= t->vc.c[e.tid];
      if (!hb && (w || (e.flags & 1)) && !(at && (e.flags & 2))) race(e, a, w, at, fr);
      if (hb && (w || !(e.flags & 1)) && (!at || (e.flags & 2))) e.mask &= ~mask;
    }
    if (e.mask) {
      if (out < 3) g->e[out] = e;
      else g->ov[out - 3] = e;  // out <= i always
      out++;
    }
  }
  Ent e{clk, (u8)t->id, mask, fl, 0, (u32)pc};
  if (out < 3) g->e[out] = e;
  else {
    if (out - 3 >= g->ovcap) {
      int nc = g->ovcap ? g->ovcap * 2 : 8;
      if (nc > 200) hard_error("shadow overflow");
      g->ov = (Ent*)__libc_realloc(g->ov, nc * sizeof(Ent));
      g->ovcap = nc;
    }
    g->ov[out - 3] = e;
  }
  out++;
  g->n = out < 3 ? out : 3;
  g->ovn = out - g->n;
}

// liveness of [a, a+sz)
inline void check_live(uptr a, size_t sz, bool w) {
  if (LIKELY(a - ARENA < ARENA_END - ARENA)) {
    uptr g0 = (a - ARENA) >> 3, g1 = (a + sz - 1 - ARENA) >> 3;
    for (uptr g = g0; g <= g1; g++) {
      u8 s = st_arena[g];
      if (UNLIKELY(s != 8)) {
        if (s > 8 || s == 0) bad_access(a, sz, w, s);
        // partially valid: last byte touched in this granule must be below s
        uptr last = g == g1 ? (a + sz - 1 - ARENA) & 7 : 7;
        if (last >= s) bad_access(a, sz, w, 0);
      }
    }
  } else if (a - STACKS < STACKS_END - STACKS) {
    int o = (a - STACKS) / STACK_SZ;
    if (UNLIKELY(o != cur->id)) {
      if (o >= nf || F[o].st == S_DONE) fail("access to the stack of finished thread T%d", o);
      if (a < (uptr)F[o].sp) fail("access to a dead stack frame of thread T%d", o);
    }
  } else if (UNLIKELY(a < 65536)) {
    fail("%s through a null pointer (address 0x%lx)", w ? "write" : "read", (unsigned long)a);
  }
}

inline void track(uptr a, size_t sz, bool w, bool at, bool fr, uptr pc) {
  while (sz) {
    Gran* g = gran(a);
    size_t o = a & 7, n = 8 - o < sz ? 8 - o : sz;
    if (g) acc_gran(g, a, (u8)(((1u << n) - 1) << o), w, at, fr, pc);
    a += n;
    sz -= n;
  }
}

inline void plain(uptr a, size_t sz, bool w, uptr pc) {
  if (!cur || in_rt || cur->quiet) return;
  if (UNLIKELY(++acc_exec > acc_limit)) fail("no end: more than %lu memory accesses in one execution", (unsigned long)acc_limit);
  if (!sz) return;
  check_live(a, sz, w);
  if (multi) track(a, sz, w, false, false, pc);
}

// ---------------------------------------------------------------- atomics
struct RtScope {
  bool s;
  RtScope() : s(in_rt) { in_rt = true; }
  ~RtScope() { in_rt = s; }
};
inline bool act() { return cur && !in_rt && !cur->quiet; }

void hb_acquire(Obj* o, int off, int size, int mo) {
  for (int i = 0; i < o->nslots; i++) {
    Slot& s = o->slots[i];
    if (s.off < off + size && off < s.off + s.size) {
      if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME)
        cur->vc.join(s.rel);
      else {
        cur->acqp.join(s.rel);
        cur->has_acqp = true;
      }
    }
  }
}
void hb_release(Obj* o, int off, int size, int mo, bool rmw) {
  Slot* s = slot_of(o, off, size);
  // a plain store ends the release sequences of everything it covers
  if (!rmw)
    for (int i = 0; i < o->nslots; i++) {
      Slot& x = o->slots[i];
      if (x.off >= off && x.off + x.size <= off + size) x.rel.clear();
    }
  if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) s->rel.join(cur->vc);
  else if (cur->has_relf) s->rel.join(cur->relf);
  cur->vc.c[cur->id]++;
}

template <typename T>
u64 low(T v) {
  u64 r = 0;
  memcpy(&r, &v, sizeof v < 8 ? sizeof v : 8);
  return r;
}

// a store/RMW of the location is about to replace oldv by newv
void hist_write(Obj* o, int off, int size, u64 oldv, u64 newv) {
  if (size > 8) return;
  Slot* s = slot_of(o, off, size);
  for (int i = 0; i < o->nslots; i++)  // mixed-size access: forget the other views
    if (&o->slots[i] != s && o->slots[i].off < off + size && off < o->slots[i].off + o->slots[i].size) {
      o->slots[i].nold = 0;
      o->slots[i].known = false;
    }
  if (s->known && s->v != oldv) {  // written by plain code in between
    s->known = false;
    s->nold = 0;
  }
  if (s->nold == 3) {
    memmove(s->old, s->old + 1, 2 * sizeof(Old));
    s->nold = 2;
  }
  Old& x = s->old[s->nold++];
  x.v = oldv;
  x.rel = s->rel;
  if (s->known) {
    x.seq = s->seq;
    x.clk = s->clk;
    x.tid = s->tid;
  } else {
    x.seq = s->seq;
    x.clk = 0;
    x.tid = 0;
  }
  s->known = true;
  s->v = newv;
  s->seq++;
  s->tid = cur->id;
  s->clk = cur->vc.c[cur->id];
}
void hist_read(Slot* s, u32 seq) {
  int t = cur->id;
  if (!s->rd_seq[t]) s->rd_clk[t] = cur->vc.c[t];
  if (seq + 1 > s->rd_seq[t]) s->rd_seq[t] = seq + 1;
}
// C++ allows a load that is not seq_cst to return an older store unless a newer one happens before it
// or was already read by something that happens before it.  Reading an older value costs one deviation.
Old* stale_choice(Obj* o, int off, int size, u64 now) {
  Slot* s = nullptr;
  for (int i = 0; i < o->nslots; i++)
    if (o->slots[i].off == off && o->slots[i].size == size) s = &o->slots[i];
  if (!s) return nullptr;
  if (!s->known || s->v != now) {
    s->nold = 0;
    s->known = false;
    return nullptr;
  }
  int k = 0;  // how many older stores are visible
  u32 nseq = s->seq, nclk = s->clk;
  u8 ntid = s->tid;
  for (int j = s->nold - 1; j >= 0; j--) {
    if (nclk <= cur->vc.c[ntid]) break;  // the next newer store happens before this load
    bool seen = false;
    for (int t = 0; t < nf; t++)
      if (s->rd_seq[t] > s->old[j].seq + 1 && s->rd_clk[t] <= cur->vc.c[t]) seen = true;
    if (seen) break;
    k++;
    nseq = s->old[j].seq;
    nclk = s->old[j].clk;
    ntid = s->old[j].tid;
  }
  (void)nseq;
  if (k && weak_memory) {
    int c = data_choice(k + 1, 0xFFFE, "older value read");
    if (c) {
      Old* x = &s->old[s->nold - c];
      hist_read(s, x->seq);
      return x;
    }
  }
  hist_read(s, s->seq);
  return nullptr;
}

template <typename T>
T a_load(const volatile T* p, int mo, uptr pc) {
  if (!act()) return *p;
  sched_point();
  RtScope rs;
  uptr a = (uptr)p;
  check_live(a, sizeof(T), false);
  T v = *p;
  TRACE(pc, "load%zu 0x%lx -> 0x%lx mo=%d", sizeof(T) * 8, (unsigned long)a, (unsigned long)low(v), mo);
  if (multi) {
    track(a, sizeof(T), false, true, false, pc);
    Obj* o = obj_of(a >> 3);
    if (mo != __ATOMIC_SEQ_CST && sizeof(T) <= 8 && !cur->nostale)
      if (Old* x = stale_choice(o, a & 7, sizeof(T), low(v))) {
        memcpy(&v, &x->v, sizeof(T) < 8 ? sizeof(T) : 8);
        if (mo == __ATOMIC_RELAXED) {
          cur->acqp.join(x->rel);
          cur->has_acqp = true;
        } else
          cur->vc.join(x->rel);
        ev_read(o, 6);
        TRACE(pc, "load%zu 0x%lx returns the older value 0x%lx", sizeof(T) * 8, (unsigned long)a, (unsigned long)low(v));
        return v;
      }
    hb_acquire(o, a & 7, sizeof(T), mo);
    ev_read(o, 1);
    spin_note(a, low(v));
  }
  return v;
}
template <typename T>
void a_store(volatile T* p, T v, int mo, uptr pc) {
  if (!act()) {
    *p = v;
    return;
  }
  sched_point();
  RtScope rs;
  uptr a = (uptr)p;
  check_live(a, sizeof(T), true);
  TRACE(pc, "store%zu 0x%lx <- 0x%lx mo=%d", sizeof(T) * 8, (unsigned long)a, (unsigned long)low(v), mo);
  if (multi) {
    track(a, sizeof(T), true, true, false, pc);
    Obj* o = obj_of(a >> 3);
    hist_write(o, a & 7, sizeof(T), low(*p), low(v));
    hb_release(o, a & 7, sizeof(T), mo, false);
    ev_write(o, 2);
    cur->nspin = 0;
    progress();
  }
  *p = v;
}
template <typename T, typename Fn>
T a_rmw(volatile T* p, int mo, uptr pc, Fn fn) {
  if (!act()) {
    T o = *p;
    *p = fn(o);
    return o;
  }
  sched_point();
  RtScope rs;
  uptr a = (uptr)p;
  check_live(a, sizeof(T), true);
  T old = *p;
  T nw = fn(old);
  TRACE(pc, "rmw%zu 0x%lx 0x%lx -> 0x%lx mo=%d", sizeof(T) * 8, (unsigned long)a, (unsigned long)low(old),
        (unsigned long)low(nw), mo);
  if (multi) {
    track(a, sizeof(T), true, true, false, pc);
    Obj* o = obj_of(a >> 3);
    hb_acquire(o, a & 7, sizeof(T), mo);
    hist_write(o, a & 7, sizeof(T), low(old), low(nw));
    hb_release(o, a & 7, sizeof(T), mo, true);
    ev_write(o, 3);
    if (old == nw) spin_note(a, low(old));
    else {
      cur->nspin = 0;
      progress();
    }
  }
  *p = nw;
  return old;
}
template <typename T>
bool a_cas(volatile T* p, T* exp, T v, int mo, int fmo, uptr pc) {
  if (!act()) {
    if (*p == *exp) {
      *p = v;
      return true;
    }
    *exp = *p;
    return false;
  }
  sched_point();
  RtScope rs;
  uptr a = (uptr)p;
  check_live(a, sizeof(T), true);
  T old = *p;
  bool ok = old == *exp;
  TRACE(pc, "cas%zu 0x%lx: 0x%lx, expected 0x%lx, new 0x%lx: %s mo=%d", sizeof(T) * 8, (unsigned long)a,
        (unsigned long)low(old), (unsigned long)low(*exp), (unsigned long)low(v), ok ? "ok" : "fails", mo);
  if (multi) {
    Obj* o = obj_of(a >> 3);
    if (ok) {
      track(a, sizeof(T), true, true, false, pc);
      hb_acquire(o, a & 7, sizeof(T), mo);
      hist_write(o, a & 7, sizeof(T), low(old), low(v));
      hb_release(o, a & 7, sizeof(T), mo, true);
      ev_write(o, 4);
      if (old == v) spin_note(a, low(old));
      else {
        cur->nspin = 0;
        progress();
      }
    } else {
      track(a, sizeof(T), false, true, false, pc);
      hb_acquire(o, a & 7, sizeof(T), fmo);
      ev_read(o, 5);
      spin_note(a, low(old));
    }
  }
  if (ok) *p = v;
  else *exp = old;
  return ok;
}

VC sc_vc;  // seq_cst fences

// ---------------------------------------------------------------- allocation
void* arena_alloc(size_t size, size_t align, u8 kind, uptr pc) {
  RtScope rs;
  Fiber* t = cur;
  if (align < 16) align = 16;
  uptr p = t->bump + sizeof(Hdr) + 16;
  p = (p + align - 1) & ~(align - 1);
  uptr end = p + ((size + 15) & ~15ull) + 16;
  if (size > ARENA_PER || end > t->bump_lo + ARENA_PER) {
    if (size > (1u << 22)) return nullptr;
    hard_error("arena of T%d exhausted", t->id);
  }
  memset((void*)t->bump, 0xEE, p - t->bump);
  memset((void*)p, 0xBE, end - p);
  t->bump = end;
  Hdr* h = (Hdr*)p - 1;
  *h = Hdr{MAGIC ^ p, size, (u32)align, kind, 0, 0, (u8)t->id, pc, blocks.size()};
  blocks.push_back(h);
  uptr g = (p - ARENA) >> 3;
  memset(st_arena + g, 8, size >> 3);
  if (size & 7) st_arena[g + (size >> 3)] = size & 7;
  if (kind != 3) {
    live_blocks++;
    live_bytes += size;
    total_allocs++;
  }
  return (void*)p;
}
void arena_free(void* p, u8 kind, size_t sz, size_t align, uptr pc) {
  RtScope rs;
  uptr a = (uptr)p;
  char b[256];
  Hdr* h = (a & 15) == 0 && a > ARENA + sizeof(Hdr) ? hdr_of(p) : nullptr;
  if (!h) fail("free of a pointer that is not the start of a block: %s", describe(a, b, sizeof b));
  if (h->freed) fail("double free: %s", describe(a, b, sizeof b));
  bool knew = h->kind != 2, kdel = kind != 2;
  if (knew != kdel) fail("%s of a block from %s: %s", kdel ? "operator delete" : "free()", knew ? "operator new" : "malloc", describe(a, b, sizeof b));
  if (kdel && kind != 3) {
    if (sz != (size_t)-1 && sz != h->size) fail("sized delete with size %zu of a block of %lu bytes: %s", sz, (unsigned long)h->size, describe(a, b, sizeof b));
    if ((h->kind == 5) != (kind == 5)) fail("aligned and unaligned new/delete mixed: %s", describe(a, b, sizeof b));
    if (kind == 5 && align != h->align && align > 16) fail("delete with alignment %zu of a block of alignment %u: %s", align, h->align, describe(a, b, sizeof b));
  }
  TRACE(pc, "free 0x%lx (%lu bytes)", (unsigned long)a, (unsigned long)h->size);
  if (multi && h->kind != 2 && h->size && !cur->quiet) track(a, h->size, true, false, true, pc);
  h->freed = 1;
  memset(p, 0xDD, h->size);
  memset(st_arena + ((a - ARENA) >> 3), 0xFD, (h->size + 7) >> 3);
  if (h->kind != 3) {
    live_blocks--;
    live_bytes -= h->size;
  }
}
inline bool in_arena(const void* p) { return (uptr)p - ARENA < ARENA_END - ARENA; }

void* do_new(size_t n, size_t al, u8 kind, bool nothrow, uptr pc) {
  if (!cur || in_rt) {
    void* p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
    return p;
  }
  if (faults_new && !cur->quiet) {
    if (data_choice(2, 2, "operator new fails")) {
      faults_taken++;
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  void* p = arena_alloc(n, al, kind, pc);
  TRACE(pc, "new %zu -> 0x%lx", n, (unsigned long)p);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
void do_delete(void* p, u8 kind, size_t sz, size_t al, uptr pc) {
  if (!p) return;
  if (!in_arena(p)) {
    if (cur && (uptr)p - STACKS < STACKS_END - STACKS) fail("operator delete of a stack address");
    __libc_free(p);
    return;
  }
  if (!cur) return;  // left over from an abandoned execution
  arena_free(p, kind, sz, al, pc);
}

// ---------------------------------------------------------------- fibers: lifecycle
void init_fiber(int id, void* (*start)(void*), void* arg) {
  Fiber& f = F[id];
  uptr bl = ARENA + id * ARENA_PER;
  uptr old_bump = f.bump;
  memset(&f, 0, sizeof f);
  f.id = id;
  f.st = S_RUN;
  f.start = start;
  f.arg = arg;
  f.bump_lo = bl;
  f.bump = bl + 64;
  if (old_bump > bl) memset(st_arena + ((bl - ARENA) >> 3), 0, (old_bump - bl + 7) >> 3);
  u64* sp = (u64*)(STACKS + (id + 1) * STACK_SZ - 64);
  *--sp = (u64)&mcrt_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f.sp = sp;
  f.vc.c[id] = 1;
}

void run_thread_dtors() {
  while (cur->ndtors) {
    DtorEnt d = cur->dtors[--cur->ndtors];
    d.f(d.o);
  }
}

void fiber_finish() {
  run_thread_dtors();
  for (int i = 0; i < cur->ntls; i++) arena_free(cur->tls[i].p, 3, -1, 0, 0);
  cur->ntls = 0;
  in_rt = true;
  count_op();
  TRACE(0, "thread ends");
  if (cur->id) {
    Obj* o = obj_of((uptr)cur);
    slot_of(o, 0, 8)->rel.join(cur->vc);
    ev_write(o, 90);
    wake(cur, W_JOIN);
    progress();
  }
  cur->st = S_DONE;
  schedule(false);
  __builtin_unreachable();
}

}  // namespace

EXPORT void mcrt_fiber_main() {
  in_rt = false;
  Fiber* me = cur;
  me->ret = me->start(me->arg);
  fiber_finish();
}

namespace {

// ---------------------------------------------------------------- snapshot of the executable's data
struct Seg { uptr lo, hi; char* copy; };
Vec<Seg> segs;
int phdr_cb(dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_name && i->dlpi_name[0]) return 0;  // only the executable
  uptr relro_lo = 0, relro_hi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
      relro_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      relro_hi = (relro_lo + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ull;
    }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
    uptr lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
    if (lo >= relro_lo && lo < relro_hi) lo = relro_hi < hi ? relro_hi : hi;
    if (lo < hi) segs.push_back({lo, hi, nullptr});
  }
  return 1;
}
void snapshot() {
  dl_iterate_phdr(phdr_cb, nullptr);
  data_lo = ~0ull;
  data_hi = 0;
  for (auto& s : segs) {
    s.copy = (char*)__libc_malloc(s.hi - s.lo);
    memcpy(s.copy, (void*)s.lo, s.hi - s.lo);
    if (s.lo < data_lo) data_lo = s.lo;
    if (s.hi > data_hi) data_hi = s.hi;
  }
  data_lo &= ~7ull;
  size_t n = (data_hi - data_lo + 15) / 8;
  sh_data = (Gran*)mmap(nullptr, n * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void restore() {
  for (auto& s : segs) memcpy((void*)s.lo, s.copy, s.hi - s.lo);
}

void map_memory() {
  auto mm = [](uptr at, size_t n) {
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (at && (uptr)p != at)) {
      fprintf(stderr, "MC-ERROR mmap failed\n");
      _exit(3);
    }
    return p;
  };
  mm(ARENA, ARENA_END - ARENA);
  mm(STACKS, STACKS_END - STACKS);
  for (int i = 0; i < MAXT; i++) mprotect((void*)(STACKS + i * STACK_SZ), 4096, PROT_NONE);
  sh_arena = (Gran*)mm(0, (ARENA_END - ARENA) / 8 * sizeof(Gran));
  sh_stack = (Gran*)mm(0, (STACKS_END - STACKS) / 8 * sizeof(Gran));
  st_arena = (u8*)mm(0, (ARENA_END - ARENA) / 8);
  // not allocated until proven otherwise; pages are touched lazily below the bump pointer only
  objs = (Obj*)mm(0, sizeof(Obj) * OBJN);
}

// ---------------------------------------------------------------- running
void* scn_main(void* f) {
  ((mc_fn)f)();
  return nullptr;
}

bool reachable_from_globals(Hdr* h) {
  uptr p = (uptr)(h + 1), e = p + h->size;
  for (auto& s : segs)
    for (uptr a = (s.lo + 7) & ~7ull; a + 8 <= s.hi; a += 8) {
      uptr v = *(uptr*)a;
      if (v >= p && v <= e) return true;
    }
  return false;
}

// runs one execution; returns true if it ran to its end
bool run_once(mc_scenario_desc* s) {
  restore();
  EXEC++;
  obj_used = 0;
  pos = 0;
  used = 0;
  fp = 0;
  multi = false;
  spin_rounds = 0;
  ops_exec = acc_exec = 0;
  horizon = HORIZON;
  vt = 0;
  sc_vc.clear();
  faults_new = faults_thread = false;
  faults_taken = 0;
  live_blocks = live_bytes = total_allocs = 0;
  allow_stuck = false;
  hwc = 2;
  blocks.clear();
  logv.clear();
  exec_outcome.clear();
  std::pmr::set_default_resource(nullptr);
  for (int i = 0; i < MAXT; i++) {
    F[i].st = S_UNUSED;
    F[i].yielded = false;
  }
  nf = 1;
  init_fiber(0, scn_main, (void*)s->fn);
  u64* g = (u64*)__cxa_get_globals();
  g[0] = g[1] = 0;
  cur = &F[0];
  in_rt = true;
  next_fiber = &F[0];
  mcrt_switch(&sched_sp, F[0].sp);
  in_rt = true;
  n_exec++;
  if (nf > max_threads) max_threads = nf;
  if (ops_exec > max_ops) max_ops = ops_exec;
  g[0] = g[1] = 0;
  // why did we come back?
  bool ended = F[0].st == S_DONE;
  bool all = true, anyrun = false;
  for (int i = 0; i < nf; i++) {
    if (F[i].st != S_DONE) all = false;
    if (F[i].st == S_RUN) anyrun = true;
  }
  if (anyrun) {  // pruned
    cur = nullptr;
    in_rt = false;
    return false;
  }
  if (!ended || (!all && !allow_stuck)) {
    Str m;
    char b[128];
    for (int i = 0; i < nf; i++)
      if (F[i].st != S_DONE) {
        static const char* wk[] = {"?", "a mutex", "a condition variable", "an atomic wait", "a join", "a static initialiser", "a rwlock"};
        snprintf(b, sizeof b, " T%d waits for %s;", i, wk[F[i].waitkind]);
        m += b;
      }
    fail("deadlock: no thread can go on:%s", m.c_str());
  }
  for (Hdr* h : blocks)
    if (!h->freed && h->kind != 3 && !h->allow_leak && !reachable_from_globals(h)) {
      char b[256];
      fail("leak: %s never freed", describe((uptr)(h + 1), b, sizeof b));
    }
  cur = nullptr;
  in_rt = false;
  n_complete++;
  if (record_traces) {
    u64 h = 1469598103934665603ull;
    for (char c : exec_outcome) h = (h ^ (u8)c) * 1099511628211ull;
    for (auto& l : logv) h = mix(mix(h, l.tag), mix(l.a, l.b));
    final_fps.insert(fp);
    final_pairs.insert(mix(fp, h));
  }
  if (exec_outcome.size()) {
    u64 h = 1469598103934665603ull;
    for (char c : exec_outcome) h = (h ^ (u8)c) * 1099511628211ull;
    if (outcomes.insert(h).second && outcome_samples.size() < 12) outcome_samples.push_back(exec_outcome);
  }
  if (exec_samples.size() < 3 || (n_complete & (n_complete - 1)) == 0) {
    Str t;
    char b[16];
    for (size_t i = 0; i < stackp.size() && i < 120; i++) {
      snprintf(b, sizeof b, "%s%d/%d", i ? " " : "", stackp[i].chosen, stackp[i].n);
      t += b;
    }
    if (exec_samples.size() < 4) exec_samples.push_back(t);
    else exec_samples[3] = t;
  }
  return true;
}

bool backtrack() {
  while (!stackp.empty()) {
    Point& p = stackp.back();
    int nx = p.chosen + 1;
    while (nx < p.n && (p.costs >> nx & 1) && p.used + 1 > bound) {
      budget_cut = true;
      nx++;
    }
    if (nx < p.n) {
      p.chosen = nx;
      n_edges++;
      return true;
    }
    stackp.pop_back();
  }
  return false;
}

Str json_escape(const char* s) {
  Str r;
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') r += '\\';
    if ((u8)*s < 32) {
      r += ' ';
      continue;
    }
    r += *s;
  }
  return r;
}

Str choices_str() {
  Str r;
  char b[8];
  for (size_t i = 0; i < pos && i < stackp.size(); i++) {
    snprintf(b, sizeof b, "%s%d", i ? " " : "", stackp[i].chosen);
    r += b;
  }
  return r;
}

struct Result {
  int bound_done = -1;
  bool exhaustive = false, timed_out = false;
  u64 states = 0, edges = 0;
} res;

void write_out(const char* verdict, const char* msg, uptr* pcs, int npc) {
  FILE* f = out_path ? fopen(out_path, "w") : stdout;
  if (!f) _exit(3);
  fprintf(f, "{\"scenario\":\"%s\",\"verdict\":\"%s\",\"message\":\"%s\",", cur_scn, verdict, json_escape(msg).c_str());
  fprintf(f, "\"bound\":%d,\"bound_done\":%d,\"exhaustive\":%s,\"timed_out\":%s,", bound, res.bound_done,
          res.exhaustive ? "true" : "false", res.timed_out ? "true" : "false");
  fprintf(f, "\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"complete\":%lu,\"pruned\":%lu,\"ops\":%lu,", (unsigned long)res.states,
          (unsigned long)res.edges, (unsigned long)n_exec, (unsigned long)n_complete, (unsigned long)n_pruned, (unsigned long)n_ops);
  fprintf(f, "\"max_ops\":%lu,\"max_threads\":%d,\"outcomes\":%zu,\"wall\":%.3f,", (unsigned long)max_ops, max_threads, outcomes.size(), now() - t_start);
  if (record_traces) {
    u64 a = 0, b = 0;
    for (u64 h : final_fps) a += mix(h, 1);
    for (u64 h : final_pairs) b += mix(h, 1);
    fprintf(f, "\"traces\":%zu,\"traces_sum\":\"%lx\",\"trace_outcomes\":%zu,\"trace_outcomes_sum\":\"%lx\",", final_fps.size(),
            (unsigned long)a, final_pairs.size(), (unsigned long)b);
  }
  fprintf(f, "\"outcome_samples\":[");
  for (size_t i = 0; i < outcome_samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", json_escape(outcome_samples[i].c_str()).c_str());
  fprintf(f, "],\"samples\":[");
  for (size_t i = 0; i < exec_samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", exec_samples[i].c_str());
  fprintf(f, "],\"choices\":\"%s\",\"pcs\":[", choices_str().c_str());
  for (int i = 0; i < npc; i++) fprintf(f, "%s\"0x%lx\"", i ? "," : "", (unsigned long)pcs[i]);
  fprintf(f, "]}\n");
  fflush(f);
  if (out_path) fclose(f);
}

[[noreturn]] void finish_violation(const char* msg, uptr* pcs, int npc) {
  static bool again;
  if (again) _exit(3);
  again = true;
  res.states = n_points;
  res.edges = n_edges;
  if (verbose) fprintf(stderr, "VIOLATES: %s\n", msg);
  write_out("violation", msg, pcs, npc);
  _exit(1);
}

void on_signal(int sig, siginfo_t* si, void* uc) {
  if (!cur) {
    fprintf(stderr, "MC-ERROR signal %d outside of an execution (scenario %s)\n", sig, cur_scn);
    _exit(3);
  }
  in_rt = true;
  char b[256];
  uptr pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  uptr a = (uptr)si->si_addr;
  if (sig == SIGSEGV && a >= STACKS && a < STACKS_END && (a & (STACK_SZ - 1)) < 4096)
    snprintf(b, sizeof b, "stack overflow of T%d", cur->id);
  else if (sig == SIGSEGV || sig == SIGBUS)
    snprintf(b, sizeof b, "segmentation fault at address 0x%lx", (unsigned long)a);
  else if (sig == SIGILL || sig == SIGTRAP)
    snprintf(b, sizeof b, "reached code that must be unreachable (undefined behaviour trap)");
  else if (sig == SIGABRT)
    snprintf(b, sizeof b, "abort() called");
  else if (sig == SIGVTALRM)
    snprintf(b, sizeof b, "no end: the execution runs without a visible operation");
  else
    snprintf(b, sizeof b, "signal %d", sig);
  finish_violation(b, &pc, 1);
}
u64 alarm_exec, alarm_n;
void on_vtalrm(int sig, siginfo_t* si, void* uc) {
  if (!cur) return;
  if (alarm_exec == n_exec) {
    if (++alarm_n >= 20) on_signal(sig, si, uc);
  } else {
    alarm_exec = n_exec;
    alarm_n = 0;
  }
}

void on_terminate() {
  char b[512] = "std::terminate called";
  if (cur) {
    in_rt = true;
    if (auto e = std::current_exception()) {
      try {
        std::rethrow_exception(e);
      } catch (std::exception& x) {
        snprintf(b, sizeof b, "std::terminate called, exception: %.300s", x.what());
      } catch (...) {
        snprintf(b, sizeof b, "std::terminate called with an exception");
      }
    }
    fail("%s", b);
  }
  abort();
}

void explore(mc_scenario_desc* s, int maxb, double budget) {
  for (bound = 0; bound <= maxb; bound++) {
    vis_clear();
    stackp.clear();
    budget_cut = false;
    n_points = n_edges = 0;
    bool to = false;
    u64 it = 0;
    for (;;) {
      run_once(s);
      if ((++it & 63) == 0 && now() - t_start > budget) {
        to = true;
        break;
      }
      if (!backtrack()) break;
    }
    res.states = n_points + 1;
    res.edges = n_edges + n_points;
    if (to) {
      res.timed_out = true;
      break;
    }
    res.bound_done = bound;
    if (!budget_cut) {
      res.exhaustive = true;
      break;
    }
  }
  if (bound > maxb) bound = maxb;
}
}  // namespace

// ================================================================ tsan ABI
#define RW(N)                                                                              \
  EXPORT void __tsan_read##N(void* p) { plain((uptr)p, N, false, CALLER); }                \
  EXPORT void __tsan_write##N(void* p) { plain((uptr)p, N, true, CALLER); }                \
  EXPORT void __tsan_unaligned_read##N(void* p) { plain((uptr)p, N, false, CALLER); }      \
  EXPORT void __tsan_unaligned_write##N(void* p) { plain((uptr)p, N, true, CALLER); }      \
  EXPORT void __tsan_read_write##N(void* p) { plain((uptr)p, N, true, CALLER); }           \
  EXPORT void __tsan_unaligned_read_write##N(void* p) { plain((uptr)p, N, true, CALLER); } \
  EXPORT void __tsan_volatile_read##N(void* p) { plain((uptr)p, N, false, CALLER); }       \
  EXPORT void __tsan_volatile_write##N(void* p) { plain((uptr)p, N, true, CALLER); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { plain((uptr)p, n, false, CALLER); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { plain((uptr)p, n, true, CALLER); }
EXPORT void __tsan_vptr_read(void** p) { plain((uptr)p, 8, false, CALLER); }
EXPORT void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) plain((uptr)p, 8, true, CALLER);
  else plain((uptr)p, 8, false, CALLER);
}
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) {
  plain((uptr)s, n, false, CALLER);
  plain((uptr)d, n, true, CALLER);
  return memmove(d, s, n);
}
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) {
  plain((uptr)s, n, false, CALLER);
  plain((uptr)d, n, true, CALLER);
  return memmove(d, s, n);
}
EXPORT void* __tsan_memset(void* d, int c, size_t n) {
  plain((uptr)d, n, true, CALLER);
  return memset(d, c, n);
}
#define ATOM(B, T)                                                                                                      \
  EXPORT T __tsan_atomic##B##_load(const volatile T* p, int mo) { return a_load<T>(p, mo, CALLER); }                    \
  EXPORT void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo, CALLER); }                    \
  EXPORT T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, CALLER, [&](T) { return v; }); } \
  EXPORT T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, CALLER, [&](T o) { return (T)(o + v); }); } \
  EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, CALLER, [&](T o) { return (T)(o - v); }); } \
  EXPORT T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, CALLER, [&](T o) { return (T)(o & v); }); } \
  EXPORT T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, CALLER, [&](T o) { return (T)(o | v); }); }  \
  EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, CALLER, [&](T o) { return (T)(o ^ v); }); } \
  EXPORT T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, CALLER, [&](T o) { return (T) ~(o & v); }); } \
  EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas<T>(p, e, v, mo, fmo, CALLER); } \
  EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return a_cas<T>(p, e, v, mo, fmo, CALLER); }   \
  EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {                          \
    a_cas<T>(p, &e, v, mo, fmo, CALLER);                                                                                \
    return e;                                                                                                           \
  }
ATOM(8, u8)
ATOM(16, u16)
ATOM(32, u32)
ATOM(64, u64)
ATOM(128, unsigned __int128)
EXPORT void __tsan_atomic_thread_fence(int mo) {
  if (!act()) return;
  sched_point();
  RtScope rs;
  TRACE(CALLER, "fence mo=%d", mo);
  if (!multi) return;
  bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
  if (acq && cur->has_acqp) cur->vc.join(cur->acqp);
  if (mo == __ATOMIC_SEQ_CST) {
    cur->vc.join(sc_vc);
    sc_vc.join(cur->vc);
    ev_write(obj_of(8), 7);
  }
  if (rel) {
    cur->relf = cur->vc;
    cur->has_relf = true;
  }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ================================================================ atomic waiting
EXPORT void mcrt_wait_enter(int d) {
  if (cur) cur->nostale += d;  // a waiting operation compares with the newest value, as the kernel does
}
EXPORT int mcrt_peek(const int* p) { return *(const volatile int*)p; }
EXPORT void mcrt_block(const void* a) {
  if (!act()) return;
  RtScope rs;
  TRACE(CALLER, "waits for a notification at 0x%lx", (unsigned long)a);
  ev_write(obj_of((uptr)a ^ (1ull << 63)), 20);
  block(a, W_ADDR);
}
EXPORT int mcrt_block_timed(const void* a) {
  if (!act()) return 1;
  if (data_choice(2, 2, "timed wait times out")) return 1;
  RtScope rs;
  ev_write(obj_of((uptr)a ^ (1ull << 63)), 21);
  cur->st = S_TIMED;
  cur->waitobj = a;
  cur->waitkind = W_ADDR;
  cur->timed_out = false;
  schedule(false);
  return cur->timed_out;
}
EXPORT unsigned long mcrt_wait_version(const void* a) {
  if (!act()) return 0;
  RtScope rs;
  Obj* o = obj_of((uptr)a ^ (1ull << 63));
  ev_read(o, 22);
  return o->ver;
}
EXPORT void mcrt_block_if_version(const void* a, unsigned long v) {
  if (!act()) return;
  RtScope rs;
  Obj* o = obj_of((uptr)a ^ (1ull << 63));
  ev_write(o, 23);
  if (o->ver != v) return;
  TRACE(CALLER, "waits for a notification at 0x%lx", (unsigned long)a);
  block(a, W_ADDR);
}
static void notify_addr(const void* a, int n, uptr pc) {  // n < 0: all
  sched_point();
  RtScope rs;
  Obj* o = obj_of((uptr)a ^ (1ull << 63));
  o->ver++;
  ev_write(o, 24);
  Fiber* w[MAXT];
  int k = 0;
  for (int i = 0; i < nf; i++)
    if ((F[i].st == S_BLOCK || F[i].st == S_TIMED) && F[i].waitobj == a && F[i].waitkind == W_ADDR) w[k++] = &F[i];
  TRACE(pc, "notifies 0x%lx: %d waiting", (unsigned long)a, k);
  while (k && n) {
    int c = n < 0 ? 0 : data_choice(k, 0, "which waiter wakes");
    w[c]->st = S_RUN;
    w[c]->waitobj = nullptr;
    w[c] = w[--k];
    if (n > 0) n--;
  }
  progress();
}
EXPORT void mcrt_notify(const void* a, int all) {
  if (!act()) return;
  notify_addr(a, all ? -1 : 1, CALLER);
}
EXPORT long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (act() && nr == SYS_futex) {
    int op = a[1] & 127;
    const void* p = (const void*)a[0];
    if (op == 0 || op == 9) {  // WAIT / WAIT_BITSET
      sched_point();
      RtScope rs;
      check_live((uptr)p, 4, false);
      ev_read(obj_of((uptr)p >> 3), 30);
      ev_write(obj_of((uptr)p ^ (1ull << 63)), 20);
      if (*(volatile int*)p != (int)a[2]) {
        errno = EAGAIN;
        return -1;
      }
      if (a[3]) {  // with a timeout
        if (data_choice(2, 2, "futex wait times out")) {
          errno = ETIMEDOUT;
          return -1;
        }
        cur->st = S_TIMED;
        cur->waitobj = p;
        cur->waitkind = W_ADDR;
        cur->timed_out = false;
        schedule(false);
        if (cur->timed_out) {
          errno = ETIMEDOUT;
          return -1;
        }
        return 0;
      }
      block(p, W_ADDR);
      return 0;
    }
    if (op == 1 || op == 10) {  // WAKE
      notify_addr(p, a[2] > 1000 ? -1 : (int)a[2], CALLER);
      return 1;
    }
    fail("futex operation %d is not modelled", op);
  }
  long r;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}

// ================================================================ pthreads
static void touch_sync(const void* p, size_t n, uptr pc) {
  check_live((uptr)p, n, true);
  if (multi) track((uptr)p, n, true, true, false, pc);
}
static void m_lock(void* m, uptr pc, const char* why) {
  Obj* o = obj_of((uptr)m);
  while (o->owner) {
    if (o->owner == cur->id + 1) fail("a thread locks a mutex it already holds (deadlock)");
    block(m, W_MUTEX);
    check_live((uptr)m, 8, true);
  }
  o->owner = cur->id + 1;
  cur->vc.join(slot_of(o, 0, 8)->rel);
  ev_write(o, 40);
  TRACE(pc, "%s mutex 0x%lx", why, (unsigned long)m);
}
static void m_unlock(void* m, uptr pc) {
  Obj* o = obj_of((uptr)m);
  if (o->owner != cur->id + 1) fail("a thread unlocks a mutex it does not hold");
  o->owner = 0;
  TRACE(pc, "unlocks mutex 0x%lx", (unsigned long)m);
  Slot* s = slot_of(o, 0, 8);
  s->rel.join(cur->vc);
  cur->vc.c[cur->id]++;
  ev_write(o, 41);
  wake(m, W_MUTEX);
  cur->nspin = 0;
  progress();
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
  memset(m, 0, sizeof *m);
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (act() && obj_of((uptr)m)->owner) fail("a locked mutex is destroyed");
  return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!act()) return 0;
  sched_point();
  RtScope rs;
  touch_sync(m, 8, CALLER);
  m_lock(m, CALLER, "locks");
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!act()) return 0;
  sched_point();
  RtScope rs;
  touch_sync(m, 8, CALLER);
  Obj* o = obj_of((uptr)m);
  if (o->owner) {
    ev_read(o, 42);
    spin_note((uptr)m, 1);
    return EBUSY;
  }
  m_lock(m, CALLER, "try-locks");
  return 0;
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) {
  if (!act()) return 0;
  if (data_choice(2, 2, "timed lock times out")) return ETIMEDOUT;
  return pthread_mutex_lock(m);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) {
  if (!act()) return 0;
  if (data_choice(2, 2, "timed lock times out")) return ETIMEDOUT;
  return pthread_mutex_lock(m);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!act()) return 0;
  sched_point();
  RtScope rs;
  touch_sync(m, 8, CALLER);
  m_unlock(m, CALLER);
  return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof *c);
  return 0;
}
static void cond_touch(pthread_cond_t* c, uptr pc) { touch_sync(c, 8, pc); }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  if (!act()) return 0;
  RtScope rs;
  if (obj_of((uptr)c)->nwait) fail("a condition variable is destroyed while a thread waits on it");
  return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uptr pc) {
  if (!act()) return 0;
  sched_point();
  RtScope rs;
  cond_touch(c, pc);
  touch_sync(m, 8, pc);
  if (obj_of((uptr)m)->owner != cur->id + 1) fail("condition wait without holding the mutex");
  if (timed && data_choice(2, 2, "condition wait times out")) {
    m_unlock(m, pc);
    schedule(true);
    m_lock(m, pc, "relocks");
    return ETIMEDOUT;
  }
  if (data_choice(2, 2, "spurious wake-up")) {
    m_unlock(m, pc);
    schedule(true);
    m_lock(m, pc, "relocks");
    return 0;
  }
  TRACE(pc, "waits on condition 0x%lx", (unsigned long)c);
  Obj* o = obj_of((uptr)c);
  m_unlock(m, pc);
  ev_write(o, 50);
  o->waiters[o->nwait++] = cur->id;
  cur->timed_out = false;
  if (timed) {
    cur->st = S_TIMED;
    cur->waitobj = c;
    cur->waitkind = W_COND;
    schedule(false);
  } else
    block(c, W_COND);
  if (cur->timed_out) {
    for (int i = 0; i < o->nwait; i++)
      if (o->waiters[i] == cur->id) {
        memmove(o->waiters + i, o->waiters + i + 1, o->nwait - i - 1);
        o->nwait--;
        break;
      }
  }
  check_live((uptr)m, 8, true);
  m_lock(m, pc, "relocks");
  return cur->timed_out ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, CALLER); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return cond_wait(c, m, true, CALLER); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec*) { return cond_wait(c, m, true, CALLER); }
static int cond_notify(pthread_cond_t* c, bool all, uptr pc) {
  if (!act()) return 0;
  sched_point();
  RtScope rs;
  cond_touch(c, pc);
  Obj* o = obj_of((uptr)c);
  ev_write(o, 51);
  TRACE(pc, "notifies condition 0x%lx: %d waiting", (unsigned long)c, o->nwait);
  while (o->nwait) {
    int k = all ? 0 : data_choice(o->nwait, 0, "which waiter wakes");
    Fiber& f = F[o->waiters[k]];
    memmove(o->waiters + k, o->waiters + k + 1, o->nwait - k - 1);
    o->nwait--;
    f.st = S_RUN;
    f.waitobj = nullptr;
    if (!all) break;
  }
  progress();
  return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) { return cond_notify(c, false, CALLER); }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { return cond_notify(c, true, CALLER); }

// reader-writer locks: owner = writer, count = readers
static int rw_lock(void* m, bool w, bool try_, uptr pc) {
  if (!act()) return 0;
  sched_point();
  RtScope rs;
  touch_sync(m, 8, pc);
  Obj* o = obj_of((uptr)m);
  while (o->owner || (w && o->count)) {
    if (try_) {
      ev_read(o, 60);
      spin_note((uptr)m, 1);
      return EBUSY;
    }
    block(m, W_RW);
    check_live((uptr)m, 8, true);
  }
  if (w) {
    o->owner = cur->id + 1;
    cur->vc.join(slot_of(o, 4, 4)->rel);
  } else
    o->count++;
  cur->vc.join(slot_of(o, 0, 4)->rel);
  ev_write(o, 61);
  TRACE(pc, "locks rwlock 0x%lx (%s)", (unsigned long)m, w ? "write" : "read");
  return 0;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) {
  memset(m, 0, sizeof *m);
  return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rw_lock(m, false, false, CALLER); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rw_lock(m, true, false, CALLER); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rw_lock(m, false, true, CALLER); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return rw_lock(m, true, true, CALLER); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!act()) return 0;
  sched_point();
  RtScope rs;
  touch_sync(m, 8, CALLER);
  Obj* o = obj_of((uptr)m);
  if (o->owner == cur->id + 1) {
    o->owner = 0;
    slot_of(o, 0, 4)->rel.join(cur->vc);
  } else {
    if (o->count <= 0) fail("a rwlock is unlocked that is not held");
    o->count--;
    slot_of(o, 4, 4)->rel.join(cur->vc);
  }
  cur->vc.c[cur->id]++;
  ev_write(o, 62);
  wake(m, W_RW);
  progress();
  return 0;
}

// semaphores (posix): count in Obj.count
EXPORT int sem_init(sem_t* s, int, unsigned v) {
  memset(s, 0, sizeof *s);
  if (act()) {
    RtScope rs;
    obj_of((uptr)s)->count = v;
  }
  return 0;
}
EXPORT int sem_destroy(sem_t*) { return 0; }
EXPORT int sem_post(sem_t* s) {
  if (!act()) return 0;
  sched_point();
  RtScope rs;
  touch_sync(s, 8, CALLER);
  Obj* o = obj_of((uptr)s);
  o->count++;
  slot_of(o, 0, 8)->rel.join(cur->vc);
  cur->vc.c[cur->id]++;
  ev_write(o, 70);
  wake(s, W_ADDR);
  progress();
  return 0;
}
static int sem_get(sem_t* s, bool try_, uptr pc) {
  if (!act()) return 0;
  sched_point();
  RtScope rs;
  touch_sync(s, 8, pc);
  Obj* o = obj_of((uptr)s);
  while (!o->count) {
    if (try_) {
      ev_read(o, 71);
      spin_note((uptr)s, 0);
      errno = EAGAIN;
      return -1;
    }
    block(s, W_ADDR);
  }
  o->count--;
  cur->vc.join(slot_of(o, 0, 8)->rel);
  ev_write(o, 72);
  return 0;
}
EXPORT int sem_wait(sem_t* s) { return sem_get(s, false, CALLER); }
EXPORT int sem_trywait(sem_t* s) { return sem_get(s, true, CALLER); }

EXPORT int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*f)(void*), void* arg) {
  if (!cur || in_rt) hard_error("pthread_create outside of an execution");
  if (faults_thread && data_choice(2, 2, "thread creation fails")) {
    faults_taken++;
    return EAGAIN;
  }
  sched_point();
  RtScope rs;
  if (nf == MAXT) hard_error("too many threads");
  int id = nf++;
  init_fiber(id, f, arg);
  if (!multi) {
    multi = true;
    // bring the fingerprint up to date: so far only the first fiber existed
    fp = mix(cur->h, cur->id + 77);
  }
  Fiber& t = F[id];
  ev_write(obj_of(16), 80);
  t.vc.join(cur->vc);
  t.vc.c[id] = 1;
  cur->vc.c[cur->id]++;
  fp += mix(t.h, id + 77);
  set_h(&t, mix(cur->h, 81));
  TRACE(CALLER, "starts thread T%d", id);
  *th = (pthread_t)(id + 1);
  return 0;
}
EXPORT int pthread_join(pthread_t th, void** ret) {
  if (!cur || in_rt) hard_error("pthread_join outside of an execution");
  sched_point();
  RtScope rs;
  int id = (int)th - 1;
  if (id < 0 || id >= nf) fail("join of something that is not a thread");
  Fiber& t = F[id];
  if (&t == cur) return EDEADLK;
  if (t.joined || t.detached) fail("a thread is joined twice or after being detached");
  TRACE(CALLER, "joins T%d", id);
  t.joined = true;
  while (t.st != S_DONE) block(&t, W_JOIN);
  Obj* o = obj_of((uptr)&t);
  cur->vc.join(slot_of(o, 0, 8)->rel);
  ev_write(o, 91);
  if (ret) *ret = t.ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t th) {
  int id = (int)th - 1;
  if (id < 0 || id >= nf) fail("detach of something that is not a thread");
  if (F[id].joined || F[id].detached) fail("a thread is detached twice or after being joined");
  F[id].detached = true;
  return 0;
}
EXPORT pthread_t pthread_self() { return cur ? (pthread_t)(cur->id + 1) : (pthread_t)1; }
EXPORT int pthread_setname_np(pthread_t, const char*) { return 0; }
EXPORT int pthread_getname_np(pthread_t, char* b, size_t n) {
  if (n) *b = 0;
  return 0;
}
EXPORT int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
EXPORT int sched_yield() {
  if (!act()) return 0;
  RtScope rs;
  count_op();
  if (!multi) return 0;
  cur->yielded = true;
  schedule(true);
  cur->yielded = false;
  return 0;
}
EXPORT int nanosleep(const timespec*, timespec*) { return sched_yield(); }
EXPORT int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { return sched_yield(); }
EXPORT int usleep(useconds_t) { return sched_yield(); }
EXPORT unsigned sleep(unsigned) { sched_yield(); return 0; }
EXPORT int get_nprocs() { return hwc; }
EXPORT long sysconf(int n) {
  if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return hwc;
  static long (*real)(int) = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real(n);
}
EXPORT int clock_gettime(clockid_t, timespec* ts) {
  if (!cur) return (int)syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts);
  vt += 1000000;
  ts->tv_sec = 1000000 + vt / 1000000000;
  ts->tv_nsec = vt % 1000000000;
  return 0;
}
EXPORT int gettimeofday(timeval* tv, void*) {
  timespec ts;
  clock_gettime(0, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!act()) {
    if (!*o) {
      *o = 2;
      f();
    }
    return 0;
  }
  sched_point();
  in_rt = true;
  Obj* b = obj_of((uptr)o);
  while (b->owner) block(o, W_GUARD);
  if (*o == 2) {
    cur->vc.join(slot_of(b, 0, 8)->rel);
    ev_read(b, 95);
    in_rt = false;
    return 0;
  }
  b->owner = 1;
  ev_write(b, 96);
  in_rt = false;
  f();
  in_rt = true;
  b->owner = 0;
  *o = 2;
  slot_of(b, 0, 8)->rel.join(cur->vc);
  cur->vc.c[cur->id]++;
  ev_write(b, 97);
  wake(o, W_GUARD);
  in_rt = false;
  return 0;
}

// function-local statics
EXPORT int __cxa_guard_acquire(u8* g) {
  if (!act()) return !*g;
  sched_point();
  RtScope rs;
  Obj* o = obj_of((uptr)g >> 3);
  while (o->owner) {
    if (o->owner == cur->id + 1) fail("recursive initialisation of a static");
    block(g, W_GUARD);
  }
  cur->vc.join(slot_of(o, (uptr)g & 7, 1)->rel);
  ev_write(o, 98);
  if (*g) return 0;
  o->owner = cur->id + 1;
  return 1;
}
EXPORT void __cxa_guard_release(u8* g) {
  *g = 1;
  if (!act()) return;
  RtScope rs;
  Obj* o = obj_of((uptr)g >> 3);
  o->owner = 0;
  slot_of(o, (uptr)g & 7, 1)->rel.join(cur->vc);
  cur->vc.c[cur->id]++;
  ev_write(o, 99);
  wake(g, W_GUARD);
  progress();
}
EXPORT void __cxa_guard_abort(u8* g) {
  if (!act()) return;
  RtScope rs;
  Obj* o = obj_of((uptr)g >> 3);
  o->owner = 0;
  wake(g, W_GUARD);
}
// destructors of statics: the whole data segment is reset before each execution instead
EXPORT int __cxa_atexit(void (*f)(void*), void* o, void* d) {
  if (cur) return 0;
  static int (*real)(void (*)(void*), void*, void*) = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_atexit");
  return real(f, o, d);
}
EXPORT int __cxa_thread_atexit(void (*f)(void*), void* o, void*) {
  if (!cur) return 0;
  if (cur->ndtors == 32) hard_error("too many thread-local destructors");
  cur->dtors[cur->ndtors++] = {f, o};
  return 0;
}
EXPORT void* __emutls_get_address(emutls_ctrl* c) {
  if (c == &mcrt_once_callable) return &std::__once_callable;
  if (c == &mcrt_once_call) return &std::__once_call;
  if (!cur) {  // before / between executions
    if (!c->obj) {
      c->obj = __libc_memalign(c->align < 16 ? 16 : c->align, c->size);
      if (c->templ) memcpy(c->obj, c->templ, c->size);
      else memset(c->obj, 0, c->size);
    }
    return c->obj;
  }
  for (int i = 0; i < cur->ntls; i++)
    if (cur->tls[i].ctrl == c) return cur->tls[i].p;
  if (cur->ntls == 48) hard_error("too many thread-local variables");
  void* p = arena_alloc(c->size, c->align, 3, 0);
  if (c->templ) memcpy(p, c->templ, c->size);
  else memset(p, 0, c->size);
  cur->tls[cur->ntls++] = {c, p};
  return p;
}
EXPORT void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  const char* b = strrchr(f, '/');
  fail("assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l);
}
namespace std {
EXPORT void _ZSt21__glibcxx_assert_failPKciS0_S0_(const char* f, int l, const char* fn, const char* e) {
  const char* b = f ? strrchr(f, '/') : nullptr;
  fail("library assertion failed: %s (%s:%d)", e ? e : "?", b ? b + 1 : "?", l);
}
}

// ================================================================ memory
EXPORT void* malloc(size_t n) {
  if (!cur || in_rt) return __libc_malloc(n);
  void* p = arena_alloc(n, 16, 2, CALLER);
  if (!p) errno = ENOMEM;
  return p;
}
EXPORT void free(void* p) {
  if (!p) return;
  if (!in_arena(p)) return __libc_free(p);
  if (!cur) return;
  arena_free(p, 2, -1, 0, CALLER);
}
EXPORT void* calloc(size_t a, size_t b) {
  if (!cur || in_rt) return __libc_calloc(a, b);
  void* p = arena_alloc(a * b, 16, 2, CALLER);
  if (p) memset(p, 0, a * b);
  return p;
}
EXPORT void* realloc(void* p, size_t n) {
  if (p && !in_arena(p)) return __libc_realloc(p, n);
  if (!cur || in_rt) return __libc_realloc(p, n);
  void* q = arena_alloc(n, 16, 2, CALLER);
  if (p && q) {
    Hdr* h = hdr_of(p);
    memcpy(q, p, h && h->size < n ? h->size : n);
    arena_free(p, 2, -1, 0, CALLER);
  }
  return q;
}
EXPORT void* memalign(size_t al, size_t n) {
  if (!cur || in_rt) return __libc_memalign(al, n);
  return arena_alloc(n, al, 2, CALLER);
}
EXPORT void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT int posix_memalign(void** p, size_t al, size_t n) {
  *p = memalign(al, n);
  return *p ? 0 : ENOMEM;
}
#define NEWEXP __attribute__((visibility("default")))
NEWEXP void* operator new(size_t n) { return do_new(n, 16, 1, false, CALLER); }
NEWEXP void* operator new[](size_t n) { return do_new(n, 16, 1, false, CALLER); }
NEWEXP void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, 1, true, CALLER); }
NEWEXP void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, 1, true, CALLER); }
NEWEXP void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 5, false, CALLER); }
NEWEXP void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 5, false, CALLER); }
NEWEXP void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, 5, true, CALLER); }
NEWEXP void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, 5, true, CALLER); }
NEWEXP void operator delete(void* p) noexcept { do_delete(p, 1, -1, 0, CALLER); }
NEWEXP void operator delete[](void* p) noexcept { do_delete(p, 1, -1, 0, CALLER); }
NEWEXP void operator delete(void* p, size_t n) noexcept { do_delete(p, 1, n, 0, CALLER); }
NEWEXP void operator delete[](void* p, size_t n) noexcept { do_delete(p, 1, n, 0, CALLER); }
NEWEXP void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 1, -1, 0, CALLER); }
NEWEXP void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 1, -1, 0, CALLER); }
NEWEXP void operator delete(void* p, std::align_val_t a) noexcept { do_delete(p, 5, -1, (size_t)a, CALLER); }
NEWEXP void operator delete[](void* p, std::align_val_t a) noexcept { do_delete(p, 5, -1, (size_t)a, CALLER); }
NEWEXP void operator delete(void* p, size_t n, std::align_val_t a) noexcept { do_delete(p, 5, n, (size_t)a, CALLER); }
NEWEXP void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { do_delete(p, 5, n, (size_t)a, CALLER); }

// ================================================================ harness API
EXPORT int mc_weak_fail(void) {
  if (!act() || !multi) return 0;
  RtScope rs;
  return data_choice(2, 2, "weak compare-exchange fails spuriously");
}
EXPORT int mc_choose(int n, const char* what) { return cur && n > 1 ? data_choice(n, 0, what) : 0; }
EXPORT int mc_choose_dev(int n, const char* what) { return cur && n > 1 ? data_choice(n, 0xFFFE, what) : 0; }
EXPORT void mc_point(const char* what) {
  if (!act()) return;
  sched_point();
  RtScope rs;
  TRACE(CALLER, "point %s", what);
  if (multi) ev_write(obj_of(24), 100);
}
EXPORT void mc_fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (!cur) hard_error("mc_fail outside of an execution");
  failv(fmt, ap);
}
EXPORT void mc_log(int tag, long a, long b) {
  RtScope rs;
  logv.push_back({tag, cur ? cur->id : 0, a, b});
  TRACE(CALLER, "log %d %ld %ld", tag, a, b);
  if (multi) {
    ev_write(obj_of(32), mix(tag, mix(a, b)));
  }
}
EXPORT int mc_log_size() { return logv.size(); }
EXPORT int mc_log_tag(int i) { return logv.at(i).tag; }
EXPORT long mc_log_a(int i) { return logv.at(i).a; }
EXPORT long mc_log_b(int i) { return logv.at(i).b; }
EXPORT int mc_log_tid(int i) { return logv.at(i).tid; }
EXPORT void mc_outcome(const char* fmt, ...) {
  RtScope rs;
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (exec_outcome.size()) exec_outcome += " | ";
  exec_outcome += b;
}
EXPORT void mc_note(const char* fmt, ...) {
  if (!verbose) return;
  RtScope rs;
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  trace(CALLER, "%s", b);
}
EXPORT void mc_stop_here() {
  in_rt = true;
  abandon();
}
EXPORT void mc_merge(uint64_t key) {
  if (!cur || pos < stackp.size() || replaying) return;
  RtScope rs;
  if (visit(mix(key, 0xABCDEF), bound - used)) {
    n_pruned++;
    abandon();
  }
}
EXPORT int mc_self() { return cur ? cur->id : 0; }
EXPORT int mc_threads_started() { return nf - 1; }
EXPORT int mc_threads_alive() {
  int n = 0;
  for (int i = 1; i < nf; i++)
    if (F[i].st != S_DONE) n++;
  return n;
}
EXPORT long mc_live_blocks() { return live_blocks; }
EXPORT long mc_live_bytes() { return live_bytes; }
EXPORT long mc_total_allocs() { return total_allocs; }
EXPORT int mc_block_live(const void* p) {
  if (!in_arena(p) || ((uptr)p & 15)) return 0;
  Hdr* h = hdr_of(p);
  return h && !h->freed;
}
EXPORT long mc_block_size(const void* p) { return mc_block_live(p) ? (long)hdr_of(p)->size : -1; }
EXPORT int mc_addr_live(const void* p) {
  if (!in_arena(p)) return 0;
  u8 s = st_arena[((uptr)p - ARENA) >> 3];
  return s <= 8 && ((uptr)p & 7) < s;
}
EXPORT void mc_faults_new(int on) { faults_new = on; }
EXPORT void mc_faults_thread(int on) { faults_thread = on; }
EXPORT long mc_faults_taken() { return faults_taken; }
EXPORT void mc_quiet_begin() { if (cur) cur->quiet++; }
EXPORT void mc_quiet_end() { if (cur) cur->quiet--; }
EXPORT void mc_horizon(unsigned long n) { horizon = n; }
EXPORT void mc_allow_leaks() {
  for (Hdr* h : blocks)
    if (!h->freed) h->allow_leak = 1;
}
EXPORT void mc_allow_stuck_threads() { allow_stuck = true; }
EXPORT void mc_hw_concurrency(int n) { hwc = n; }
static bool thorough = false;
EXPORT int mc_thorough(void) { return thorough; }
EXPORT int mc_wait_quiescent() {
  if (!act()) return 0;
  RtScope rs;
  count_op();
  if (!multi) return 0;
  cur->st = S_QUIET;
  schedule(false);
  int n = 0;
  for (int i = 0; i < nf; i++)
    if (&F[i] != cur && F[i].st != S_DONE) n++;
  // everything the others did so far is visible to the oracle
  for (int i = 0; i < nf; i++)
    if (&F[i] != cur) {
      cur->vc.join(F[i].vc);
      F[i].vc.c[i]++;
    }
  set_h(cur, mix(cur->h, fp));
  return n;
}
EXPORT void mc_register(mc_scenario_desc* d) {
  mc_scenario_desc** p = &scenarios;
  while (*p) p = &(*p)->next;
  *p = d;
}
EXPORT int mc_main(int argc, char** argv) {
  const char* scn = nullptr;
  int maxb = -1;
  double budget = 1e9;
  bool list = false;
  const char* rep = nullptr;
  for (int i = 1; i < argc; i++) {
    auto is = [&](const char* n) { return !strcmp(argv[i], n) && i + 1 < argc; };
    if (is("--scenario")) scn = argv[++i];
    else if (is("--bound")) maxb = atoi(argv[++i]);
    else if (is("--time")) budget = atof(argv[++i]);
    else if (is("--out")) out_path = argv[++i];
    else if (is("--replay")) rep = argv[++i];
    else if (!strcmp(argv[i], "--list")) list = true;
    else if (!strcmp(argv[i], "--thorough")) thorough = true;
    else if (!strcmp(argv[i], "--verbose")) verbose = true;
    else if (!strcmp(argv[i], "--sc")) weak_memory = false;
    else if (!strcmp(argv[i], "--traces")) record_traces = true;
    else if (!strcmp(argv[i], "--no-prune")) no_prune = true;
    else {
      fprintf(stderr, "usage: --list | --scenario S [--bound N] [--time SEC] [--thorough] [--out FILE] [--replay 'c c c' [--verbose]]\n");
      return 2;
    }
  }
  if (list) {
    for (auto* d = scenarios; d; d = d->next) printf("%s\t%d\t%d\t%s\n", d->name, d->quick_bound, d->thorough_bound, d->what);
    return 0;
  }
  mc_scenario_desc* d = scenarios;
  while (d && (!scn || strcmp(d->name, scn))) d = d->next;
  if (!d) {
    fprintf(stderr, "MC-ERROR no scenario %s\n", scn ? scn : "(none)");
    return 3;
  }
  cur_scn = d->name;
  __libc_single_threaded = 0;
  map_memory();
  snapshot();
  std::set_terminate(on_terminate);
  void* warm[4];
  backtrace(warm, 4);  // loads libgcc_s now
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int sg : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}) sigaction(sg, &sa, nullptr);
  sa.sa_sigaction = on_vtalrm;
  sigaction(SIGVTALRM, &sa, nullptr);
  itimerval iv{{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &iv, nullptr);
  t_start = now();
  if (rep) {
    replaying = true;
    for (const char* p = rep; *p;) {
      char* e;
      long v = strtol(p, &e, 10);
      if (e == p) break;
      replay.push_back((u8)v);
      p = e;
    }
    bound = 1000;
    run_once(d);
    write_out("ok", "replayed without a violation", nullptr, 0);
    _exit(0);
  }
  if (maxb < 0) maxb = thorough ? d->thorough_bound : d->quick_bound;
  explore(d, maxb, budget);
  write_out("ok", "", nullptr, 0);
  _exit(0);
}
