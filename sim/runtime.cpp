// Simulator runtime: choice source, memory/allocation seams, task scheduler,
// search driver, gate, minimiser, replay.  Compiled without instrumentation.
#include "sim.h"

#include <cxxabi.h>
#include <fcntl.h>
#include <new>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <memory>
#include <set>

extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
}

namespace sim {

// ------------------------------------------------------------ shared state
static constexpr uint32_t kMaxChoices = 1u << 18;
static constexpr uint32_t kMaxSpans = 1u << 14;
static constexpr uint32_t kMaxStats = 512;
static constexpr uint32_t kBitmapBits = 1u << 22;
static constexpr uint32_t kTraceCap = 1u << 18;

struct Shared {
  uint64_t cur_run, chunk_first;
  uint64_t hash;
  uint32_t nchoice, nspan, done, truncated;
  uint32_t choice[kMaxChoices];
  uint32_t span[kMaxSpans][2];
  char kind[96];
  char during[32];
  char msg[1024];
  uint32_t ntrace;
  char trace[kTraceCap];
  uint32_t nstats;
  char stat_name[kMaxStats][48];
  uint64_t stat_val[kMaxStats];
  uint64_t runs, steps, events, simtime, draws;
  uint8_t states[kBitmapBits / 8];
  uint8_t scheds[kBitmapBits / 8];
};
static Shared* S = nullptr; // the block this process writes to

static Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return static_cast<Shared*>(p);
}

bool trace_on = false;
bool thorough = false;
bool observing = false;
uint64_t alloc_calls = 0;
bool alloc_fail = false;
bool alloc_forbidden = false;
static const char* only_kind = nullptr;
uint64_t now = 0;

static const uint32_t* g_replay = nullptr;
static uint32_t g_nreplay = 0;
static uint64_t g_rng[2];
static uint64_t g_steps = 0;
static uint64_t g_run_events = 0;
static uint64_t g_step_limit = 20000000;
static bool g_skip_compare = false;
static uint32_t g_span_depth = 0;
static uint32_t g_span_stack[64];

uint64_t run_index() { return S->cur_run; }

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t rng_next() { // xorshift128+
  uint64_t a = g_rng[0], b = g_rng[1];
  g_rng[0] = b;
  a ^= a << 23;
  g_rng[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return g_rng[1] + b;
}

uint32_t draw(uint32_t n) {
  if (n <= 1) n = 1;
  uint32_t v;
  uint32_t const i = S->nchoice;
  if (g_replay) {
    v = i < g_nreplay ? g_replay[i] : 0;
    if (v >= n) v = n == 0xffffffffu ? v : v % n;
  } else {
    v = n == 1 ? 0 : static_cast<uint32_t>((rng_next() >> 32) * static_cast<uint64_t>(n) >> 32);
  }
  if (i < kMaxChoices) {
    S->choice[i] = v;
    S->nchoice = i + 1;
  } else {
    S->truncated = 1;
    v = 0;
  }
  return v;
}
uint64_t draw64() {
  uint64_t hi = draw(0xffffffffu);
  return hi << 32 | draw(0xffffffffu);
}
uint32_t weighted(const uint32_t* w, uint32_t n) {
  uint32_t tot = 0;
  for (uint32_t i = 0; i < n; ++i) tot += w[i];
  uint32_t v = draw(tot);
  for (uint32_t i = 0; i < n; ++i) {
    if (v < w[i]) return i;
    v -= w[i];
  }
  return 0;
}

Span::Span() {
  uint32_t s = 0xffffffffu;
  if (S->nspan < kMaxSpans) {
    s = S->nspan++;
    S->span[s][0] = S->nchoice;
    S->span[s][1] = S->nchoice;
  }
  if (g_span_depth < 64) g_span_stack[g_span_depth] = s;
  ++g_span_depth;
}
Span::~Span() {
  --g_span_depth;
  if (g_span_depth < 64) {
    uint32_t s = g_span_stack[g_span_depth];
    if (s != 0xffffffffu) S->span[s][1] = S->nchoice;
  }
}

void ev(uint64_t a) {
  S->hash = mix(S->hash, a);
  S->events++;
  g_run_events++;
}

void tracef(const char* fmt, ...) {
  if (!trace_on) return;
  bool const o = observing;
  observing = false;
  va_list ap;
  va_start(ap, fmt);
  if (S->ntrace + 512 < kTraceCap) {
    int n = vsnprintf(S->trace + S->ntrace, 500, fmt, ap);
    if (n > 498) n = 498;
    if (n > 0) {
      S->ntrace += n;
      S->trace[S->ntrace++] = '\n';
    }
  }
  va_end(ap);
  observing = o;
}

uint32_t stat_slot(const char* name) {
  for (uint32_t i = 0; i < S->nstats; ++i)
    if (!strcmp(S->stat_name[i], name)) return i;
  if (S->nstats == kMaxStats) harness_error("too many stats");
  uint32_t i = S->nstats++;
  snprintf(S->stat_name[i], sizeof S->stat_name[i], "%s", name);
  return i;
}
// Slots are resolved lazily through statics; workers are forked before any
// harness code runs, so a static slot always belongs to this process' block
// (replay/gate children reset the table, hence the name re-check).
void stat_add(uint32_t slot, uint64_t n) { S->stat_val[slot] += n; }

void cover_state(uint64_t h) {
  h = mix(h, 0x5151);
  uint32_t b = static_cast<uint32_t>(h % kBitmapBits);
  S->states[b >> 3] |= uint8_t(1u << (b & 7));
}
void cover_sched(uint64_t h) {
  h = mix(h, 0x7272);
  uint32_t b = static_cast<uint32_t>(h % kBitmapBits);
  S->scheds[b >> 3] |= uint8_t(1u << (b & 7));
}

enum { kExitViolation = 70, kExitHarness = 71 };

void during(const char* kind) { snprintf(S->during, sizeof S->during, "%s", kind ? kind : ""); }
bool expect_assert = false, asserted = false;

void violate(const char* kind, const char* fmt, ...) {
  observing = false;
  if (S->during[0]) kind = S->during;
  if (only_kind && strcmp(kind, only_kind)) { // not this harness's business
    S->done = 1;
    _exit(0);
  }
  snprintf(S->kind, sizeof S->kind, "%s", kind);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  if (trace_on) tracef("VIOLATED %s: %s", S->kind, S->msg);
  S->steps += g_steps;
  _exit(kExitViolation);
}
void skip_compare() { g_skip_compare = true; }
void harness_error(const char* fmt, ...) {
  observing = false;
  snprintf(S->kind, sizeof S->kind, "harness-error");
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  _exit(kExitHarness);
}

uint64_t steps() { return g_steps; }
void step() {
  if (++g_steps > g_step_limit) {
    g_steps = 0;
    violate("no-progress", "run exceeded %llu simulated memory accesses",
            (unsigned long long)g_step_limit);
  }
}

// ------------------------------------------------------------ memory seam
struct Region { uintptr_t lo, hi; int id; };
static Region g_regions[32];
static int g_nregions = 0;
static uintptr_t g_hull_lo = ~uintptr_t(0), g_hull_hi = 0;
static MemObserver g_observer = nullptr;

void watch(int id, const void* p, size_t n) {
  if (g_nregions == 32) harness_error("too many regions");
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  g_regions[g_nregions++] = {a, a + n, id};
  g_hull_lo = std::min(g_hull_lo, a);
  g_hull_hi = std::max(g_hull_hi, a + n);
}
void unwatch_all() {
  g_nregions = 0;
  g_hull_lo = ~uintptr_t(0);
  g_hull_hi = 0;
  g_observer = nullptr;
}
void set_observer(MemObserver o) { g_observer = o; }

static void access_slow(uintptr_t a, size_t n, bool w) {
  for (int i = 0; i < g_nregions; ++i) {
    if (a < g_regions[i].hi && a + n > g_regions[i].lo) {
      MemEvent e{w, a, n, g_regions[i].id};
      observing = false;
      g_observer(e);
      observing = true;
      return;
    }
  }
}
static inline void access(const void* p, size_t n, bool w) {
  if (!observing) return;
  if (++g_steps > g_step_limit) { --g_steps; step(); }
  if (!g_observer) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (a >= g_hull_hi || a + n <= g_hull_lo) return;
  access_slow(a, n, w);
}

// ------------------------------------------------------------ tasks
struct EhGlobals { void* caught; unsigned int uncaught; };
struct Task {
  ucontext_t ctx;
  void* stack;
  std::function<void()> fn;
  const char* name;
  enum { READY, BLOCKED, SLEEPING, DONE } st;
  const void* key;
  uint64_t wake_at;
  EhGlobals eh;
};
static constexpr size_t kStack = 128 * 1024;
static std::vector<Task*> g_tasks;
static std::vector<void*> g_free_stacks;
static ucontext_t g_sched_ctx;
static EhGlobals g_sched_eh;
static int g_cur = -1;
static uint32_t g_gap = 0, g_max_gap = 0;
static uint64_t g_sched_hash = 0;

static EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()); }

static void* get_stack() {
  if (!g_free_stacks.empty()) {
    void* p = g_free_stacks.back();
    g_free_stacks.pop_back();
    return p;
  }
  void* p = mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) harness_error("stack mmap");
  mprotect(p, 4096, PROT_NONE);
  return p;
}
static void to_sched() {
  Task* t = g_tasks[g_cur];
  bool const o = observing;
  observing = false;
  t->eh = *eh();
  *eh() = g_sched_eh;
  swapcontext(&t->ctx, &g_sched_ctx);
  observing = o;
}
static void task_main() {
  Task* t = g_tasks[g_cur];
  try {
    t->fn();
  } catch (std::exception const& e) {
    violate("escaped-exception", "task %s ended with exception: %s", t->name, e.what());
  } catch (...) {
    violate("escaped-exception", "task %s ended with an exception", t->name);
  }
  t->st = Task::DONE;
  observing = false;
  *eh() = g_sched_eh;
  setcontext(&g_sched_ctx);
}
static Task* make_task(std::function<void()> fn, const char* name) {
  Task* t = new Task();
  t->stack = get_stack();
  t->fn = std::move(fn);
  t->name = name;
  t->st = Task::READY;
  t->key = nullptr;
  t->wake_at = 0;
  t->eh = {nullptr, 0};
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_sp = static_cast<char*>(t->stack) + 4096;
  t->ctx.uc_stack.ss_size = kStack;
  t->ctx.uc_link = nullptr;
  makecontext(&t->ctx, task_main, 0);
  return t;
}
int spawn(std::function<void()> fn, const char* name) {
  g_tasks.push_back(make_task(std::move(fn), name));
  return static_cast<int>(g_tasks.size()) - 1;
}
static void resume(int i) {
  g_cur = i;
  Task* t = g_tasks[i];
  g_sched_eh = *eh();
  *eh() = t->eh;
  g_gap = g_max_gap ? draw(g_max_gap + 1) : 0;
  swapcontext(&g_sched_ctx, &t->ctx);
  observing = false;
  g_cur = -1;
}
static bool g_cut = false;
void run_tasks(uint64_t max_steps) {
  int last = -1;
  uint64_t steps = 0;
  std::vector<int> ready;
  for (;;) {
    ready.clear();
    bool alive = false;
    if (last >= 0 && g_tasks[last]->st == Task::READY) ready.push_back(last);
    for (int i = 0; i < static_cast<int>(g_tasks.size()); ++i) {
      Task* t = g_tasks[i];
      if (t->st != Task::DONE) alive = true;
      if (t->st == Task::SLEEPING && t->wake_at <= now) t->st = Task::READY;
      if (t->st == Task::READY && i != last) ready.push_back(i);
    }
    if (last >= 0 && g_tasks[last]->st == Task::READY && ready.empty()) ready.push_back(last);
    if (!alive) break;
    if (ready.empty()) {
      uint64_t t0 = ~uint64_t(0);
      for (Task* t : g_tasks)
        if (t->st == Task::SLEEPING) t0 = std::min(t0, t->wake_at);
      if (t0 == ~uint64_t(0)) violate("deadlock", "every task is blocked, no timer pending");
      now = std::max(now, t0);
      continue;
    }
    if (++steps > max_steps)
      violate("no-progress", "tasks not finished within %llu scheduling steps", (unsigned long long)max_steps);
    int pick = ready[ready.size() == 1 ? 0 : draw(static_cast<uint32_t>(ready.size()))];
    if (pick != last) STAT("sched.switches");
    g_sched_hash = mix(g_sched_hash, static_cast<uint64_t>(pick));
    last = pick;
    resume(pick);
    if (g_cut) return;
    if (g_tasks[pick]->st == Task::DONE && g_tasks[pick]->stack) {
      g_free_stacks.push_back(g_tasks[pick]->stack);
      g_tasks[pick]->stack = nullptr;
    }
  }
}
void yield() {
  if (g_cur < 0) return;
  to_sched();
}
void preempt_point() {
  if (g_cur < 0 || g_gap == 0) return;
  if (--g_gap == 0) {
    STAT("sched.preemptions");
    g_sched_hash = mix(g_sched_hash, g_steps & 0xffff);
    to_sched();
  }
}
void sleep_until(uint64_t t) {
  if (g_cur < 0) return;
  g_tasks[g_cur]->wake_at = t;
  g_tasks[g_cur]->st = Task::SLEEPING;
  to_sched();
}
void block_on(const void* what) {
  if (g_cur < 0) violate("deadlock", "would block outside any task");
  g_tasks[g_cur]->key = what;
  g_tasks[g_cur]->st = Task::BLOCKED;
  to_sched();
}
void wake(const void* what) {
  for (Task* t : g_tasks)
    if (t->st == Task::BLOCKED && t->key == what) t->st = Task::READY;
}
int current_task() { return g_cur; }
void set_preempt_max_gap(uint32_t g) { g_max_gap = g; }
uint64_t sched_hash() { return g_sched_hash; }
static void drop_tasks();
void reset_tasks() {
  g_cut = false;
  drop_tasks();
  g_max_gap = 0;
  now = 0;
  g_sched_hash = 0;
}

static void drop_tasks() {
  for (Task* t : g_tasks) {
    if (t->stack) g_free_stacks.push_back(t->stack);
    // an abandoned task's closure may own objects the cut destroyed: leak it
    if (t->st == Task::DONE) delete t;
  }
  g_tasks.clear();
  g_cur = -1;
  g_gap = 0;
}
bool run_tasks_until_cut(uint64_t max_steps) {
  g_cut = false;
  run_tasks(max_steps);
  bool const cut = g_cut;
  g_cut = false;
  drop_tasks();
  return !cut;
}
bool run_abandonable(std::function<void()> fn) {
  if (g_cur >= 0) harness_error("nested run_abandonable");
  g_tasks.push_back(make_task(std::move(fn), "node"));
  int i = static_cast<int>(g_tasks.size()) - 1;
  g_cut = false;
  uint32_t mg = g_max_gap;
  g_max_gap = 0;
  resume(i);
  g_max_gap = mg;
  Task* t = g_tasks[i];
  if (!g_cut && t->st != Task::DONE) harness_error("abandonable task blocked");
  g_tasks.pop_back();
  g_free_stacks.push_back(t->stack);
  if (!g_cut) delete t;
  return !g_cut;
}
void power_cut() {
  if (g_cur < 0) harness_error("power_cut outside task");
  g_cut = true;
  observing = false;
  *eh() = g_sched_eh;
  setcontext(&g_sched_ctx);
  abort();
}

static void reset_run(uint64_t seed, uint64_t run) {
  uint64_t x = seed * 0x9e3779b97f4a7c15ull + run * 0xd1342543de82ef95ull + 0x1234567;
  g_rng[0] = splitmix(x);
  g_rng[1] = splitmix(x);
  S->cur_run = run;
  S->nchoice = S->nspan = 0;
  S->truncated = 0;
  S->hash = 0x243f6a8885a308d3ull;
  S->kind[0] = S->msg[0] = S->during[0] = 0;
  expect_assert = asserted = false;
  S->ntrace = 0;
  S->done = 0;
  g_span_depth = 0;
  g_steps = 0;
  g_run_events = 0;
  g_skip_compare = false;
  observing = false;
  alloc_fail = false;
  alloc_calls = 0;
  alloc_forbidden = false;
  unwatch_all();
  reset_tasks();
}

} // namespace sim

// -------------------------------------------------------------- tsan ABI
using sim::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                  \
  void __tsan_read##n(void* p) { access(p, n, false); }                        \
  void __tsan_write##n(void* p) { access(p, n, true); }                        \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); }               \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); }               \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); }              \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
#define ATOMIC(bits, T)                                                        \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { access((const void*)a, sizeof(T), false); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access((const void*)a, sizeof(T), true); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access((const void*)a, sizeof(T), true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access((const void*)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access((const void*)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access((const void*)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access((const void*)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access((const void*)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((const void*)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, f); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int m, int f) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, m, f); return c; }
ATOMIC(8, char) ATOMIC(16, short) ATOMIC(32, int) ATOMIC(64, long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void __assert_fail(const char* expr, const char* file, unsigned line, const char*) noexcept(true) {
  const char* b = strrchr(file, '/');
  (void)line;
  if (sim::expect_assert) { // where the program would end
    sim::expect_assert = false;
    sim::asserted = true;
    if (sim::trace_on) sim::tracef("  stopped by assert(%s)", expr);
    sim::power_cut();
  }
  sim::violate("assertion", "assert(%s) failed in %s", expr, b ? b + 1 : file);
}

bool sim_memcpy_descending = false;
static void copy_chunks(unsigned char* d, const unsigned char* s, size_t n, bool desc) {
  size_t const chunk = n <= 64 ? 1 : (n + 63) / 64;
  if (!desc) {
    for (size_t i = 0; i < n; i += chunk) {
      size_t k = std::min(chunk, n - i);
      access(d + i, k, true);
      __real_memcpy(d + i, s + i, k);
    }
  } else {
    size_t i = n;
    while (i > 0) {
      size_t k = std::min(chunk, i);
      i -= k;
      access(d + i, k, true);
      __real_memcpy(d + i, s + i, k);
    }
  }
}
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (!sim::observing || n == 0) return __real_memcpy(d, s, n);
  access(s, n, false);
  copy_chunks(static_cast<unsigned char*>(d), static_cast<const unsigned char*>(s), n, sim_memcpy_descending);
  return d;
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (!sim::observing || n == 0) return __real_memmove(d, s, n);
  access(s, n, false);
  bool overlap = (const char*)d < (const char*)s + n && (const char*)s < (const char*)d + n;
  if (overlap) {
    access(d, n, true);
    return __real_memmove(d, s, n);
  }
  copy_chunks(static_cast<unsigned char*>(d), static_cast<const unsigned char*>(s), n, sim_memcpy_descending);
  return d;
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (!sim::observing || n == 0) return __real_memset(d, c, n);
  auto* p = static_cast<unsigned char*>(d);
  size_t const chunk = n <= 64 ? 1 : (n + 63) / 64;
  for (size_t i = 0; i < n; i += chunk) {
    size_t k = std::min(chunk, n - i);
    access(p + i, k, true);
    __real_memset(p + i, c, k);
  }
  return d;
}
static bool alloc_event() {
  if (!sim::observing) return false;
  sim::alloc_calls++;
  if (sim::alloc_forbidden) sim::violate("allocation", "library code requested dynamic memory");
  return sim::alloc_fail;
}
void* __wrap_malloc(size_t n) { return alloc_event() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return alloc_event() ? nullptr : __real_calloc(a, b); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return alloc_event() ? nullptr : __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { return alloc_event() ? 12 : __real_posix_memalign(p, a, n); }
void* __wrap_realloc(void* p, size_t n) { return alloc_event() ? nullptr : __real_realloc(p, n); }
}

void* operator new(size_t n) {
  if (alloc_event()) throw std::bad_alloc();
  void* p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return alloc_event() ? nullptr : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, std::nothrow_t const& t) noexcept { return operator new(n, t); }
void* operator new(size_t n, std::align_val_t a) {
  if (alloc_event()) throw std::bad_alloc();
  void* p = __real_aligned_alloc(static_cast<size_t>(a), (n + static_cast<size_t>(a) - 1) / static_cast<size_t>(a) * static_cast<size_t>(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// ------------------------------------------------------------------ driver
namespace sim {

static void arm_watchdog(int sec) {
  itimerval tv{};
  tv.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &tv, nullptr);
}
static void on_terminate() { violate("terminate", "std::terminate called"); }

static const Harness* g_h = nullptr;
static constexpr uint64_t kNonTrivialEvents = 10;

static void child_setup() {
  std::set_terminate(on_terminate);
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}
static void exec_run(uint64_t seed, uint64_t run) {
  reset_run(seed, run);
  g_h->run();
  observing = false;
  S->steps += g_steps;
  S->simtime += now;
  S->draws += S->nchoice;
  if (!g_tasks.empty() || g_sched_hash) cover_sched(g_sched_hash);
  S->runs++;
  S->done = 1;
}

struct Result {
  std::string kind; // empty: passed
  std::string msg;
  uint64_t hash = 0;
  bool operator==(Result const& o) const { return kind == o.kind && hash == o.hash; }
};
static std::string sig_kind(int sig) {
  if (sig == SIGPROF || sig == SIGALRM) return "hang";
  return "signal-" + std::to_string(sig);
}
static Result decode(int status, Shared* s) {
  Result r;
  r.hash = s->hash;
  if (WIFSIGNALED(status)) {
    r.kind = sig_kind(WTERMSIG(status));
    r.msg = strsignal(WTERMSIG(status));
  } else if (WEXITSTATUS(status) == kExitViolation || WEXITSTATUS(status) == kExitHarness) {
    r.kind = s->kind;
    r.msg = s->msg;
  } else if (WEXITSTATUS(status) != 0) {
    // the code under test left the process
    r.kind = "exit-" + std::to_string(WEXITSTATUS(status));
    r.msg = "process left with an exit code";
  } else if (!s->done) {
    r.kind = "exit-0";
    r.msg = "process left early";
  }
  if (s->during[0] && !r.kind.empty() && r.kind != "harness-error") {
    if (r.kind != s->during) r.msg = r.kind + ": " + r.msg;
    r.kind = s->during;
  }
  return r;
}

// Run in a forked child: either a replay of `choices`, or the session of
// generated runs first..last (the verdict is that of `last`).
static Result run_child(Shared* sh, uint64_t seed, uint64_t first, uint64_t last,
                        const std::vector<uint32_t>* choices, bool trace) {
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    S = sh;
    S->nstats = 0;
    child_setup();
    for (uint64_t r = first; r <= last; ++r) {
      arm_watchdog(20);
      if (choices && r == last) {
        g_replay = choices->data();
        g_nreplay = static_cast<uint32_t>(choices->size());
      }
      trace_on = trace && r == last;
      exec_run(seed, r);
    }
    _exit(0);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return decode(st, sh);
}

// ---- minimiser
struct Shrinker {
  Shared* sh;
  uint64_t seed, run, first;
  std::string kind;
  std::vector<uint32_t> best;
  std::vector<std::pair<uint32_t, uint32_t>> spans;
  uint32_t execs = 0, max_execs = 2500;
  time_t deadline = 0;
  bool exhausted() const { return execs >= max_execs || time(nullptr) > deadline; }
  bool attempt(std::vector<uint32_t> const& c) {
    if (exhausted()) return false;
    ++execs;
    Result r = run_child(sh, seed, first, run, &c, false);
    if (r.kind != kind) return false;
    std::vector<uint32_t> used(sh->choice, sh->choice + sh->nchoice);
    while (!used.empty() && used.back() == 0) used.pop_back();
    bool better = used.size() < best.size() ||
                  (used.size() == best.size() && std::lexicographical_compare(used.begin(), used.end(), best.begin(), best.end()));
    if (!better) return false;
    best = used;
    spans.clear();
    for (uint32_t i = 0; i < sh->nspan; ++i)
      if (sh->span[i][1] > sh->span[i][0]) spans.emplace_back(sh->span[i][0], sh->span[i][1]);
    return true;
  }
  void shrink() {
    bool progress = true;
    while (progress && !exhausted()) {
      progress = false;
      // chop the tail
      for (size_t cut = best.size() / 2; cut > 0 && !exhausted(); cut /= 2) {
        while (best.size() > cut && !exhausted()) {
          std::vector<uint32_t> c(best.begin(), best.end() - cut);
          if (!attempt(c)) break;
          progress = true;
        }
      }
      // remove runs of spans, then single spans
      for (int group = 8; group >= 1 && !exhausted(); group /= 2) {
        for (int i = static_cast<int>(spans.size()) - group; i >= 0 && !exhausted(); --i) {
          if (i + group > static_cast<int>(spans.size())) continue;
          uint32_t a = spans[i].first, b = spans[i].second;
          for (int k = 1; k < group; ++k) b = std::max(b, spans[i + k].second);
          if (a >= best.size()) continue;
          b = std::min<uint32_t>(b, best.size());
          std::vector<uint32_t> c(best.begin(), best.begin() + a);
          c.insert(c.end(), best.begin() + b, best.end());
          if (attempt(c)) progress = true;
        }
      }
      for (uint32_t n : {8u, 4u, 2u, 1u})
        for (int i = static_cast<int>(best.size()) - static_cast<int>(n); i >= 0 && !exhausted(); --i) {
          if (i + n > best.size()) continue;
          std::vector<uint32_t> c(best.begin(), best.begin() + i);
          c.insert(c.end(), best.begin() + i + n, best.end());
          if (attempt(c)) progress = true;
        }
      for (size_t i = 0; i < best.size() && !exhausted(); ++i) {
        if (best[i] == 0) continue;
        std::vector<uint32_t> c = best;
        c[i] = 0;
        if (attempt(c)) { progress = true; continue; }
        uint32_t lo = 0, hi = i < best.size() ? best[i] : 0;
        while (lo + 1 < hi && !exhausted()) {
          uint32_t mid = lo + (hi - lo) / 2;
          if (i >= best.size()) break;
          c = best;
          c[i] = mid;
          if (attempt(c)) { progress = true; hi = i < best.size() ? best[i] : 0; }
          else lo = mid;
        }
      }
    }
  }
};

struct Options {
  std::string prop, out, replay_out, replay, hash_out, variant = "default", expect;
  uint64_t seed = 1, runs = 1000, from = 0;
  int jobs = 8;
  double max_seconds = 600;
  bool hashes = false, trace = false, eval = false;
  uint64_t chunk = 100;
  int samples = 3;
  uint64_t recheck = 200;
};

static std::string json_escape(std::string const& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

struct ReplayFile {
  std::string prop, variant, kind, msg;
  uint64_t seed = 0, first = 0, run = 0, hash = 0;
  bool session = false;
  std::vector<uint32_t> choices;
};
static void write_replay(std::string const& path, ReplayFile const& r, std::string const& trace) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(2); }
  fprintf(f, "# libembedded deterministic-simulation replay\n");
  fprintf(f, "property %s\nvariant %s\nkind %s\nmessage %s\nseed %llu\nfirst %llu\nrun %llu\nhash %016llx\nthorough %d\n",
          r.prop.c_str(), r.variant.c_str(), r.kind.c_str(), r.msg.c_str(), (unsigned long long)r.seed,
          (unsigned long long)r.first, (unsigned long long)r.run, (unsigned long long)r.hash, thorough ? 1 : 0);
  fprintf(f, "choices %zu", r.choices.size());
  for (size_t i = 0; i < r.choices.size(); ++i) fprintf(f, "%s%u", i % 24 == 0 ? "\n  " : " ", r.choices[i]);
  fprintf(f, "\nend\n# minimised schedule and fault trace\n");
  size_t p = 0;
  while (p < trace.size()) {
    size_t e = trace.find('\n', p);
    if (e == std::string::npos) e = trace.size();
    fprintf(f, "#   %s\n", trace.substr(p, e - p).c_str());
    p = e + 1;
  }
  fclose(f);
}
static bool read_replay(std::string const& path, ReplayFile& r) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return false;
  char line[4096];
  auto u64 = [](const char* s, int base = 10) { return strtoull(s, nullptr, base); };
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    char* v = strchr(line, ' ');
    if (!v) continue;
    *v++ = 0;
    v[strcspn(v, "\n")] = 0;
    std::string k = line;
    if (k == "property") r.prop = v;
    else if (k == "variant") r.variant = v;
    else if (k == "kind") r.kind = v;
    else if (k == "message") r.msg = v;
    else if (k == "seed") r.seed = u64(v);
    else if (k == "first") r.first = u64(v);
    else if (k == "run") r.run = u64(v);
    else if (k == "hash") r.hash = u64(v, 16);
    else if (k == "thorough") thorough = atoi(v) != 0;
    else if (k == "choices") {
      size_t n = u64(v);
      r.choices.resize(n);
      for (size_t i = 0; i < n; ++i)
        if (fscanf(f, "%u", &r.choices[i]) != 1) { fclose(f); return false; }
      break;
    }
  }
  fclose(f);
  return true;
}

static double mono() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---- comparing builds: record every run's outcome, judge nothing
// outcome: 0 not executed, 1 finished, 2 finished but not comparable, 3 failed
static uint64_t kind_hash(std::string const& k) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : k) h = (h ^ c) * 1099511628211ull;
  return h;
}
static int do_record(Options const& o) {
  double const t0 = mono();
  auto* hashes = static_cast<uint64_t*>(mmap(nullptr, sizeof(uint64_t) * (o.runs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto* what = static_cast<uint8_t*>(mmap(nullptr, o.runs + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto* busy = static_cast<uint8_t*>(mmap(nullptr, o.runs + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  struct Job { pid_t pid = -1; uint64_t next = 0, end = 0; Shared* sh = nullptr; };
  std::vector<Job> jobs(o.jobs);
  uint64_t next_chunk = 0;
  uint32_t failures = 0;
  for (auto& j : jobs) j.sh = new_shared();
  auto start = [&](Job& j) -> bool {
    if (j.next >= j.end) {
      uint64_t first = next_chunk * o.chunk;
      if (first >= o.runs || mono() - t0 > o.max_seconds || failures > 40) return false;
      ++next_chunk;
      j.next = first;
      j.end = std::min(first + o.chunk, o.runs);
    }
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
      S = j.sh;
      child_setup();
      for (uint64_t r = j.next; r < j.end; ++r) {
        if (r == j.next || (r & 15) == 0) arm_watchdog(5);
        exec_run(o.seed, o.from + r);
        hashes[r] = S->hash;
        busy[r] = g_run_events >= kNonTrivialEvents;
        what[r] = g_skip_compare ? 2 : 1;
      }
      _exit(0);
    }
    j.pid = p;
    return true;
  };
  int active = 0;
  for (auto& j : jobs) active += start(j);
  while (active > 0) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    for (auto& j : jobs)
      if (j.pid == p) {
        j.pid = -1;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && j.sh->done) {
          j.next = j.end;
        } else {
          uint64_t r = j.sh->cur_run - o.from;
          Result res = decode(st, j.sh);
          if (res.kind == "harness-error") { printf("ERROR harness: %s\n", res.msg.c_str()); return 2; }
          hashes[r] = kind_hash(res.kind);
          what[r] = 3;
          ++failures;
          j.next = failures > 40 ? j.end : r + 1;
        }
        --active;
        active += start(j);
      }
  }
  FILE* f = fopen(o.hash_out.c_str(), "wb");
  if (!f) { perror(o.hash_out.c_str()); return 2; }
  fwrite(hashes, sizeof(uint64_t), o.runs, f);
  fwrite(what, 1, o.runs, f);
  fclose(f);
  std::map<std::string, uint64_t> st;
  uint64_t events = 0, draws = 0, done = 0;
  for (auto& j : jobs) {
    for (uint32_t i = 0; i < j.sh->nstats; ++i) st[j.sh->stat_name[i]] += j.sh->stat_val[i];
    events += j.sh->events;
    draws += j.sh->draws;
  }
  std::set<uint64_t> uh;
  for (uint64_t r = 0; r < o.runs; ++r) {
    done += what[r] != 0;
    if (what[r] && busy[r]) uh.insert(hashes[r]);
  }
  std::string samples;
  for (int k = 0; k < 1; ++k) {
    Shared* gs = new_shared();
    uint64_t r = o.from + (kind_hash(o.variant) % std::max<uint64_t>(1, o.runs));
    run_child(gs, o.seed, r, r, nullptr, true);
    std::string t(gs->trace, std::min<uint32_t>(gs->ntrace, 600));
    samples += "{\"run\":" + std::to_string(r) + ",\"choices\":" + std::to_string(gs->nchoice) + ",\"trace\":\"" + json_escape(t) + "\"}";
  }
  f = fopen(o.out.c_str(), "w");
  if (!f) { perror(o.out.c_str()); return 2; }
  fprintf(f, "{\"property\":\"%s\",\"variant\":\"%s\",\"runs\":%llu,\"planned\":%llu,\"wall_s\":%.3f,\"steps\":0,\"events\":%llu,\"simtime\":0,\"draws\":%llu,"
             "\"distinct_states\":0,\"distinct_schedules\":0,\"distinct_histories\":%zu,\"rechecked\":0,\"found\":null,\"failed_runs\":%u,\"stats\":{",
          o.prop.c_str(), o.variant.c_str(), (unsigned long long)done, (unsigned long long)o.runs, mono() - t0, (unsigned long long)events,
          (unsigned long long)draws, uh.size(), failures);
  bool firsts = true;
  for (auto& kv : st) {
    fprintf(f, "%s\"%s\":%llu", firsts ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second);
    firsts = false;
  }
  fprintf(f, "},\"samples\":[%s]}\n", samples.c_str());
  fclose(f);
  return 0;
}
// Reads lists of choices from stdin ("n c1 .. cn", or "run N"), executes each
// and prints its outcome, hash and the choices used.
static int do_eval(Options const& o) {
  Shared* sh = new_shared();
  S = sh;
  char word[32];
  while (scanf("%31s", word) == 1) {
    Result r;
    bool skip = false;
    std::vector<uint32_t> c;
    uint64_t n = 0;
    if (!strcmp(word, "run")) {
      if (scanf("%llu", (unsigned long long*)&n) != 1) break;
      r = run_child(sh, o.seed, n, n, nullptr, true);
    } else {
      c.resize(strtoull(word, nullptr, 10));
      for (auto& v : c)
        if (scanf("%u", &v) != 1) return 2;
      r = run_child(sh, o.seed, 0, 0, &c, true);
    }
    (void)skip;
    printf("%s %016llx %u", r.kind.empty() ? "ok" : r.kind.c_str(), (unsigned long long)(r.kind.empty() ? r.hash : kind_hash(r.kind)), sh->nchoice);
    for (uint32_t i = 0; i < sh->nchoice; ++i) printf(" %u", sh->choice[i]);
    printf("\n");
    if (o.trace) {
      std::string t(sh->trace, sh->ntrace);
      printf("%s\n.\n", t.c_str());
    }
    fflush(stdout);
  }
  return 0;
}

static int do_search(Options const& o) {
  double const t0 = mono();
  struct Control {
    volatile uint64_t min_fail;
    volatile uint64_t next_chunk;
  };
  auto* ctl = static_cast<Control*>(mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  ctl->min_fail = ~uint64_t(0);
  ctl->next_chunk = 0;
  uint64_t const nchunks = (o.runs + o.chunk - 1) / o.chunk;
  // per run: event hash, and whether anything worth counting happened
  auto* busy = static_cast<uint8_t*>(mmap(nullptr, o.runs + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  auto* hashes = static_cast<uint64_t*>(mmap(nullptr, sizeof(uint64_t) * (o.runs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  std::vector<Shared*> sh(o.jobs);
  std::vector<pid_t> pid(o.jobs, -1);
  std::vector<uint64_t> fail_run, fail_first;
  bool harness_broken = false;
  std::string harness_msg;
  bool timed_out = false;
  for (auto& s : sh) s = new_shared();

  // Each worker process takes chunks of runs in turn and forks afresh after
  // a group of chunks, so that leaked/abandoned memory stays bounded.
  auto start = [&](int j) -> bool {
    if (ctl->next_chunk >= nchunks || mono() - t0 > o.max_seconds) {
      if (ctl->next_chunk < nchunks) timed_out = true;
      return false;
    }
    uint64_t c = ctl->next_chunk++;
    uint64_t first = c * o.chunk, end = std::min(first + o.chunk, o.runs);
    if (o.from + first > ctl->min_fail) return false;
    sh[j]->chunk_first = o.from + first;
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
      S = sh[j];
      child_setup();
      arm_watchdog(60);
      for (uint64_t r = first; r < end; ++r) {
        if ((r & 15) == 0) arm_watchdog(60);
        exec_run(o.seed, o.from + r);
        hashes[r] = S->hash;
        busy[r] = g_run_events >= kNonTrivialEvents;
        if (S->truncated) STAT("harness.truncated_runs");
      }
      _exit(0);
    }
    pid[j] = p;
    return true;
  };
  int active = 0;
  for (int j = 0; j < o.jobs; ++j) active += start(j);
  while (active > 0) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int j = -1;
    for (int k = 0; k < o.jobs; ++k)
      if (pid[k] == p) j = k;
    if (j < 0) continue;
    pid[j] = -1;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[j]->done)) {
      Result r = decode(st, sh[j]);
      if (only_kind && r.kind != only_kind && r.kind != "harness-error") {
        --active;
        active += start(j);
        continue;
      }
      if (r.kind == "harness-error") { harness_broken = true; harness_msg = r.msg; }
      fail_run.push_back(sh[j]->cur_run);
      fail_first.push_back(sh[j]->chunk_first);
      if (sh[j]->cur_run < ctl->min_fail) ctl->min_fail = sh[j]->cur_run;
      sh[j]->runs++;
    }
    --active;
    active += start(j);
  }
  double const t_search = mono() - t0;

  if (harness_broken) {
    printf("ERROR harness: %s\n", harness_msg.c_str());
    return 2;
  }

  int rc = 0;
  std::string found_json = "null";
  if (!fail_run.empty()) {
    // lowest run first; one that does not fail again is passed over
    std::vector<std::pair<uint64_t, uint64_t>> fails;
    for (size_t i = 0; i < fail_run.size(); ++i) fails.emplace_back(fail_run[i], fail_first[i]);
    std::sort(fails.begin(), fails.end());
    Shared* gs = new_shared();
    uint64_t run = 0, first = 0;
    Result a, b;
    ReplayFile rf;
    std::vector<uint32_t> choices;
    std::vector<std::pair<uint32_t, uint32_t>> spans;
    for (auto const& fl : fails) {
    run = fl.first;
    first = fl.second;
    // gate 1: the same PRNG twice
    rf.prop = o.prop;
    rf.variant = o.variant;
    rf.seed = o.seed;
    rf.run = run;
    rf.first = run;
    a = run_child(gs, o.seed, run, run, nullptr, false);
    choices.assign(gs->choice, gs->choice + gs->nchoice);
    spans.clear();
    for (uint32_t i = 0; i < gs->nspan; ++i) spans.emplace_back(gs->span[i][0], gs->span[i][1]);
    b = run_child(gs, o.seed, run, run, nullptr, false);
    if (a.kind.empty() && b.kind.empty() && first < run) {
      // depends on state left by earlier runs of the process: a session
      uint64_t lo = first;
      a = run_child(gs, o.seed, lo, run, nullptr, false);
      if (!a.kind.empty()) {
        uint64_t good = lo;
        for (uint64_t stepw = (run - lo) / 2; stepw > 0; stepw /= 2) {
          Result r = run_child(gs, o.seed, good + stepw, run, nullptr, false);
          if (r.kind == a.kind) good += stepw;
        }
        rf.first = good;
        a = run_child(gs, o.seed, good, run, nullptr, false);
        choices.assign(gs->choice, gs->choice + gs->nchoice);
        spans.clear();
        for (uint32_t i = 0; i < gs->nspan; ++i) spans.emplace_back(gs->span[i][0], gs->span[i][1]);
        b = run_child(gs, o.seed, good, run, nullptr, false);
      }
    }
    if (!a.kind.empty() && a.kind == b.kind && a.kind != "harness-error") break;
    }
    bool stable = a == b;
    if (a.kind.empty() || a.kind != b.kind || a.kind == "harness-error") {
      printf("ERROR gate: run %llu failed in the search but not on repetition (%s / %s)\n",
             (unsigned long long)run, a.kind.c_str(), b.kind.c_str());
      return 2;
    }
    Shrinker s;
    s.sh = gs;
    s.seed = o.seed;
    s.run = run;
    s.first = rf.first;
    s.kind = a.kind;
    s.best = choices;
    s.spans = spans;
    s.deadline = time(nullptr) + (a.kind == "hang" ? 30 : 45);
    if (a.kind == "hang" ) s.max_execs = 3;
    s.shrink();
    Result fin = run_child(gs, o.seed, rf.first, run, &s.best, true);
    std::string trace(gs->trace, gs->ntrace);
    Result fin2 = run_child(gs, o.seed, rf.first, run, &s.best, true);
    if (fin.kind != a.kind || fin2.kind != a.kind) {
      // minimised form unstable: fall back to the original choices
      s.best = choices;
      fin = run_child(gs, o.seed, rf.first, run, &s.best, true);
      trace.assign(gs->trace, gs->ntrace);
      fin2 = run_child(gs, o.seed, rf.first, run, &s.best, true);
      if (fin.kind != a.kind || fin2.kind != a.kind) {
        printf("ERROR gate: replay of recorded choices does not reproduce %s\n", a.kind.c_str());
        return 2;
      }
    }
    stable = stable && fin == fin2;
    rf.kind = fin.kind;
    rf.msg = fin.msg;
    rf.hash = fin.hash;
    rf.choices = s.best;
    write_replay(o.replay_out, rf, trace);
    printf("FOUND kind=%s run=%llu choices=%zu->%zu shrink_execs=%u stable_hash=%d file=%s\nFOUND-MSG %s\n", fin.kind.c_str(),
           (unsigned long long)run, choices.size(), s.best.size(), s.execs, stable ? 1 : 0, o.replay_out.c_str(), fin.msg.c_str());
    found_json = "{\"kind\":\"" + json_escape(fin.kind) + "\",\"message\":\"" + json_escape(fin.msg) + "\",\"run\":" + std::to_string(run) + "}";
    rc = 1;
  }

  // determinism re-check: fresh processes, one run per process
  uint64_t rechecked = 0, mismatched = 0, carried = 0, done_runs = 0;
  for (auto* s : sh) done_runs += s->runs;
  if (rc == 0 && !timed_out) {
    uint64_t n = std::min<uint64_t>(o.recheck, o.runs);
    std::vector<pid_t> kids;
    int const per = 8;
    for (int g = 0; g < per; ++g) {
      pid_t p = fork();
      if (p == 0) {
        S = sh[0];
        Shared* mine = new_shared();
        int bad = 0;
        for (uint64_t i = g; i < n; i += per) {
          uint64_t r = (i * 2654435761ull) % o.runs;
          if (!hashes[r]) continue; // given up, see only_kind
          run_child(mine, o.seed, o.from + r, o.from + r, nullptr, (i & 1) != 0);
          if (mine->hash == hashes[r]) continue;
          // Not the same alone as after the runs before it in its process.
          // State the code under test keeps does that; the simulator is still
          // deterministic if the same session gives the same run.
          uint64_t const first = r / o.chunk * o.chunk;
          run_child(mine, o.seed, o.from + first, o.from + r, nullptr, false);
          bad |= mine->hash == hashes[r] ? 2 : 1;
        }
        _exit(bad);
      }
      kids.push_back(p);
    }
    for (pid_t p : kids) {
      int st;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || (WEXITSTATUS(st) & 1)) ++mismatched;
      else if (WEXITSTATUS(st)) ++carried;
    }
    rechecked = n;
    if (carried && !mismatched)
      printf("WARNING: the course of a run depends on earlier runs of the process (state kept by the code under test)\n");
    if (mismatched) {
      printf("ERROR determinism: repeated runs gave different event hashes\n");
      rc = 2;
    }
  }

  // merged statistics
  std::map<std::string, uint64_t> st;
  uint64_t steps = 0, simtime = 0, draws = 0, events = 0;
  static uint8_t bs[kBitmapBits / 8], bc[kBitmapBits / 8];
  for (auto* s : sh) {
    for (uint32_t i = 0; i < s->nstats; ++i) st[s->stat_name[i]] += s->stat_val[i];
    steps += s->steps;
    simtime += s->simtime;
    draws += s->draws;
    events += s->events;
    for (size_t i = 0; i < sizeof bs; ++i) { bs[i] |= s->states[i]; bc[i] |= s->scheds[i]; }
  }
  uint64_t ns = 0, nc = 0;
  for (size_t i = 0; i < sizeof bs; ++i) { ns += __builtin_popcount(bs[i]); nc += __builtin_popcount(bc[i]); }
  std::set<uint64_t> uh;
  for (uint64_t r = 0; r < o.runs; ++r) if (hashes[r] && busy[r]) uh.insert(hashes[r]);

  std::string samples;
  if (rc == 0) {
    Shared* gs = new_shared();
    for (int k = 0; k < o.samples; ++k) {
      uint64_t r = o.from + (k * 7919 + 3) % std::max<uint64_t>(1, o.runs);
      run_child(gs, o.seed, r, r, nullptr, true);
      std::string t(gs->trace, std::min<uint32_t>(gs->ntrace, 900));
      if (k) samples += ",";
      samples += "{\"run\":" + std::to_string(r) + ",\"choices\":" + std::to_string(gs->nchoice) + ",\"trace\":\"" + json_escape(t) + "\"}";
    }
  }
  if (!o.out.empty()) {
    FILE* f = fopen(o.out.c_str(), "w");
    if (!f) { perror(o.out.c_str()); return 2; }
    fprintf(f, "{\"property\":\"%s\",\"variant\":\"%s\",\"runs\":%llu,\"planned\":%llu,\"wall_s\":%.3f,\"steps\":%llu,\"events\":%llu,\"simtime\":%llu,\"draws\":%llu,"
               "\"distinct_states\":%llu,\"distinct_schedules\":%llu,\"distinct_histories\":%zu,\"rechecked\":%llu,\"found\":%s,\"stats\":{",
            o.prop.c_str(), o.variant.c_str(), (unsigned long long)done_runs, (unsigned long long)o.runs, t_search, (unsigned long long)steps,
            (unsigned long long)events, (unsigned long long)simtime, (unsigned long long)draws, (unsigned long long)ns, (unsigned long long)nc,
            uh.size(), (unsigned long long)rechecked, found_json.c_str());
    bool firsts = true;
    for (auto& kv : st) {
      fprintf(f, "%s\"%s\":%llu", firsts ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second);
      firsts = false;
    }
    fprintf(f, "},\"samples\":[%s]}\n", samples.c_str());
    fclose(f);
  }
  if (rc == 0)
    printf("OK %s %s: %llu runs, %.2fs, %llu distinct histories, %llu distinct states\n", o.prop.c_str(), o.variant.c_str(),
           (unsigned long long)done_runs, t_search, (unsigned long long)uh.size(), (unsigned long long)ns);
  return rc;
}

} // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  // no address randomisation: even reads of uninitialised memory repeat
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
    if (a == "--prop") o.prop = val();
    else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--runs") o.runs = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--from") o.from = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--jobs") o.jobs = atoi(val().c_str());
    else if (a == "--chunk") o.chunk = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--max-seconds") o.max_seconds = atof(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--replay-out") o.replay_out = val();
    else if (a == "--replay") o.replay = val();
    else if (a == "--variant") o.variant = val();
    else if (a == "--hashes") o.hashes = true;
    else if (a == "--hash-out") o.hash_out = val();
    else if (a == "--eval") o.eval = true;
    else if (a == "--trace") o.trace = true;
    else if (a == "--thorough") thorough = true;
    else if (a == "--recheck") o.recheck = strtoull(val().c_str(), nullptr, 10);
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  ReplayFile rf;
  if (!o.replay.empty()) {
    if (!read_replay(o.replay, rf)) { fprintf(stderr, "cannot read %s\n", o.replay.c_str()); return 2; }
    if (o.prop.empty()) o.prop = rf.prop;
  }
  for (size_t i = 0; i < n_harnesses; ++i)
    if (o.prop == harnesses[i].property) g_h = &harnesses[i];
  if (g_h) only_kind = g_h->only;
  if (!g_h) { fprintf(stderr, "no harness for property '%s' in this binary\n", o.prop.c_str()); return 2; }
  if (!o.replay.empty()) {
    Shared* sh = new_shared();
    S = sh;
    Result r = run_child(sh, rf.seed, rf.first, rf.run, &rf.choices, true);
    if (o.trace) fwrite(sh->trace, 1, sh->ntrace, stdout);
    bool same = r.kind == rf.kind && r.hash == rf.hash;
    printf("REPLAY kind=%s hash=%016llx expected_kind=%s expected_hash=%016llx %s\n", r.kind.empty() ? "none" : r.kind.c_str(),
           (unsigned long long)r.hash, rf.kind.c_str(), (unsigned long long)rf.hash, same ? "EXACT" : r.kind == rf.kind ? "SAME-KIND" : "DIFFERENT");
    if (!r.msg.empty()) printf("REPLAY-MSG %s\n", r.msg.c_str());
    if (r.kind == "harness-error") return 2;
    return r.kind.empty() ? 0 : 1;
  }
  if (o.eval) return do_eval(o);
  if (!o.hash_out.empty()) return do_record(o);
  if (o.hashes) {
    Shared* sh = new_shared();
    S = sh;
    for (uint64_t r = o.from; r < o.from + o.runs; ++r) {
      Result res = run_child(sh, o.seed, r, r, nullptr, o.trace);
      printf("%llu %016llx %s\n", (unsigned long long)r, (unsigned long long)res.hash, res.kind.empty() ? "ok" : res.kind.c_str());
      if (o.trace) fwrite(sh->trace, 1, sh->ntrace, stdout);
    }
    return 0;
  }
  if (o.replay_out.empty()) o.replay_out = "/tmp/replay-" + o.prop + ".txt";
  return do_search(o);
}
