// Deterministic simulator core for libembedded.
//
// One run = one sequence of choices.  Every nondeterministic decision (which
// operation, which task runs next, when power fails, which constructor throws,
// ...) is drawn through sim::draw(); in search mode the draws come from one
// PRNG seeded from VERIF_SEED and the run number, in replay mode from a file.
// Nothing else may influence a run.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#if defined(__clang__) || defined(__GNUC__)
#define SIM_NOINSTR __attribute__((no_sanitize("thread")))
#endif

namespace sim {

// ---------------------------------------------------------------- choices
// draw(n): a value in [0, n).  0 is by convention the simplest outcome, which
// is what the minimiser moves towards.
uint32_t draw(uint32_t n);
inline bool coin(uint32_t one_in) { return draw(one_in) == one_in - 1; }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
uint64_t draw64();
// pick among weighted alternatives; index 0 is the simplest
uint32_t weighted(const uint32_t* w, uint32_t n);
template <size_t N> uint32_t weighted(const uint32_t (&w)[N]) { return weighted(w, N); }

// spans mark groups of choices that the minimiser removes together
struct Span { Span(); ~Span(); };

// ---------------------------------------------------------------- recording
// Observable events: enter the run's hash (no addresses, please).
void ev(uint64_t a);
inline void ev(uint64_t a, uint64_t b) { ev(a); ev(b); }
inline void ev(uint64_t a, uint64_t b, uint64_t c) { ev(a); ev(b); ev(c); }
// Human readable trace; only rendered while a trace is wanted.
extern bool trace_on;
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define TRACE(...) do { if (__builtin_expect(::sim::trace_on, 0)) ::sim::tracef(__VA_ARGS__); } while (0)

// Counters ("fault.power_cut", "probe.wrapped_copy", "op.push_back", ...)
uint32_t stat_slot(const char* name);
void stat_add(uint32_t slot, uint64_t n);
#define STAT_N(name, n) do { static uint32_t const s_ = ::sim::stat_slot(name); ::sim::stat_add(s_, (n)); } while (0)
#define STAT(name) STAT_N(name, 1)

// Distinct-state / distinct-schedule measures (bitmaps over 64-bit hashes)
void cover_state(uint64_t h);
void cover_sched(uint64_t h);
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}

// ---------------------------------------------------------------- verdicts
// A violated oracle: ends the run.
[[noreturn]] void violate(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, kind, ...) do { if (__builtin_expect(!(cond), 0)) ::sim::violate(kind, __VA_ARGS__); } while (0)
// until during(nullptr), whatever goes wrong is a violation of this kind
void during(const char* kind);
// The next failing assertion is what should happen: it sets `asserted` and
// ends the task of run_abandonable().
extern bool expect_assert, asserted;
// A broken harness (never a verdict about the code under test)
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- memory seam
// Instrumented code (-fsanitize=thread, with this simulator as its runtime)
// reports every load and store.  Watched regions route them to an observer.
struct MemEvent { bool write; uintptr_t addr; size_t size; int region; };
using MemObserver = void (*)(MemEvent const&);
void watch(int region, const void* p, size_t n);    // region: small int id
void unwatch_all();
void set_observer(MemObserver o);
extern bool observing;                              // library code is running
// The instrumentation is inserted after most optimisations: without a barrier
// the compiler could move accesses out of a scope or drop the scope.
#define SIM_BARRIER __asm__ __volatile__("" ::: "memory")
inline bool observing_set(bool b) { SIM_BARRIER; bool o = observing; observing = b; SIM_BARRIER; return o; }
struct Observe {                                    // scope: "inside the library"
  bool old; Observe() : old(observing_set(true)) {} ~Observe() { observing_set(old); }
};
struct Unobserve {
  bool old; Unobserve() : old(observing_set(false)) {} ~Unobserve() { observing_set(old); }
};

// ---------------------------------------------------------------- allocation seam
extern uint64_t alloc_calls;      // malloc/new calls made while `observing`
extern bool alloc_fail;           // make them fail (only while observing)
extern bool alloc_forbidden;      // report them as a violation
struct UserHeap {                 // scope: containers and algorithms of the user's
  bool f, l; UserHeap() : f(alloc_forbidden), l(alloc_fail) { alloc_forbidden = alloc_fail = false; }
  ~UserHeap() { alloc_forbidden = f; alloc_fail = l; }
};

// ---------------------------------------------------------------- tasks & time
extern uint64_t now;              // simulated time (ticks)
int spawn(std::function<void()> fn, const char* name);
void run_tasks(uint64_t max_steps);  // until all done; violates on deadlock / step budget
void yield();                     // voluntary
void preempt_point();             // scheduler may switch here (memory seam, user hooks)
void sleep_until(uint64_t t);
void block_on(const void* what);  // until wake(what)
void wake(const void* what);
int current_task();               // -1: main
void set_preempt_max_gap(uint32_t g); // 0: no preemption
// as run_tasks; false if power_cut() ended it, all tasks dropped half way
bool run_tasks_until_cut(uint64_t max_steps);
uint64_t sched_hash();
void reset_tasks();

// Run fn on a task that can be abandoned half way (power loss): power_cut()
// never returns to it, its stack is simply dropped.  Returns false if cut.
bool run_abandonable(std::function<void()> fn);
[[noreturn]] void power_cut();

// this run cannot be compared with other builds' (some component is missing)
void skip_compare();

// step counter against runaway loops
void step();
uint64_t steps();                   // taken in this run

// ---------------------------------------------------------------- harness side
struct Harness {
  const char* property;
  void (*run)();                  // one simulated run
  const char* about;
  const char* only;               // the only kind of violation this harness reports
  Harness(const char* p, void (*r)(), const char* a, const char* o = nullptr) : property(p), run(r), about(a), only(o) {}
};
extern const Harness harnesses[];
extern const size_t n_harnesses;
// parameters a harness may read
extern bool thorough;
uint64_t run_index();
} // namespace sim
