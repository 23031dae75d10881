// Lock guards under simulation: L01 (the guard itself), C08 (a ring buffer
// shared between tasks under a guard).
#include "common.h"

#include <embedded/circular_buffer_adapter.h>
#include <embedded/mutex.h>

#include <map>
#include <set>

namespace {
using namespace h;
using embedded::lock_guard;
using u64 = uint64_t;

// ------------------------------------------------------------ simulated mutex
struct Entry { int core; char what; }; // what: L lock called, A acquired, T lock threw, U unlock called, X something else
struct Core {
  int id = 0;
  bool recursive = false, spin = false;
  int owner = -1;
  unsigned depth = 0;
};
struct TaskState {
  std::vector<Entry> log;
  unsigned throw_lock_in = 0; // the n-th lock call of this task throws
  bool throw_after_wait = false;
  bool threw = false;
};
constexpr int kTasks = 5;
TaskState g_ts[kTasks];
u64 g_acq = 0; // acquisitions so far, over all mutexes
uint32_t g_stalls_left = 0;

TaskState& me() {
  int t = sim::current_task();
  if (t < 0 || t >= kTasks) sim::harness_error("mutex used outside the tasks");
  return g_ts[t];
}
void note(Core const& c, char what) {
  me().log.push_back({c.id, what});
  TRACE("    task %d: mutex %d %s", sim::current_task(), c.id,
        what == 'L' ? "lock()" : what == 'A' ? "acquired" : what == 'T' ? "lock() throws" : what == 'U' ? "unlock()" : "some other member called");
}
void maybe_stall(const char* where) {
  if (g_stalls_left == 0) return;
  if (draw(6) != 5) return;
  --g_stalls_left;
  STAT("fault.stalled_task");
  uint32_t d = range(1, 40);
  TRACE("    task %d stalls for %u ticks %s", sim::current_task(), d, where);
  sim::sleep_until(sim::now + d);
}
void core_lock(Core& c) {
  Unobserve u;
  TaskState& t = me();
  int const self = sim::current_task();
  note(c, 'L');
  STAT("mutex.lock");
  bool const thr = t.throw_lock_in && --t.throw_lock_in == 0;
  if (thr && !t.throw_after_wait) {
    note(c, 'T');
    t.threw = true;
    STAT("fault.lock_throws");
    throw Fault{g_throw_token + static_cast<u64>(self)};
  }
  sim::preempt_point();
  if (c.owner == self && !c.recursive) sim::violate("double-lock", "task %d locks mutex %d, which it already holds", self, c.id);
  while (c.owner != -1 && c.owner != self) {
    STAT("probe.contended_lock");
    if (c.spin) sim::sleep_until(sim::now + 1);
    else sim::block_on(&c);
  }
  if (thr) {
    note(c, 'T');
    t.threw = true;
    STAT("fault.lock_throws_after_wait");
    throw Fault{g_throw_token + static_cast<u64>(self)};
  }
  c.owner = self;
  ++c.depth;
  ++g_acq;
  note(c, 'A');
  maybe_stall("holding the mutex");
}
void core_unlock(Core& c) {
  Unobserve u;
  int const self = sim::current_task();
  maybe_stall("before unlocking");
  note(c, 'U');
  if (c.owner != self)
    sim::violate("unlock-not-owner", "task %d unlocks mutex %d, which %s", self, c.id, c.owner < 0 ? "nobody holds" : "another task holds");
  if (--c.depth == 0) {
    c.owner = -1;
    sim::wake(&c);
  }
  if (draw(3) == 0) sim::yield();
}
[[maybe_unused]] void core_other(Core& c, const char* what) {
  Unobserve u;
  note(c, 'X');
  sim::violate("other-member", "lock_guard used %s of the mutex", what);
}

// --------------------------------------------------------------- mutex types
struct Plain {
  Core* c;
  explicit Plain(Core* c) : c(c) {}
  Plain(Plain const&) = delete;
  Plain& operator=(Plain const&) = delete;
  void lock() { core_lock(*c); }
  void unlock() noexcept { core_unlock(*c); }
};
struct Rich { // offers everything a mutex could; only lock and unlock are to be used
  Core* c;
  bool copied = false;
  explicit Rich(Core* c) : c(c) {}
  Rich(Rich const& o) : c(o.c), copied(true) { core_other(*c, "the copy constructor"); }
  Rich(Rich&& o) : c(o.c), copied(true) { core_other(*c, "the move constructor"); }
  Rich& operator=(Rich const&) { core_other(*c, "the assignment"); return *this; }
  ~Rich() {}
  bool lock() { core_lock(*c); return false; }
  int unlock() { core_unlock(*c); return -1; }
  bool try_lock() { core_other(*c, "try_lock"); return false; }
  void lock_shared() { core_other(*c, "lock_shared"); }
  void unlock_shared() { core_other(*c, "unlock_shared"); }
  bool try_lock_shared() { core_other(*c, "try_lock_shared"); return false; }
  template <class D> bool try_lock_for(D const&) { core_other(*c, "try_lock_for"); return false; }
  void* native_handle() { core_other(*c, "native_handle"); return nullptr; }
  bool owns_lock() const { core_other(*c, "owns_lock"); return false; }
  explicit operator bool() const { core_other(*c, "operator bool"); return false; }
  bool operator==(Rich const&) const { core_other(*c, "operator=="); return false; }
};
struct Abstract {
  virtual void lock() = 0;
  virtual void unlock() = 0;
  virtual ~Abstract() {}
};
struct Derived final : Abstract {
  Core* c;
  explicit Derived(Core* c) : c(c) {}
  void lock() override { core_lock(*c); }
  void unlock() override { core_unlock(*c); }
};
struct ConstM { // lockable even when const
  Core* c;
  explicit ConstM(Core* c) : c(c) {}
  void lock() const { core_lock(*c); }
  void unlock() const { core_unlock(*c); }
};
struct Hook { // base class that lock() and unlock() overload on constness: the object given is not const
  Core* c;
  explicit Hook(Core* c) : c(c) {}
  void lock() { core_lock(*c); }
  void unlock() { core_unlock(*c); }
};
struct Big { // lock state deep inside a large object
  unsigned char pad[200];
  Hook h;
  explicit Big(Core* c) : h(c) {}
  void lock() { h.lock(); }
  void unlock() { h.unlock(); }
};

#if PROP(L01)
// ------------------------------------------------------------------- L01
constexpr int NM = 6;
struct World {
  Core core[NM];
  Plain plain{&core[0]};
  Rich rich{&core[1]};
  Derived derived{&core[2]};
  ConstM constm{&core[3]};
  Plain recursive{&core[4]};
  Big big{&core[5]};
};
World* g_w;
struct Oops { u64 token; }; // exceptions of the critical sections themselves
u64 g_oops = 0;

// what a task holds: per mutex, how many guards
struct Ctx {
  int t;
  unsigned held[NM] = {};
  uint32_t budget; // guards still to be made
};
void verify_held(Ctx const& c, const char* when) {
  for (int i = 0; i < NM; ++i) {
    Core const& k = g_w->core[i];
    if (c.held[i])
      CHECK(k.owner == c.t, "not-held", "%s: task %d has a guard on mutex %d but does not hold it", when, c.t, i);
    else
      CHECK(k.owner != c.t, "still-held", "%s: task %d holds mutex %d without having a guard on it", when, c.t, i);
    if (k.owner == c.t) CHECK(k.depth == c.held[i], "count", "%s: mutex %d is locked %u times for %u guards", when, i, k.depth, c.held[i]);
  }
}
void verify_log(size_t mark, std::string const& want, int id, const char* when) {
  auto const& log = me().log;
  std::string got;
  bool same_mutex = true;
  for (size_t i = mark; i < log.size(); ++i) {
    got += log[i].what;
    same_mutex &= log[i].core == id;
  }
  CHECK(same_mutex, "wrong-mutex", "%s: the guard used another mutex than the one it was given", when);
  CHECK(got == want, "calls", "%s: the guard made the mutex calls '%s' instead of '%s' (L lock, A acquired, T threw, U unlock)", when, got.c_str(), want.c_str());
}
// Around the guard's construction and destruction
struct Outer {
  Ctx& c;
  int id;
  size_t mark;
  bool built = false;
  Outer(Ctx& c, int id) : c(c), id(id), mark(me().log.size()) {
    TRACE("  task %d: guard on mutex %d", c.t, id);
    STAT("guards");
  }
  ~Outer() { // after the guard is gone, or its constructor threw
    sim::observing_set(false);
    if (!built) {
      verify_log(mark, "LT", id, "constructor that threw");
      STAT("probe.lock_threw");
    } else {
      verify_log(mark, "U", id, "destructor");
      --c.held[id];
    }
    ev(static_cast<u64>(c.t), static_cast<u64>(id), built ? 2 : 3);
    verify_held(c, built ? "after the guard's end" : "after the failed construction");
  }
  void constructed() {
    sim::observing_set(false);
    verify_log(mark, "LA", id, "constructor");
    built = true;
    ++c.held[id];
    ev(static_cast<u64>(c.t), static_cast<u64>(id), 1);
    verify_held(c, "after construction");
  }
};
struct Inner { // destroyed just before the guard
  Outer& o;
  explicit Inner(Outer& o) : o(o) { o.constructed(); }
  ~Inner() {
    verify_held(o.c, "before the guard's end");
    CHECK(!o.built || me().log.size() >= o.mark, "log", "internal");
    o.mark = me().log.size();
    sim::observing_set(true);
  }
};

enum Exit { FALL, RETURN, THROW, BREAK, CONTINUE, GOTO };
void body(Ctx& c, int lowest, int depth);

void plan_lock_throw(Ctx& c) {
  TaskState& t = g_ts[c.t];
  t.throw_lock_in = 0;
  t.threw = false;
  if (draw(10) == 9) {
    t.throw_lock_in = 1;
    t.throw_after_wait = draw(2) != 0;
  }
}
// Catches what the guard let out and judges it
template <class Fn> void contain(Ctx& c, Fn fn) {
  u64 const expect = g_throw_token + static_cast<u64>(c.t);
  try {
    fn();
    sim::observing_set(false);
  } catch (Fault const& f) {
    sim::observing_set(false);
    CHECK(g_ts[c.t].threw && f.token == expect, "exception", "a guard's constructor let out an exception other than the one lock() threw");
    g_ts[c.t].threw = false;
    ev(77);
  } catch (Oops const& o) {
    sim::observing_set(false);
    CHECK(o.token / 1000 == static_cast<u64>(c.t), "exception", "an exception thrown inside a guarded scope arrived changed");
    ev(78);
  }
  CHECK(!g_ts[c.t].threw, "exception", "lock() threw, but no exception left the guard's constructor");
  g_ts[c.t].throw_lock_in = 0;
}

template <class M> bool scope_body(Ctx& c, M& m, int id, Exit how, int depth) {
  for (int turn = 0; turn < 2; ++turn) {
    {
      Outer o(c, id);
      sim::observing_set(true);
      lock_guard<M> g(m);
      Inner in(o);
      body(c, id, depth);
      switch (how) {
      case RETURN: STAT("exit.return"); return true;
      case THROW: STAT("exit.throw"); throw Oops{static_cast<u64>(c.t) * 1000 + ++g_oops % 1000};
      case BREAK: STAT("exit.break"); break;
      case CONTINUE: STAT("exit.continue"); if (turn == 0) continue; break;
      case GOTO: STAT("exit.goto"); goto out;
      case FALL: break;
      }
      if (how == BREAK) break;
    }
    if (how == FALL) break;
  }
out:
  verify_held(c, "after the scope");
  return false;
}
template <class M> struct Member { // a guard inside another object
  Outer o;
  struct Arm { Arm() { sim::observing_set(true); } } arm;
  lock_guard<M> g;
  Inner in;
  Member(Ctx& c, M& m, int id) : o(c, id), g(m), in(o) {}
};
template <class M> void scope(Ctx& c, M& m, int id, int depth) {
  sim::Span s;
  plan_lock_throw(c);
  switch (draw(8)) {
  default: {
    Exit how = static_cast<Exit>(draw(6));
    contain(c, [&] { scope_body(c, m, id, how, depth); });
    break;
  }
  case 4: // on the heap
    contain(c, [&] {
      STAT("form.heap");
      Outer o(c, id);
      void* mem = ::operator new(sizeof(lock_guard<M>));
      memset(mem, 0xA5, sizeof(lock_guard<M>)); // whatever the memory held before
      lock_guard<M>* g;
      try {
        sim::observing_set(true);
        g = new (mem) lock_guard<M>(m);
        o.constructed();
      } catch (...) {
        sim::observing_set(false);
        ::operator delete(mem);
        throw;
      }
      try {
        body(c, id, depth);
      } catch (...) {
        o.mark = me().log.size();
        sim::observing_set(true);
        g->~lock_guard<M>();
        sim::observing_set(false);
        ::operator delete(mem);
        throw;
      }
      o.mark = me().log.size();
      sim::observing_set(true);
      g->~lock_guard<M>();
      sim::observing_set(false);
      ::operator delete(mem);
    });
    break;
  case 5: // a member of another object
    contain(c, [&] {
      STAT("form.member");
      Member<M> x(c, m, id);
      body(c, id, depth);
      if (draw(4) == 0) throw Oops{static_cast<u64>(c.t) * 1000 + ++g_oops % 1000};
    });
    break;
  case 6: // a temporary: locks and unlocks at once
    contain(c, [&] {
      STAT("form.temporary");
      Outer o(c, id);
      sim::observing_set(true);
      (void)lock_guard<M>(m);
      sim::observing_set(false);
      verify_log(o.mark, "LAU", id, "temporary guard");
      o.mark = me().log.size() - 1; // the destructor part, judged again below
      o.built = true;
      ++c.held[id];
    });
    break;
  case 7: { // several sequential guards
    uint32_t n = range(2, 4);
    for (uint32_t i = 0; i < n; ++i) contain(c, [&] {
      STAT("form.sequential");
      if (i) plan_lock_throw(c);
      Outer o(c, id);
      sim::observing_set(true);
      lock_guard<M> g{m};
      Inner in(o);
      if (draw(3) == 0) sim::yield();
    });
    break;
  }
  }
}
void any_scope(Ctx& c, int lowest, int depth) {
  // mutexes are nested in ascending order only; the recursive one any number of times
  if (c.budget == 0 || depth > 6) return;
  --c.budget;
  int id = lowest + static_cast<int>(draw(static_cast<uint32_t>(NM - lowest)));
  if (c.held[id] && id != 4) return;
  switch (id) {
  case 0: scope<Plain>(c, g_w->plain, id, depth); break;
  case 1: scope<Rich>(c, g_w->rich, id, depth); break;
  case 2: scope<Abstract>(c, g_w->derived, id, depth); break;
  case 3: scope<ConstM const>(c, g_w->constm, id, depth); break;
  case 4: scope<Plain>(c, g_w->recursive, id, depth); break;
  default: scope<Big>(c, g_w->big, id, depth); break;
  }
  verify_held(c, "between guards");
}
void body(Ctx& c, int lowest, int depth) {
  uint32_t n = draw(depth ? 3 : 4);
  for (uint32_t i = 0; i < n; ++i) {
    switch (draw(4)) {
    case 0: if (depth < 4) any_scope(c, lowest, depth + 1); break;
    case 1: sim::yield(); verify_held(c, "inside, after a task switch"); break;
    case 2: maybe_stall("inside the scope"); verify_held(c, "inside, after a stall"); break;
    default: sim::preempt_point(); verify_held(c, "inside"); break;
    }
  }
}
// a copy would release the mutex a second time
template <class G> void no_copies() {
  CHECK(!std::is_copy_constructible<G>::value && !std::is_copy_assignable<G>::value, "copyable",
        "a guard can be copied: both would unlock the mutex that was locked once");
}
void run_l01() {
  run_reset();
  struct Some { void lock(); void unlock(); };
  no_copies<embedded::lock_guard<Some>>();
  World w;
  g_w = &w;
  for (int i = 0; i < NM; ++i) w.core[i].id = i;
  w.core[4].recursive = true;
  for (auto& t : g_ts) t = TaskState();
  g_acq = 0;
  g_oops = 0;
  g_throw_token = 0x10c4 + draw(1000);
  for (int i = 0; i < NM; ++i) w.core[i].spin = draw(4) == 3;
  g_stalls_left = draw(12);
  uint32_t gaps[] = {4, 12, 50, 0};
  sim::set_preempt_max_gap(gaps[draw(4)]);
  sim::watch(9, nullptr, ~size_t(0) / 2);
  sim::set_observer([](sim::MemEvent const&) { sim::preempt_point(); });
  int nt = static_cast<int>(range(2, 4));
  for (int t = 0; t < nt; ++t) {
    uint32_t rounds = range(1, 10);
    sim::spawn([t, rounds] {
      Ctx c;
      c.t = t;
      c.budget = 40;
      for (uint32_t i = 0; i < rounds; ++i) {
        any_scope(c, 0, 0);
        if (draw(2) == 0) sim::yield();
      }
      verify_held(c, "at the end");
    }, "locker");
  }
  sim::run_tasks(100000); // a mutex never released shows as a deadlock or as no progress
  sim::unwatch_all();
  for (int i = 0; i < NM; ++i)
    CHECK(w.core[i].owner == -1 && w.core[i].depth == 0, "still-held", "mutex %d is still locked after all guards are gone", i);
  ev(g_acq);
  ev(sim::sched_hash());
}
#endif

#if PROP(C08)
// ------------------------------------------------------------------- C08
// One history entry: a critical section of one or more buffer operations.
enum Code : uint8_t { PUSH_B, PUSH_F, POP_B, POP_F, READ, WRITE, SIZE, SNAP, POP_N_F, POP_N_B, CLEAR, COPY_IN_B, COPY_OUT_F, RECREATE, NCODES };
struct Step {
  Code code;
  u64 arg = 0;
  std::vector<u64> in, out; // given, observed
};
struct Section {
  int task;
  uint32_t buffer = 0;
  u64 invoked, responded = ~u64(0);
  u64 order; // when it got the mutex
  std::vector<Step> steps;
};
// the sequential object; false: the observed results differ
bool apply(std::deque<u64>& q, size_t cap, Section const& s) {
  for (Step const& st : s.steps) {
    auto const& o = st.out;
    switch (st.code) {
    case PUSH_B:
    case PUSH_F:
      if (o.size() != 1 || o[0] != (q.size() < cap)) return false;
      if (q.size() < cap) { if (st.code == PUSH_B) q.push_back(st.in[0]); else q.push_front(st.in[0]); }
      break;
    case POP_B:
      if (q.empty()) { if (!o.empty()) return false; break; }
      if (o.size() != 1 || o[0] != q.back()) return false;
      q.pop_back();
      break;
    case POP_F:
      if (q.empty()) { if (!o.empty()) return false; break; }
      if (o.size() != 1 || o[0] != q.front()) return false;
      q.pop_front();
      break;
    case READ:
      if (st.arg >= q.size()) { if (!o.empty()) return false; break; }
      if (o.size() != 1 || o[0] != q[st.arg]) return false;
      break;
    case WRITE:
      if (st.arg >= q.size()) { if (!o.empty()) return false; break; }
      if (o.size() != 1) return false;
      q[st.arg] = st.in[0];
      break;
    case SIZE:
      if (o.size() != 4 || o[0] != q.size() || o[1] != q.empty() || o[2] != (q.size() == cap) || o[3] != cap - q.size()) return false;
      break;
    case SNAP:
      if (o.size() != q.size() || !std::equal(o.begin(), o.end(), q.begin())) return false;
      break;
    case POP_N_F:
    case POP_N_B: {
      size_t n = std::min<size_t>(st.arg, q.size());
      if (o.size() != 1 || o[0] != n) return false;
      for (size_t i = 0; i < n; ++i) { if (st.code == POP_N_F) q.pop_front(); else q.pop_back(); }
      break;
    }
    case CLEAR: q.clear(); break;
    case COPY_IN_B: {
      size_t n = std::min<size_t>(st.in.size(), cap - q.size());
      if (o.size() != 1 || o[0] != n) return false;
      q.insert(q.end(), st.in.begin(), st.in.begin() + static_cast<std::ptrdiff_t>(n));
      break;
    }
    case COPY_OUT_F: {
      size_t n = std::min<size_t>(st.arg, q.size());
      if (o.size() != n) return false;
      for (size_t i = 0; i < n; ++i) { if (o[i] != q.front()) return false; q.pop_front(); }
      break;
    }
    case RECREATE:
    default: break;
    }
  }
  return true;
}
// Wing & Gong search with memoisation: some order consistent with real time?
struct Linearizer {
  std::vector<Section> const& h;
  size_t cap;
  std::set<std::pair<std::vector<bool>, std::vector<u64>>> seen;
  u64 nodes = 0;
  bool rec(std::vector<bool>& done, std::deque<u64> const& q, size_t left) {
    if (left == 0) return true;
    if (++nodes > 200000) sim::harness_error("linearizability search too large");
    if (!seen.insert({done, std::vector<u64>(q.begin(), q.end())}).second) return false;
    u64 first_resp = ~u64(0);
    for (size_t i = 0; i < h.size(); ++i)
      if (!done[i]) first_resp = std::min(first_resp, h[i].responded);
    for (size_t i = 0; i < h.size(); ++i) {
      if (done[i] || h[i].invoked > first_resp) continue;
      std::deque<u64> q2 = q;
      if (!apply(q2, cap, h[i])) continue;
      done[i] = true;
      if (rec(done, q2, left - 1)) return true;
      done[i] = false;
    }
    return false;
  }
};
const char* const code_name[] = {"push_back", "push_front", "pop_back", "pop_front", "read", "overwrite", "sizes", "snapshot", "pop_front(n)", "pop_back(n)", "clear", "copy_in_back", "copy_out_front", "re-create"};

template <class T> struct C08 {
  using E = El<T>;
  using Buf = embedded::circular_buffer_adapter<T>;
  struct Shared { // one buffer and the mutex that guards it
    Core core;
    Plain mtx{&core};
    size_t cap;
    T* mem;
    Zone z;
    Buf b;
  };
  static inline u64 clock;
  static void step(Shared& sh, Step& s) {
    Observe o;
    Buf& b = sh.b;
    T* const mem = sh.mem;
    size_t const cap = sh.cap;
    switch (s.code) {
    case PUSH_B:
    case PUSH_F: {
      bool ok = !b.full();
      if (ok) {
        if (s.arg & 1) { if (s.code == PUSH_B) b.push_back(E::make(s.in[0])); else b.push_front(E::make(s.in[0])); }
        else { if (s.code == PUSH_B) b.emplace_back(E::make(s.in[0])); else b.emplace_front(E::make(s.in[0])); }
      }
      Unobserve u;
      s.out.push_back(ok);
      break;
    }
    case POP_B:
      if (!b.empty()) { u64 v = E::get(b.back()); b.pop_back(); Unobserve u; s.out.push_back(v); }
      break;
    case POP_F:
      if (!b.empty()) { u64 v = E::get(b.front()); b.pop_front(); Unobserve u; s.out.push_back(v); }
      break;
    case READ:
      if (s.arg < b.size()) { u64 v = E::get(s.arg & 1 ? b.at(s.arg) : b[s.arg]); Unobserve u; s.out.push_back(v); }
      break;
    case WRITE:
      if (s.arg < b.size()) { b[s.arg] = E::make(s.in[0]); Unobserve u; s.out.push_back(1); }
      break;
    case SIZE: {
      u64 a = b.size(), e = b.empty(), f = b.full(), r = b.remaining();
      Unobserve u;
      s.out = {a, e, f, r};
      break;
    }
    case SNAP:
      if (s.arg & 1) for (auto it = b.rbegin(); it != b.rend(); ++it) { u64 v = E::get(*it); Unobserve u; s.out.insert(s.out.begin(), v); }
      else for (auto it = b.begin(); it != b.end(); ++it) { u64 v = E::get(*it); Unobserve u; s.out.push_back(v); }
      break;
    case POP_N_F:
    case POP_N_B: {
      size_t n = std::min<size_t>(s.arg, b.size());
      if (s.code == POP_N_F) b.pop_front(n); else b.pop_back(n);
      Unobserve u;
      s.out.push_back(n);
      break;
    }
    case CLEAR: b.clear(); break;
    case COPY_IN_B:
      if constexpr (E::trivial) {
        T tmp[8];
        for (size_t i = 0; i < s.in.size(); ++i) tmp[i] = E::make(s.in[i]);
        size_t n = std::min<size_t>(s.in.size(), b.remaining());
        b.copy_in_back(tmp, n);
        Unobserve u;
        s.out.push_back(n);
      }
      break;
    case COPY_OUT_F:
      if constexpr (E::trivial) {
        T tmp[8];
        size_t n = std::min<size_t>(s.arg, b.size());
        b.copy_out_front(tmp, n);
        Unobserve u;
        for (size_t i = 0; i < n; ++i) s.out.push_back(E::get(tmp[i]));
      }
      break;
    case RECREATE: {
      size_t n = b.size(), at = n ? b.raw_index(b.begin()) : 0;
      Buf fresh(mem, cap, at, n);
      b = std::move(fresh);
      break;
    }
    default: break;
    }
  }
  static void section(Shared& sh, Section& s) {
    s.invoked = ++clock;
    sim::preempt_point();
    {
      sim::observing_set(true);
      lock_guard<Plain> g(sh.mtx);
      sim::observing_set(false);
      s.order = g_acq;
      for (Step& st : s.steps) {
        step(sh, st);
        if (draw(4) == 0) sim::yield();
        maybe_stall("inside the critical section");
      }
      sim::observing_set(true);
    }
    sim::observing_set(false);
    sim::preempt_point();
    s.responded = ++clock;
  }
  static void draw_steps(Section& s, u64& serial, size_t c) {
    uint32_t n = draw(4) == 3 ? range(2, 3) : 1;
    for (uint32_t i = 0; i < n; ++i) {
      static const uint32_t w[] = {6, 4, 4, 6, 2, 2, 1, 2, 1, 1, 1, 2, 2, 1};
      Step st;
      st.code = static_cast<Code>(sim::weighted(w));
      if (!E::trivial && (st.code == COPY_IN_B || st.code == COPY_OUT_F)) st.code = PUSH_B;
      if (!E::copyable && st.code == WRITE) st.code = READ;
      st.arg = draw(static_cast<uint32_t>(c) + 2);
      uint32_t k = st.code == COPY_IN_B ? draw(8) : 1;
      if (st.code == COPY_OUT_F) st.arg = draw(8);
      for (uint32_t q = 0; q < k; ++q) st.in.push_back((++serial) & E::mask);
      s.steps.push_back(std::move(st));
    }
  }
  static void run() {
    run_reset();
    for (auto& t : g_ts) t = TaskState();
    g_acq = 0;
    clock = 0;
    g_stalls_left = draw(10);
    uint32_t const nb = draw(2) ? 1 : range(1, 3);
    std::vector<std::unique_ptr<Shared>> sh;
    for (uint32_t i = 0; i < nb; ++i) {
      sh.emplace_back(new Shared());
      Shared& q = *sh.back();
      q.core.id = static_cast<int>(i);
      q.core.spin = draw(4) == 3;
      q.cap = range(1, draw(3) ? 6 : 17);
      q.z = zone(q.cap * sizeof(T), 64, 128);
      q.mem = reinterpret_cast<T*>(q.z.p);
      q.b = Buf(q.mem, q.cap, draw(static_cast<uint32_t>(q.cap)), 0);
    }
    uint32_t gaps[] = {4, 15, 60, 0};
    sim::set_preempt_max_gap(gaps[draw(4)]);
    sim::watch(9, nullptr, ~size_t(0) / 2);
    sim::set_observer([](sim::MemEvent const&) { sim::preempt_point(); });
    int nt = static_cast<int>(range(2, 4));
    std::vector<std::vector<Section>> plan(static_cast<size_t>(nt));
    u64 serial = 0;
    for (int t = 0; t < nt; ++t) {
      uint32_t n = range(1, 12);
      for (uint32_t i = 0; i < n; ++i) {
        sim::Span sp;
        Section s;
        s.task = t;
        s.buffer = nb == 1 ? 0 : draw(nb);
        draw_steps(s, serial, sh[s.buffer]->cap);
        plan[static_cast<size_t>(t)].push_back(std::move(s));
      }
      sim::spawn([&plan, &sh, t] {
        for (Section& s : plan[static_cast<size_t>(t)]) {
          section(*sh[s.buffer], s);
          if (draw(3) == 0) sim::yield();
        }
      }, "user");
    }
    sim::run_tasks(200000);
    sim::unwatch_all();
    for (uint32_t i = 0; i < nb; ++i) {
      std::vector<Section> hist;
      for (auto& p : plan)
        for (auto& s : p)
          if (s.buffer == i) hist.push_back(std::move(s));
      judge(*sh[i], hist, nt);
    }
    ev(sim::sched_hash());
    Observe o;
    for (auto& q : sh) q->b.clear();
  }
  static void judge(Shared& sh, std::vector<Section>& hist, int nt) {
    size_t const cap = sh.cap;
    // the final state, as one more observation
    Section fin;
    fin.task = 9;
    fin.invoked = ++clock;
    fin.order = ++g_acq;
    { Step st; st.code = SIZE; step(sh, st); fin.steps.push_back(std::move(st)); }
    { Step st; st.code = SNAP; step(sh, st); fin.steps.push_back(std::move(st)); }
    fin.responded = ++clock;
    hist.push_back(std::move(fin));
    // first try the order in which the mutex was obtained ...
    std::vector<Section const*> by;
    for (auto const& s : hist) by.push_back(&s);
    std::sort(by.begin(), by.end(), [](Section const* a, Section const* c) { return a->order < c->order; });
    std::deque<u64> q;
    bool ok = true;
    for (size_t i = 0; i < by.size() && ok; ++i) {
      if (i && by[i - 1]->invoked > by[i]->responded) ok = false;
      for (size_t k = 0; k < i && ok; ++k) ok = by[i]->responded >= by[k]->invoked;
      if (ok) ok = apply(q, cap, *by[i]);
    }
    for (auto const* s : by)
      for (auto const& st : s->steps) {
        STAT("operations");
        ev(static_cast<u64>(s->task), st.code, st.out.size());
        for (u64 v : st.out) ev(v);
      }
    if (!ok) { // ... then any order
      STAT("probe.full_linearization");
      Linearizer l{hist, cap, {}};
      std::vector<bool> done(hist.size(), false);
      ok = l.rec(done, {}, hist.size());
      if (!ok && sim::trace_on)
        for (auto const* s : by)
          for (auto const& st : s->steps) {
            std::string os;
            for (u64 v : st.out) os += " " + std::to_string(v);
            TRACE("task %d [%llu,%llu] %s arg=%llu in=%llu ->%s", s->task, (unsigned long long)s->invoked, (unsigned long long)s->responded,
                  code_name[st.code], (unsigned long long)st.arg, (unsigned long long)(st.in.empty() ? 0 : st.in[0]), os.c_str());
          }
      CHECK(ok, "not-linearizable", "no sequential order of the %zu critical sections explains their results (%s, capacity %zu, %d tasks)", hist.size(), E::name, cap, nt);
    }
    CHECK(sh.core.owner == -1, "still-held", "the mutex is still locked after all guards are gone");
    CHECK(sh.z.redzones_ok(), "outside", "memory beside the storage was written");
    sim::cover_state(sim::mix(cap, q.size()));
  }
};
void run_c08() {
  switch (draw(4)) {
  case 0: C08<uint32_t>::run(); break;
  case 1: C08<Bytes<24>>::run(); break;
  case 2: C08<TrackedCM>::run(); break;
  default: C08<uint64_t>::run(); break;
  }
}
#endif
} // namespace

#ifdef ONLY_A01
namespace { bool const component = h::add_component("lock guard", run_l01); }
#else
namespace sim {
const Harness harnesses[] = {
#if PROP(L01)
    {"L01", run_l01, "lock guard"},
#elif PROP(C08)
    {"C08", run_c08, "shared buffer"},
#endif
};
const size_t n_harnesses = sizeof harnesses / sizeof harnesses[0];
} // namespace sim
#endif
