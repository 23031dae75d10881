// Function wrappers under simulation: F01..F04.
#include "common.h"

#include <embedded/function.h>

#include <functional>

namespace fnh {
using Run = void (*)();
inline Run g_type_run[16];
} // namespace fnh

namespace {
using namespace h;
using embedded::function;
using u64 = uint64_t;

u64 respond(u64 id, u64 n, u64 x) { return sim::mix(sim::mix(id, n), x); }

// ------------------------------------------------------------------ targets
// Responses identify the target and its state; life is tracked by address.
// A target also checks that it is where it believes to be.
inline u64 g_copies = 0, g_moves = 0;
inline unsigned g_throw_call = 0; // the n-th call of a target from now throws
[[maybe_unused]] void call_point() {
  if (g_throw_call && --g_throw_call == 0) {
    Unobserve u;
    g_thrown = true;
    STAT("fault.target_throw");
    throw Fault{g_throw_token};
  }
}

enum Kind { STATELESS0, STATELESS1, SMALL, COUNTER, MOVEONLY, COPYABLE, FNPTR0, FNPTR1, REFWRAP, OVERLOADED, ALIGNED, FULL, NESTED, LAMBDA, SELFREF, LISTED, SCRIPT, NKINDS };
const char* const kind_name[] = {"stateless A", "stateless B", "1-byte", "counter (self-checking)", "move-only", "copyable", "function pointer A",
  "function pointer B", "reference_wrapper", "const/non-const overloads", "maximally aligned", "exactly filling", "lambda holding a function", "lambda", "self-pointing with nothing to destroy", "list-constructible", "script"};

struct Stateless0 { u64 operator()(u64 x) const { call_point(); return respond(1001, 0, x); } };
struct Stateless1 { u64 operator()(u64 x) const { call_point(); return respond(1002, 0, x); } };
[[maybe_unused]] u64 fnptr0(u64 x) { call_point(); return respond(1003, 0, x); }
[[maybe_unused]] u64 fnptr1(u64 x) { call_point(); return respond(1004, 0, x); }

template <class D> struct Tracked1 { // copy/move bookkeeping
  Tracked1() { Life::born(static_cast<D*>(this)); }
  Tracked1(Tracked1 const& o) { ++g_copies; Life::used(static_cast<D const*>(&o)); Life::born(static_cast<D*>(this)); }
  Tracked1(Tracked1&& o) noexcept { ++g_moves; Life::used(static_cast<D*>(&o)); Life::born(static_cast<D*>(this)); }
  Tracked1& operator=(Tracked1 const&) = delete;
  ~Tracked1() { Life::died(static_cast<D*>(this)); }
};
constexpr u64 kDead = 0xd15ea5ed;

struct Small : Tracked1<Small> {
  uint8_t id;
  explicit Small(u64 i) : id(static_cast<uint8_t>(i)) {}
  Small(Small const&) = default;
  Small(Small&& o) noexcept : Tracked1(std::move(o)), id(o.id) { o.id = 0; }
  ~Small() { id = 0xdd; }
  u64 operator()(u64 x) const { call_point(); return respond(id, 7, x); }
};
struct Counter { // 24 bytes: fills the default storage exactly
  u64 id, n = 0;
  Counter* self;
  explicit Counter(u64 i) : id(i), self(this) { Life::born(this); }
  Counter(Counter const& o) : id(o.id), n(o.n), self(this) { ++g_copies; Life::used(&o); Life::born(this); }
  Counter(Counter&& o) noexcept : id(o.id), n(o.n), self(this) {
    ++g_moves;
    Life::used(&o);
    if (o.self != &o) id = kDead;
    o.id = kDead;
    Life::born(this);
  }
  ~Counter() { Life::died(this); id = kDead; self = nullptr; }
  u64 operator()(u64 x) {
    call_point();
    if (self != this) return kDead;
    return respond(id, n++, x);
  }
  u64 operator()(u64 x) const {
    call_point();
    if (self != this) return kDead;
    return respond(id, 0, x);
  }
};
// In the reduced harness (see check.py) every target can be copied.
#ifdef REDUCED
#define REDUCED_COPY(...) __VA_ARGS__
#else
#define REDUCED_COPY(...)
#endif
struct MoveOnlyT : Tracked1<MoveOnlyT> {
  REDUCED_COPY(MoveOnlyT(MoveOnlyT const&) = default;)
  u64 id, n = 0;
  explicit MoveOnlyT(u64 i) : id(i) {}
  MoveOnlyT(MoveOnlyT&& o) noexcept : Tracked1(std::move(o)), id(o.id), n(o.n) { o.id = kDead; }
  ~MoveOnlyT() { id = kDead; }
  u64 operator()(u64 x) { call_point(); return respond(id, n++, x); }
  u64 operator()(u64 x) const { call_point(); return respond(id, 0, x); }
};
struct CopyableT : Tracked1<CopyableT> { // copying is allowed but must not happen behind the caller's back
  u64 id;
  mutable u64 n = 0; // even calls as const count here
  explicit CopyableT(u64 i) : id(i) {}
  CopyableT(CopyableT const& o) = default;
  CopyableT(CopyableT&& o) noexcept : Tracked1(std::move(o)), id(o.id), n(o.n) { o.id = kDead; }
  ~CopyableT() { id = kDead; }
  u64 operator()(u64 x) const { call_point(); return respond(id, n++, x); }
};
struct Overloaded {
  u64 id;
  u64 operator()(u64 x) { call_point(); return respond(id, 1, x); }
  u64 operator()(u64 x) const { call_point(); return respond(id, 2, x); }
};
struct Ext { // lives outside, called through std::reference_wrapper
  u64 id, n;
  u64 operator()(u64 x) { call_point(); return respond(id, n++, x); }
};
inline Ext g_ext[2];
template <size_t A> struct alignas(A) AlignedT : Tracked1<AlignedT<A>> {
  uint8_t id;
  REDUCED_COPY(AlignedT(AlignedT const&) = default;)
  explicit AlignedT(u64 i) : id(static_cast<uint8_t>(i)) {}
  AlignedT(AlignedT&& o) noexcept : Tracked1<AlignedT<A>>(std::move(o)), id(o.id) { o.id = 0; }
  ~AlignedT() { id = 0xdd; }
  u64 operator()(u64 x) const {
    call_point();
    if (reinterpret_cast<uintptr_t>(this) % A) return kDead;
    return respond(id, A, x);
  }
};
template <size_t C> struct FullT : Tracked1<FullT<C>> {
  unsigned char b[C];
  REDUCED_COPY(FullT(FullT const&) = default;)
  explicit FullT(u64 i) { for (size_t k = 0; k < C; ++k) b[k] = static_cast<unsigned char>(i * 7 + k * 3); }
  FullT(FullT&& o) noexcept : Tracked1<FullT<C>>(std::move(o)) { memcpy(b, o.b, C); memset(o.b, 0xEE, C); }
  ~FullT() { memset(b, 0xDD, C); }
  u64 operator()(u64 x) const {
    call_point();
    for (size_t k = 0; k < C; ++k)
      if (b[k] != static_cast<unsigned char>(b[0] + k * 3)) return kDead;
    return respond(b[0], C, x);
  }
};

struct SelfRef { // nothing to destroy, but it must be moved by its own constructor
  u64 id, n = 0;
  SelfRef* self;
  REDUCED_COPY(SelfRef(SelfRef const& o) : id(o.id), n(o.n), self(this) {})
  explicit SelfRef(u64 i) : id(i), self(this) {}
  SelfRef(SelfRef&& o) noexcept : id(o.self == &o ? o.id : kDead), n(o.n), self(this) { o.self = nullptr; }
  u64 operator()(u64 x) { call_point(); return self == this ? respond(id, n++, x) : kDead; }
  u64 operator()(u64 x) const { call_point(); return self == this ? respond(id, 0, x) : kDead; }
};
static_assert(std::is_trivially_destructible<SelfRef>::value, "");
struct FromAny { // converts from everything, also from a target
  template <class T> FromAny(T&&) {}
};
struct ListedT : Tracked1<ListedT> { // T{x} is a list with x in it, not a move of x; &x is not its address; has a pool of its own
  u64 id, n = 0;
#ifndef REDUCED
  ListedT* operator&() { return nullptr; }
  ListedT const* operator&() const { return nullptr; }
  static void* operator new(size_t, void*) { // what asks the type for room does not get the wrapper's storage
    alignas(16) static unsigned char pool[64];
    return pool;
  }
#endif
  explicit ListedT(u64 i) : id(i) {}
  ListedT(std::initializer_list<FromAny>) : id(kDead) {}
  REDUCED_COPY(ListedT(ListedT const&) = default;)
  ListedT(ListedT&& o) noexcept : Tracked1(std::move(o)), id(o.id), n(o.n) { o.id = kDead; }
  ~ListedT() { id = kDead; }
  u64 operator()(u64 x) { call_point(); return respond(id, n++, x); }
  u64 operator()(u64 x) const { call_point(); return respond(id, 0, x); }
};

struct MT { // model of a target
  Kind kind;
  u64 id, n;
  std::shared_ptr<MT> inner;
  int act = 0, i = 0, j = 0; // script
};
using Model = std::unique_ptr<MT>;

// What a script target does when called (set per run by the harness)
inline u64 (*g_script)(MT const&, u64 x) = nullptr;
inline MT const* g_script_tab[64];
inline int g_nscripts = 0;
struct ScriptT : Tracked1<ScriptT> {
  uint8_t idx;
  REDUCED_COPY(ScriptT(ScriptT const&) = default;)
  explicit ScriptT(int i) : idx(static_cast<uint8_t>(i)) {}
  ScriptT(ScriptT&& o) noexcept : Tracked1(std::move(o)), idx(o.idx) { o.idx = 63; }
  ~ScriptT() { idx = 62; }
  u64 operator()(u64 x) const {
    call_point();
    Unobserve u;
    u64 r = g_script(*g_script_tab[idx], x);
    return respond(r, idx, x);
  }
};

template <class F> struct Traits;
template <size_t C, size_t A> struct Traits<function<u64(u64), C, A>> {
  static constexpr bool is_const = false;
  static constexpr size_t cap = C, al = A;
};
template <size_t C, size_t A> struct Traits<function<u64(u64) const, C, A>> {
  static constexpr bool is_const = true;
  static constexpr size_t cap = C, al = A;
};

constexpr int W = 5;
#ifdef REDUCED
constexpr bool kReduced = true;
#else
constexpr bool kReduced = false;
#endif

template <class F> struct World {
  using Tr = Traits<F>;
  static constexpr bool cst = Tr::is_const;
  using Inner = function<u64(u64), 24, 8>;
  template <class T> static constexpr bool fits() {
    return sizeof(T) <= Tr::cap && Tr::al % alignof(T) == 0;
  }
  Zone z[W];
  F* f[W] = {};
  bool holds[W] = {};
  Model m[W];
  u64 next_id = 10;
  bool scripts = false;

  // F's own traits decide what is invocable for a const signature
  bool can(Kind k) const {
    switch (k) {
    case STATELESS0: case STATELESS1: return true;
    case SMALL: return fits<Small>();
    case COUNTER: return fits<Counter>();
    case MOVEONLY: return fits<MoveOnlyT>();
    case COPYABLE: return fits<CopyableT>();
    case FNPTR0: case FNPTR1: return fits<u64 (*)(u64)>();
    case REFWRAP: return fits<std::reference_wrapper<Ext>>();
    case OVERLOADED: return fits<Overloaded>();
    case ALIGNED: return Tr::cap >= Tr::al;
    case FULL: return true;
    case NESTED: return !kReduced && !cst && Tr::cap >= sizeof(Inner) + 8 && Tr::al % alignof(Inner) == 0;
    case LAMBDA: return fits<u64[2]>();
    case SELFREF: return fits<SelfRef>();
    case LISTED: return fits<ListedT>();
    case SCRIPT: return scripts && fits<ScriptT>();
    default: return false;
    }
  }
  // make a target and hand it to `put`
  template <class Put> void with_target(Kind k, MT& t, bool as_lvalue, Put&& put) {
    switch (k) {
    case STATELESS0: put(Stateless0{}); break;
    case STATELESS1: put(Stateless1{}); break;
    case SMALL:
      if constexpr (fits<Small>()) {
        Small s(t.id & 0xff);
        if (as_lvalue) put(s); else put(std::move(s));
      }
      break;
    case COUNTER:
      if constexpr (fits<Counter>()) {
        Counter s(t.id);
        if (as_lvalue) put(s); else put(std::move(s));
      }
      break;
    case MOVEONLY: if constexpr (fits<MoveOnlyT>()) put(MoveOnlyT(t.id)); break;
    case COPYABLE:
      if constexpr (fits<CopyableT>()) {
        CopyableT s(t.id);
        CopyableT const& cs = s;
        if (as_lvalue) put(cs); else put(std::move(s));
      }
      break;
    case FNPTR0: if constexpr (fits<u64 (*)(u64)>()) put(&fnptr0); break;
    case FNPTR1: if constexpr (fits<u64 (*)(u64)>()) { if (as_lvalue) put(fnptr1); else put(&fnptr1); } break;
    case REFWRAP: if constexpr (fits<std::reference_wrapper<Ext>>()) put(std::ref(g_ext[t.id & 1])); break;
    case OVERLOADED: if constexpr (fits<Overloaded>()) put(Overloaded{t.id}); break;
    case ALIGNED: if constexpr (Tr::cap >= Tr::al) put(AlignedT<Tr::al>(t.id)); break;
    case FULL: put(FullT<Tr::cap>(t.id)); break;
    case NESTED:
      if constexpr (!kReduced && !cst && Tr::cap >= sizeof(Inner) + 8 && Tr::al % alignof(Inner) == 0) {
        u64 id = t.id;
        Inner in{Counter(t.inner->id)};
        put([id, in = std::move(in)](u64 x) mutable { return respond(id, in(x), x); });
      }
      break;
    case LAMBDA:
      if constexpr (fits<u64[2]>()) {
        u64 id = t.id;
        if constexpr (cst) {
          u64 y = ~id;
          put([id, y](u64 x) { call_point(); return respond(id, ~y == id ? 0 : 99, x); });
        } else {
          u64 n = 0;
          put([id, n](u64 x) mutable { call_point(); return respond(id, n++, x); });
        }
      }
      break;
    case SELFREF: if constexpr (fits<SelfRef>()) put(SelfRef(t.id)); break;
    case LISTED: if constexpr (fits<ListedT>()) put(ListedT(t.id)); break;
    case SCRIPT: if constexpr (fits<ScriptT>()) put(ScriptT(static_cast<int>(t.id))); break;
    default: break;
    }
  }
  // what a call must return (advances the model's state)
  u64 expect(MT& t, u64 x) {
    switch (t.kind) {
    case STATELESS0: return respond(1001, 0, x);
    case STATELESS1: return respond(1002, 0, x);
    case FNPTR0: return respond(1003, 0, x);
    case FNPTR1: return respond(1004, 0, x);
    case SMALL: return respond(t.id & 0xff, 7, x);
    case COUNTER: case MOVEONLY: case SELFREF: case LISTED: return respond(t.id, cst ? 0 : t.n++, x);
    case LAMBDA: return respond(t.id, cst ? 0 : t.n++, x);
    case COPYABLE: return respond(t.id, t.n++, x);
    case OVERLOADED: return respond(t.id, cst ? 2 : 1, x);
    case REFWRAP: return respond(g_ext[t.id & 1].id, ext_n[t.id & 1]++, x);
    case ALIGNED: return respond(t.id & 0xff, Tr::al, x);
    case FULL: return respond((t.id * 7) & 0xff, Tr::cap, x);
    case NESTED: return respond(t.id, respond(t.inner->id, t.inner->n++, x), x);
    default: return 0;
    }
  }
  u64 ext_n[2] = {0, 0};

  void setup() {
    for (auto& q : z) q = zone(sizeof(F), 128, 64);
    g_ext[0] = {501, 0};
    g_ext[1] = {502, 0};
    g_copies = g_moves = 0;
    g_throw_call = 0;
    g_nscripts = 0;
  }
  int pick_absent() {
    std::vector<int> v;
    for (int i = 0; i < W; ++i) if (!f[i]) v.push_back(i);
    return v.empty() ? -1 : v[draw(static_cast<uint32_t>(v.size()))];
  }
  int pick_present() {
    std::vector<int> v;
    for (int i = 0; i < W; ++i) if (f[i]) v.push_back(i);
    return v.empty() ? -1 : v[draw(static_cast<uint32_t>(v.size()))];
  }
  Model draw_target() {
    std::vector<Kind> v;
    for (int k = 0; k < NKINDS; ++k) if (can(static_cast<Kind>(k))) v.push_back(static_cast<Kind>(k));
    Model t(new MT{v[draw(static_cast<uint32_t>(v.size()))], next_id++, 0, nullptr});
    if (t->kind == NESTED) t->inner = std::make_shared<MT>(MT{COUNTER, next_id++, 0, nullptr});
    if (t->kind == SCRIPT) {
      if (g_nscripts == 60) { t->kind = STATELESS0; return t; }
      t->act = static_cast<int>(draw(5));
      t->i = static_cast<int>(draw(W));
      t->j = static_cast<int>(draw(W));
      t->id = static_cast<u64>(g_nscripts);
      MT* keep = new MT{SCRIPT, t->id, 0, nullptr, t->act, t->i, t->j};
      g_script_tab[g_nscripts++] = keep; // freed at the end of the run
    }
    return t;
  }
  void free_scripts() {
    for (int i = 0; i < g_nscripts; ++i) delete g_script_tab[i];
    g_nscripts = 0;
  }

  enum Op { CONSTRUCT_TARGET, CONSTRUCT_EMPTY, DESTROY, ASSIGN_TARGET, ASSIGN_MOVE, CONSTRUCT_MOVE, SWAP, RESET, CALL, BOOL, BY_VALUE, VECTOR, ROTATE, ASSIGN_TEMP, NOPS };
  static F pass(F x) { return x; }
  void step(u64) {
    static const uint32_t w[NOPS] = {6, 1, 1, 7, 5, 3, 3, 1, 9, 1, 2, 1, 1, 3};
    Op op = static_cast<Op>(sim::weighted(w));
    int i = pick_present(), j = pick_present(), k = pick_absent();
    if (i < 0) op = draw(2) ? CONSTRUCT_EMPTY : CONSTRUCT_TARGET;
    if (k < 0 && (op == CONSTRUCT_TARGET || op == CONSTRUCT_EMPTY || op == CONSTRUCT_MOVE)) op = CALL;
    STAT("ops");
    ev(op, static_cast<u64>(i + 1), static_cast<u64>(k + 1));
    switch (op) {
    case CONSTRUCT_TARGET: {
      Model t = draw_target();
      bool lv = draw(2) != 0;
      TRACE("wrapper %d constructed from %s target #%llu%s", k, kind_name[t->kind], (unsigned long long)t->id, lv ? " (lvalue)" : "");
      with_target(t->kind, *t, lv, [&](auto&& x) {
        Observe o;
        f[k] = new (z[k].p) F(std::forward<decltype(x)>(x));
      });
      m[k] = std::move(t);
      break;
    }
    case CONSTRUCT_EMPTY: {
      bool np = draw(2);
      TRACE("wrapper %d constructed empty%s", k, np ? " (nullptr)" : "");
      Observe o;
      f[k] = np ? new (z[k].p) F(nullptr) : new (z[k].p) F();
      break;
    }
    case DESTROY: {
      TRACE("wrapper %d destroyed", i);
      { Observe o; f[i]->~F(); }
      f[i] = nullptr;
      m[i].reset();
      break;
    }
    case ASSIGN_TARGET: {
      Model t = draw_target();
      bool lv = draw(2) != 0;
      TRACE("wrapper %d assigned %s target #%llu%s", i, kind_name[t->kind], (unsigned long long)t->id, lv ? " (lvalue)" : "");
      with_target(t->kind, *t, lv, [&](auto&& x) {
        Observe o;
        F& r = *f[i] = std::forward<decltype(x)>(x);
        CHECK(&r == f[i], "result", "assignment returned another object");
      });
      m[i] = std::move(t);
      break;
    }
    case ASSIGN_TEMP: { // from a temporary wrapper, built in any of the ways
      Model t = draw_target();
      TRACE("wrapper %d assigned a temporary wrapper with %s target #%llu", i, kind_name[t->kind], (unsigned long long)t->id);
      with_target(t->kind, *t, false, [&](auto&& x) {
        Observe o;
        F tmp;
        tmp = std::forward<decltype(x)>(x);
        *f[i] = std::move(tmp);
        bool left = static_cast<bool>(tmp);
        Unobserve u;
        CHECK(!left, "emptiness", "a moved-from wrapper still claims to hold a target");
      });
      m[i] = std::move(t);
      break;
    }
    case ASSIGN_MOVE: {
      TRACE("wrapper %d = move(wrapper %d)", i, j);
      { Observe o; *f[i] = std::move(*f[j]); }
      if (i != j) m[i] = std::move(m[j]);
      break;
    }
    case CONSTRUCT_MOVE: {
      TRACE("wrapper %d constructed by moving wrapper %d", k, i);
      { Observe o; f[k] = new (z[k].p) F(std::move(*f[i])); }
      m[k] = std::move(m[i]);
      break;
    }
    case SWAP: {
      TRACE("swap(wrapper %d, wrapper %d)", i, j);
      { Observe o; using std::swap; swap(*f[i], *f[j]); }
      if (i != j) std::swap(m[i], m[j]);
      break;
    }
    case RESET: {
      uint32_t how = draw(3);
      TRACE("wrapper %d reset (form %u)", i, how);
      {
        Observe o;
        if (how == 0) *f[i] = nullptr;
        else if (how == 1) *f[i] = F();
        else { F sink(std::move(*f[i])); }
      }
      m[i].reset();
      break;
    }
    case BY_VALUE: {
      TRACE("wrapper %d passed and returned by value", i);
      Observe o;
      *f[i] = pass(std::move(*f[i]));
      break;
    }
    case VECTOR: { // relocation by a growing container
      TRACE("all wrappers through a growing vector");
      std::vector<F> v;
      for (int q = 0; q < W; ++q) if (f[q]) { sim::UserHeap heap; Observe o; v.push_back(std::move(*f[q])); }
      size_t c = 0;
      for (int q = 0; q < W; ++q) if (f[q]) { Observe o; *f[q] = std::move(v[c]); ++c; }
      break;
    }
    case ROTATE: {
      std::vector<int> pr;
      for (int q = 0; q < W; ++q) if (f[q]) pr.push_back(q);
      TRACE("rotate %zu wrappers", pr.size());
      if (pr.size() < 2) break;
      Model t0 = std::move(m[pr[0]]);
      {
        Observe o;
        F tmp(std::move(*f[pr[0]]));
        for (size_t q = 0; q + 1 < pr.size(); ++q) *f[pr[q]] = std::move(*f[pr[q + 1]]);
        *f[pr.back()] = std::move(tmp);
      }
      for (size_t q = 0; q + 1 < pr.size(); ++q) m[pr[q]] = std::move(m[pr[q + 1]]);
      m[pr.back()] = std::move(t0);
      break;
    }
    case CALL: do_call(i); break;
    case BOOL: check_bool(i); break;
    default: break;
    }
    u64 st = 0;
    for (int q = 0; q < W; ++q) st = st * 22 + (!f[q] ? 0 : !m[q] ? 1 : 2 + m[q]->kind);
    sim::cover_state(sim::mix(st, op));
  }
  u64 raw_call(int i, u64 x) {
    Observe o;
    if constexpr (cst) { F const& c = *f[i]; return c(x); }
    else return (*f[i])(x);
  }
  void check_bool(int i) {
    bool b, b2;
    { Observe o; b = static_cast<bool>(*f[i]); F const& c = *f[i]; b2 = c ? true : false; }
    CHECK(b == (m[i] != nullptr) && b2 == b, "emptiness", "wrapper %d converts to %d, it %s a target", i, b, m[i] ? "holds" : "does not hold");
  }
  virtual void do_call(int i) {
    u64 x = draw(1000);
    if (!m[i]) { // documented: bad_function_call
      bool threw = false;
      try { raw_call(i, x); } catch (std::bad_function_call const&) { threw = true; }
      STAT("fault.empty_call");
      TRACE("call empty wrapper %d", i);
      CHECK(threw, "empty-call", "calling empty wrapper %d did not throw bad_function_call", i);
      return;
    }
    u64 got = raw_call(i, x);
    u64 want = expect(*m[i], x);
    TRACE("call wrapper %d (%s #%llu) with %llu", i, kind_name[m[i]->kind], (unsigned long long)m[i]->id, (unsigned long long)x);
    ev(got);
    CHECK(got == want, "result", "wrapper %d holding a %s target returned something else than its target would have", i, kind_name[m[i]->kind]);
  }
  void check_all() {
    for (int i = 0; i < W; ++i)
      if (f[i]) check_bool(i);
  }
  void teardown() {
    for (int i = 0; i < W; ++i)
      if (f[i]) {
        { Observe o; f[i]->~F(); }
        f[i] = nullptr;
        m[i].reset();
      }
    free_scripts();
  }
  bool zones_ok() const {
    for (auto const& q : z)
      if (!q.redzones_ok()) return false;
    return true;
  }
  virtual ~World() = default;
};

uint32_t steps_drawn() {
  static const uint32_t w[] = {3, 4, 2};
  uint32_t k = sim::weighted(w);
  return k == 0 ? range(2, 12) : k == 1 ? range(10, 60) : range(60, 160);
}

// ------------------------------------------------------- argument fidelity
#if PROP(F01)
struct Obj {
  u64 base;
  u64 field;
  u64 add(u64 x) { base += x; return base; }
  u64 peek(u64 x) const { return base ^ x; }
};
struct Cat { // reports how it was called
  u64 operator()(Arg& a) { return 10 + (&a == seen); }
  u64 operator()(Arg const& a) { return 20 + (&a == seen); }
  u64 operator()(Arg&& a) { return 30 + (&a == seen); }
  static inline Arg const* seen;
};
struct Multi {
  u64 k;
  std::unique_ptr<u64> operator()(std::unique_ptr<u64> p, Arg& a, Arg const& b, int c, double d) {
    Unobserve u;
    a.v += 1;
    return std::unique_ptr<u64>(new u64(*p * 3 + a.v * 5 + b.v * 7 + static_cast<u64>(c) * 11 + static_cast<u64>(d) * 13 + k));
  }
};
struct RefRet {
  u64* where;
  u64& operator()(int d) { return where[d]; }
};
struct ConvRet { uint8_t operator()(u64 x) const { return static_cast<uint8_t>(x); } };
u64 free_sum(u64 a, u64 b, u64 c, u64 d, u64 e, u64 f, u64 g, u64 hh) { return a + 2 * b + 3 * c + 4 * d + 5 * e + 6 * f + 7 * g + 8 * hh; }

[[maybe_unused]] void arguments() {
  uint32_t rounds = range(1, 12);
  Obj obj{range(1, 100), range(1, 100)};
  function<u64(Obj&, u64)> fm(&Obj::add);
  function<u64(Obj const&, u64) const> fp(&Obj::peek);
  function<u64&(Obj&)> ff(&Obj::field);
  function<u64(Obj*, u64)> fptr(&Obj::add);
  function<u64(Arg&)> cl{Cat{}};
  function<u64(Arg const&)> cc{Cat{}};
  function<u64(Arg&&)> cr{Cat{}};
  function<u64(Arg)> cv{Cat{}};
  function<std::unique_ptr<u64>(std::unique_ptr<u64>, Arg&, Arg const&, int, double)> mu{Multi{17}};
  u64 arr[4] = {1, 2, 3, 4};
  function<u64&(int)> rr{RefRet{arr}};
  function<u64(u64)> conv{ConvRet{}};
  function<void(u64&)> vd{[](u64& x) { x += 9; }};
  function<u64(u64, u64, u64, u64, u64, u64, u64, u64)> fs{free_sum};
  function<u64(Obj&, u64)> none(static_cast<u64 (Obj::*)(u64)>(nullptr));
  u64 mbase = obj.base;
  for (uint32_t r = 0; r < rounds; ++r) {
    u64 x = draw(100);
    uint32_t op = draw(14);
    ev(100 + op, x);
    Observe o;
    switch (op) {
    case 0: { u64 g = fm(obj, x); mbase += x; Unobserve u; CHECK(g == mbase && obj.base == mbase, "arguments", "member function target returned %llu", (unsigned long long)g); break; }
    case 1: { u64 g = fp(obj, x); Unobserve u; CHECK(g == (mbase ^ x), "arguments", "const member function target"); break; }
    case 2: { u64& g = ff(obj); Unobserve u; CHECK(&g == &obj.field, "arguments", "data member target returned another object"); break; }
    case 3: { u64 g = fptr(&obj, x); mbase += x; Unobserve u; CHECK(g == mbase, "arguments", "member function through pointer"); break; }
    case 4: { Arg a{x}; Cat::seen = &a; u64 g = cl(a); Unobserve u; CHECK(g == 11, "arguments", "lvalue reference argument arrived as %llu", (unsigned long long)g); break; }
    case 5: { Arg const a{x}; Cat::seen = &a; u64 g = cc(a); Unobserve u; CHECK(g == 21, "arguments", "const reference argument arrived as %llu", (unsigned long long)g); break; }
    case 6: { Arg a{x}; Cat::seen = &a; u64 g = cr(std::move(a)); Unobserve u; CHECK(g == 31, "arguments", "rvalue reference argument arrived as %llu", (unsigned long long)g); break; }
    case 7: { Arg a{x}; Cat::seen = &a; u64 g = cv(a); Unobserve u; CHECK(g == 30, "arguments", "by-value argument arrived as %llu", (unsigned long long)g); break; }
    case 8: {
      std::unique_ptr<u64> p;
      { Unobserve u; p.reset(new u64(x)); }
      Arg a{r}, b{x + 1};
      auto g = mu(std::move(p), a, b, -3, 2.5);
      Unobserve u;
      u64 want = x * 3 + (r + 1) * 5 + (x + 1) * 7 + static_cast<u64>(-3) * 11 + 2 * 13 + 17;
      CHECK(g && *g == want && a.v == r + 1 && !p, "arguments", "mixed arguments or move-only result damaged");
      break;
    }
    case 9: { int d = static_cast<int>(x % 4); u64& g = rr(d); g += 1; Unobserve u; CHECK(&g == &arr[d], "arguments", "returned reference denotes another object"); break; }
    case 10: { u64 g = conv(x * 77); Unobserve u; CHECK(g == ((x * 77) & 0xff), "arguments", "converted result"); break; }
    case 11: { u64 y = x; vd(y); Unobserve u; CHECK(y == x + 9, "arguments", "void target with reference argument"); break; }
    case 12: { u64 g = fs(x, 1, 2, 3, 4, 5, 6, r); Unobserve u; CHECK(g == free_sum(x, 1, 2, 3, 4, 5, 6, r), "arguments", "eight arguments in order"); break; }
    default: {
      bool b0 = static_cast<bool>(none), b1 = static_cast<bool>(fm);
      fm = static_cast<u64 (Obj::*)(u64)>(nullptr);
      bool b2 = static_cast<bool>(fm);
      fm = &Obj::add;
      bool b3 = static_cast<bool>(fm);
      Unobserve u;
      CHECK(!b0 && b1 && !b2 && b3, "emptiness", "null member pointers and emptiness");
    }
    }
  }
}

template <class F> struct F01 {
  static void run() {
    run_reset();
    if (coin(6)) { arguments(); return; }
    World<F> w;
    w.setup();
    uint32_t n = steps_drawn();
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      w.step(i);
      w.check_all();
    }
    // finally every wrapper that holds a target still works
    for (int i = 0; i < W; ++i)
      if (w.f[i] && w.m[i]) w.do_call(i);
    w.teardown();
    CHECK(w.zones_ok(), "outside", "memory around a wrapper was modified");
  }
};
#endif

#if PROP(F02)
template <class F> struct F02 {
  static void run() {
    run_reset();
    World<F> w;
    w.setup();
    Life::strict = true;
    uint32_t n = steps_drawn();
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      u64 c0 = g_copies;
      size_t held0 = held(w);
      w.step(i);
      // copies happen only when the caller hands in an lvalue
      if (held(w) <= held0 && g_copies > c0 + 1) sim::violate("copied", "a target was copied %llu times", (unsigned long long)(g_copies - c0));
      g_copies = c0;
      check(w);
    }
    w.teardown();
    CHECK(Life::live.empty(), "lifetime", "%zu targets alive after all wrappers are gone", Life::live.size());
    CHECK(w.zones_ok(), "outside", "memory around a wrapper was modified");
  }
  static size_t held(World<F>& w) {
    size_t n = 0;
    for (auto const& q : w.m) n += q != nullptr;
    return n;
  }
  static bool tracked(Kind k) { return k == SMALL || k == COUNTER || k == MOVEONLY || k == COPYABLE || k == ALIGNED || k == FULL || k == NESTED || k == LISTED; }
  static void check(World<F>& w) {
    size_t want = 0;
    for (int i = 0; i < W; ++i) {
      if (!w.f[i]) continue;
      uintptr_t lo = reinterpret_cast<uintptr_t>(w.f[i]), hi = lo + sizeof(F);
      size_t in = 0;
      uintptr_t at = 0;
      for (auto p : Life::live)
        if (reinterpret_cast<uintptr_t>(p) >= lo && reinterpret_cast<uintptr_t>(p) < hi) { ++in; at = reinterpret_cast<uintptr_t>(p); }
      size_t exp = w.m[i] && tracked(w.m[i]->kind) ? 1 : 0;
      want += exp;
      CHECK(in == exp, "lifetime", "wrapper %d contains %zu live target objects, expected %zu (%s)", i, in, exp, w.m[i] ? kind_name[w.m[i]->kind] : "empty");
      if (exp && w.m[i]->kind == ALIGNED) CHECK(at % Traits<F>::al == 0, "alignment", "target of wrapper %d is not aligned to %zu", i, Traits<F>::al);
    }
    CHECK(Life::live.size() == want, "lifetime", "%zu target objects alive, %zu held by wrappers", Life::live.size(), want);
    ev(want);
  }
};
#endif

#if PROP(F03)
template <class F> struct FailWorld : World<F> {
  using B = World<F>;
  static inline FailWorld* cur = nullptr;
  int depth = 0;
  // scripts act on the world; the model follows
  static u64 script(MT const& s, u64 x) { return cur->act(s, x); }
  u64 act(MT const& s, u64 x) {
    int i = s.i, j = s.j;
    bool busy_i = is_busy(i), busy_j = is_busy(j);
    TRACE("  the target acts: %d on %d,%d", s.act, i, j);
    switch (s.act) {
    case 0: // reset another wrapper
      if (this->f[i] && !busy_i) { { Observe o; *this->f[i] = nullptr; } this->m[i].reset(); }
      break;
    case 1: // move between other wrappers
      if (this->f[i] && this->f[j] && !busy_i && !busy_j && i != j) { { Observe o; *this->f[i] = std::move(*this->f[j]); } this->m[i] = std::move(this->m[j]); }
      break;
    case 2: // replace another wrapper's target
      if (this->f[i] && !busy_i) {
        { Observe o; *this->f[i] = Stateless0{}; }
        this->m[i].reset(new MT{STATELESS0, 0, 0, nullptr});
      }
      break;
    case 3: // call another (or its own) wrapper
      if (this->f[i] && depth < 4 && this->m[i]) { STAT("probe.reentrant_call"); return nested(i, x + 1); }
      break;
    default: { // make and drop wrappers on the way
      Observe o;
      F a(Stateless1{});
      F b(std::move(a));
      a = Stateless0{};
      u64 r = 0;
      if constexpr (B::cst) { F const& c = b; r = c(x); } else r = b(x);
      Unobserve u;
      return r;
    }
    }
    return 0;
  }
  u64 model_act_result(MT const& s, u64 x); // unused
  std::vector<int> busy;
  bool is_busy(int i) const { return std::find(busy.begin(), busy.end(), i) != busy.end(); }
  u64 nested(int i, u64 x) {
    ++depth;
    busy.push_back(i);
    u64 got;
    try { got = this->raw_call(i, x); } catch (...) { busy.pop_back(); --depth; throw; }
    busy.pop_back();
    --depth;
    if (this->m[i]->kind != SCRIPT) {
      u64 want = this->expect(*this->m[i], x);
      CHECK(got == want, "result", "re-entrant call of wrapper %d returned something else than its target would have", i);
    }
    return got;
  }
  void do_call(int i) override {
    u64 x = draw(1000);
    if (!this->m[i]) {
      uint32_t times = range(1, 3);
      for (uint32_t k = 0; k < times; ++k) {
        bool threw = false;
        TRACE("call empty wrapper %d", i);
        STAT("fault.empty_call");
        try { this->raw_call(i, x); } catch (std::bad_function_call const&) { threw = true; } catch (...) { sim::violate("empty-call", "calling empty wrapper %d threw something else", i); }
        CHECK(threw, "empty-call", "calling empty wrapper %d did not throw bad_function_call", i);
        this->check_bool(i);
      }
      return;
    }
    bool inject = draw(2);
    g_thrown = false;
    if (inject) { g_throw_call = 1 + draw(2); g_throw_token = draw(0xffffffffu) + 1; }
    TRACE("call wrapper %d (%s #%llu)%s", i, kind_name[this->m[i]->kind], (unsigned long long)this->m[i]->id, inject ? " [a target may throw]" : "");
    bool caught = false;
    u64 got = 0;
    MT* t = this->m[i].get();
    busy.assign(1, i);
    depth = 1;
    try { got = this->raw_call(i, x); }
    catch (Fault const& e) {
      caught = true;
      CHECK(e.token == g_throw_token && g_thrown, "wrong-exception", "another exception than the target's came out of the call");
    } catch (std::bad_function_call const&) {
      sim::violate("wrong-exception", "calling wrapper %d, which holds a target, threw bad_function_call", i);
    } catch (...) { sim::violate("wrong-exception", "unexpected exception out of a call"); }
    busy.clear();
    g_throw_call = 0;
    CHECK(caught == g_thrown, "swallowed", "the target's exception did not arrive");
    CHECK(this->m[i].get() == t, "harness", "model changed");
    if (!caught && t->kind != SCRIPT) {
      u64 want = this->expect(*t, x);
      CHECK(got == want, "result", "wrapper %d returned something else than its target would have", i);
    }
    ev(caught);
    this->check_bool(i);
  }
};
// Failing calls for signatures of every shape: whatever the arguments and the
// result are, an empty wrapper throws bad_function_call without touching the
// arguments, and the target's exception comes out unchanged.
template <class R> struct Give { static R give(u64 v) { return static_cast<R>(v); } static u64 see(R v) { return static_cast<u64>(v); } };
template <class R> struct Give<R&> {
  static inline R store;
  static R& give(u64 v) { store = static_cast<R>(v); return store; }
  static u64 see(R& v) { return &v == &store ? static_cast<u64>(v) : kDead; }
};
template <> struct Give<std::unique_ptr<u64>> {
  static std::unique_ptr<u64> give(u64 v) { Unobserve u; return std::unique_ptr<u64>(new u64(v)); }
  static u64 see(std::unique_ptr<u64> p) { return p ? *p : kDead; }
};
template <class A> struct ArgOf { static A make(u64 v) { return static_cast<A>(v); } static u64 see(A const& a) { return static_cast<u64>(a); } };
template <> struct ArgOf<Arg> { static Arg make(u64 v) { return Arg{v}; } static u64 see(Arg const& a) { return a.v; } };
template <> struct ArgOf<std::unique_ptr<u64>> {
  static std::unique_ptr<u64> make(u64 v) { return std::unique_ptr<u64>(new u64(v)); }
  static u64 see(std::unique_ptr<u64> const& p) { return p ? *p : 0; }
};
template <class R> struct Reply { // a target for every signature
  u64 id;
  template <class... A> R operator()(A&&... a) const {
    call_point();
    u64 h = id;
    using T = int[];
    (void)T{0, (h = sim::mix(h, ArgOf<typename std::decay<A>::type>::see(a)), 0)...};
    if constexpr (!std::is_void<R>::value) return Give<R>::give(h);
  }
};
template <class R, class... A> struct Shape {
  template <class F, size_t... I> static u64 call(F& f, std::tuple<typename std::decay<A>::type...>& args, std::index_sequence<I...>) {
    Observe o;
    if constexpr (std::is_void<R>::value) { f(std::forward<A>(std::get<I>(args))...); return 0; }
    else {
      R r = f(std::forward<A>(std::get<I>(args))...);
      Unobserve u;
      return Give<R>::see(std::forward<R>(r));
    }
  }
  template <class F, class X> static void with(const char* name) {
    F f[2];
    bool has[2] = {false, false};
    u64 id[2] = {0, 0};
    u64 next = 1;
    uint32_t ops = range(2, 14);
    for (uint32_t k = 0; k < ops; ++k) {
      sim::Span sp;
      uint32_t i = draw(2), op = draw(6);
      ev(500 + op, i, has[i]);
      STAT("ops");
      if (op == 0) {
        id[i] = next++;
        has[i] = true;
        { Observe o; f[i] = Reply<R>{id[i]}; }
        TRACE("%s: wrapper %u gets target %llu", name, i, (unsigned long long)id[i]);
      } else if (op == 1) {
        TRACE("%s: wrapper %u = move(wrapper %u)", name, i, 1 - i);
        { Observe o; f[i] = std::move(f[1 - i]); }
        has[i] = has[1 - i];
        id[i] = id[1 - i];
        has[1 - i] = false;
      } else {
        bool inject = has[i] && draw(2);
        u64 x = draw(1000);
        std::tuple<typename std::decay<A>::type...> args{ArgOf<typename std::decay<A>::type>::make(x)...}, before{ArgOf<typename std::decay<A>::type>::make(x)...};
        g_thrown = false;
        g_throw_token = 0xca11 + draw(1000);
        g_throw_call = inject ? 1 : 0;
        TRACE("%s: call wrapper %u (%s)%s", name, i, has[i] ? "with a target" : "empty", inject ? " [the target throws]" : "");
        bool empty = false, fault = false;
        u64 got = 0;
        X& w = f[i];
        try { got = call(w, args, std::index_sequence_for<A...>()); }
        catch (Fault const& e) { fault = true; CHECK(g_thrown && e.token == g_throw_token, "wrong-exception", "another exception than the target's came out of the call"); }
        catch (std::bad_function_call const&) { empty = true; }
        catch (...) { sim::violate("wrong-exception", "unexpected exception out of a call with signature %s", name); }
        g_throw_call = 0;
        if (!has[i]) STAT("fault.empty_call");
        CHECK(empty == !has[i], "empty-call", "calling a wrapper with signature %s %s bad_function_call, it %s a target", name, empty ? "threw" : "did not throw", has[i] ? "holds" : "does not hold");
        CHECK(fault == inject && g_thrown == inject, "swallowed", "the target's exception did not arrive (signature %s)", name);
        if (!empty && !fault && !std::is_void<R>::value) {
          u64 h = id[i];
          using T = int[];
          std::apply([&](auto&... a) { (void)T{0, (h = sim::mix(h, ArgOf<typename std::decay<decltype(a)>::type>::see(a)), 0)...}; }, before);
          CHECK(got == h || is_narrow(got, h), "result", "a call with signature %s returned something else than its target", name);
        }
        bool const by_value = any_by_value();
        if (empty && !by_value) {
          bool same = true;
          untouched(args, before, same, std::index_sequence_for<A...>());
          CHECK(same, "arguments", "calling an empty wrapper (signature %s) changed the arguments", name);
        }
      }
      for (int q = 0; q < 2; ++q) {
        bool b;
        { Observe o; b = static_cast<bool>(f[q]); }
        CHECK(b == has[q], "emptiness", "signature %s: wrapper %d converts to %d", name, q, b);
      }
    }
  }
  static bool is_narrow(u64 got, u64 h) {
    if constexpr (std::is_integral<R>::value) return got == static_cast<u64>(static_cast<R>(h)); else return false;
  }
  static constexpr bool any_by_value() {
    bool r = false;
    using T = bool[];
    (void)T{false, (r = r || !std::is_reference<A>::value)...};
    return r;
  }
  template <size_t... I> static void untouched(std::tuple<typename std::decay<A>::type...> const& a, std::tuple<typename std::decay<A>::type...> const& b, bool& same, std::index_sequence<I...>) {
    using T = int[];
    (void)T{0, (same = same && ArgOf<typename std::decay<A>::type>::see(std::get<I>(a)) == ArgOf<typename std::decay<A>::type>::see(std::get<I>(b)), 0)...};
  }
  static void run(const char* name) {
    if (draw(2)) with<function<R(A...)>, function<R(A...)>>(name);
    else with<function<R(A...) const>, function<R(A...) const> const>(name);
  }
};
[[maybe_unused]] void shapes() {
  using P = std::unique_ptr<u64>;
  switch (draw(10)) {
  case 0: Shape<void>::run("void()"); break;
  case 1: Shape<u64>::run("u64()"); break;
  case 2: Shape<u64, u64, u64>::run("u64(u64, u64)"); break;
  case 3: Shape<void, Arg&>::run("void(Arg&)"); break;
  case 4: Shape<u64&, int>::run("u64&(int)"); break;
  case 5: Shape<P, P>::run("unique_ptr(unique_ptr)"); break;
  case 6: Shape<u64, Arg&&, Arg const&>::run("u64(Arg&&, Arg const&)"); break;
  case 7: Shape<uint8_t, uint8_t, u64, uint16_t, u64, uint32_t, u64>::run("u8(u8, u64, u16, u64, u32, u64)"); break;
  case 8: Shape<bool, P&&>::run("bool(unique_ptr&&)"); break;
  default: Shape<u64, u64, Arg, P, int>::run("u64(u64, Arg, unique_ptr, int)"); break;
  }
}
template <class F> struct F03 {
  static void run() {
    run_reset();
    if (coin(6)) { shapes(); return; }
    FailWorld<F> w;
    w.scripts = true;
    w.setup();
    Life::strict = true;
    FailWorld<F>::cur = &w;
    g_script = &FailWorld<F>::script;
    uint32_t n = steps_drawn();
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      w.step(i);
      w.check_all();
      // no target lost or duplicated by the failure
      size_t want = 0;
      for (int k = 0; k < W; ++k)
        if (w.f[k] && w.m[k]) { Kind q = w.m[k]->kind; want += q == SMALL || q == COUNTER || q == MOVEONLY || q == COPYABLE || q == ALIGNED || q == FULL || q == NESTED || q == LISTED || q == SCRIPT; }
      CHECK(Life::live.size() == want, "lifetime", "%zu targets alive, %zu held by wrappers", Life::live.size(), want);
    }
    w.teardown();
    CHECK(Life::live.empty(), "lifetime", "%zu targets alive after all wrappers are gone", Life::live.size());
  }
};
#endif

#if PROP(F04)
// Tasks share const wrappers; each also works on wrappers of its own.
template <class F> struct F04 {
  using Tr = Traits<F>;
  using NC = function<u64(u64), Tr::cap, Tr::al>; // same storage, mutable signature
  struct Watch { uintptr_t lo, hi; };
  static inline std::vector<Watch> shared;
  static void on(sim::MemEvent const& e) {
    if (e.write)
      for (auto const& s : shared)
        if (e.addr < s.hi && e.addr + e.size > s.lo)
          sim::violate("written", "calling a const wrapper stored %zu bytes at offset %llu of the wrapper", e.size, (unsigned long long)(e.addr - s.lo));
    sim::preempt_point();
  }
  static u64 call(F const& c, u64 x) { Observe o; return c(x); }
  static void run() {
    run_reset();
    World<F> w;
    World<NC> own; // tasks' own wrappers: task t owns own.f[t]
    w.setup();
    own.setup();
    shared.clear();
    int ns = static_cast<int>(range(1, W));
    for (int k = 0; k < ns; ++k) {
      Model t = w.draw_target();
      while (t->kind == COPYABLE || t->kind == REFWRAP) t = w.draw_target(); // these count by themselves
      w.with_target(t->kind, *t, false, [&](auto&& x) { w.f[k] = new (w.z[k].p) F(std::forward<decltype(x)>(x)); });
      w.m[k] = std::move(t);
      uintptr_t lo = reinterpret_cast<uintptr_t>(w.f[k]);
      shared.push_back({lo, lo + sizeof(F)});
    }
    std::vector<unsigned char> img;
    for (int k = 0; k < ns; ++k) img.insert(img.end(), w.z[k].p, w.z[k].p + sizeof(F));
    uint32_t gaps[] = {3, 10, 40, 0};
    sim::set_preempt_max_gap(gaps[draw(4)]);
    sim::watch(9, nullptr, ~size_t(0) / 2);
    sim::set_observer(on);
    int nt = static_cast<int>(range(2, 4));
    for (int t = 0; t < nt; ++t) {
      uint32_t ops = range(2, 14);
      sim::spawn([&w, &own, t, ns, ops] {
        Model mine;
        NC local;
        u64 idb = 10000u * static_cast<u64>(t + 1);
        for (uint32_t i = 0; i < ops; ++i) {
          sim::Span s;
          uint32_t op = draw(6);
          u64 x = draw(1000);
          STAT("ops");
          if (op <= 2) {
            int k = static_cast<int>(draw(static_cast<uint32_t>(ns)));
            u64 got = call(*w.f[k], x);
            MT copy = *w.m[k];
            u64 want = w.expect(copy, x);
            TRACE("task %d called shared wrapper %d (%s)", t, k, kind_name[w.m[k]->kind]);
            ev(got);
            CHECK(got == want, "result", "task %d calling shared wrapper %d (%s) got a result of something else", t, k, kind_name[w.m[k]->kind]);
          } else if (op == 3) { // replace its own target
            u64 id = idb + i;
            { Observe o; local = [id, n = u64(0)](u64 y) mutable { return respond(id, n++, y); }; }
            mine.reset(new MT{LAMBDA, id, 0, nullptr});
            TRACE("task %d replaces its own target", t);
          } else if (op == 4) {
            if (!mine) continue;
            u64 got;
            { Observe o; got = local(x); }
            u64 want = respond(mine->id, mine->n++, x);
            TRACE("task %d calls its own wrapper", t);
            CHECK(got == want, "result", "task %d calling its own wrapper got a result of something else", t);
          } else {
            { Observe o; NC tmp(std::move(local)); local = std::move(tmp); if (x & 1) local = nullptr; }
            if (x & 1) mine.reset();
            bool b;
            { Observe o; b = static_cast<bool>(local); }
            TRACE("task %d moves its own wrapper", t);
            CHECK(b == (mine != nullptr), "emptiness", "task %d: its own wrapper converts to %d", t, b);
          }
          if (draw(3) == 0) sim::yield();
        }
        Observe o;
        local = nullptr;
      }, "caller");
    }
    sim::run_tasks(200000);
    ev(sim::sched_hash());
    sim::unwatch_all();
    std::vector<unsigned char> img2;
    for (int k = 0; k < ns; ++k) img2.insert(img2.end(), w.z[k].p, w.z[k].p + sizeof(F));
    CHECK(img == img2, "written", "the shared wrappers changed while being called");
    // wrappers are still intact
    for (int k = 0; k < ns; ++k) w.do_call(k);
    w.teardown();
  }
};
#endif

template <class F, size_t C, size_t A, bool K> struct Sel;
template <size_t C, size_t A> using N = function<u64(u64), C, A>;
template <size_t C, size_t A> using K = function<u64(u64) const, C, A>;

template <template <class> class X, bool ConstOnly> bool enter_part() {
#if PART == 0
  if constexpr (!ConstOnly) fnh::g_type_run[0] = &X<function<u64(u64)>>::run;
  fnh::g_type_run[1] = &X<function<u64(u64) const>>::run;
#elif PART == 1
  if constexpr (!ConstOnly) fnh::g_type_run[2] = &X<N<64, 16>>::run;
  if constexpr (!ConstOnly) fnh::g_type_run[3] = &X<N<8, 8>>::run;
  fnh::g_type_run[4] = &X<K<32, 16>>::run;
#elif PART == 2
  if constexpr (!ConstOnly) fnh::g_type_run[5] = &X<N<96, 32>>::run;
  fnh::g_type_run[6] = &X<K<128, 64>>::run;
  if constexpr (!ConstOnly) fnh::g_type_run[7] = &X<N<1, 1>>::run;
#else
  if constexpr (!ConstOnly) fnh::g_type_run[8] = &X<N<100, 4>>::run;
  fnh::g_type_run[9] = &X<K<25, 8>>::run;
  if constexpr (!ConstOnly) fnh::g_type_run[10] = &X<N<300, 8>>::run;
#endif
  return true;
}
[[maybe_unused]] void any_type() {
  fnh::Run ok[16];
  uint32_t n = 0;
  for (auto f : fnh::g_type_run)
    if (f) ok[n++] = f;
  ok[draw(n)]();
}
#if PROP(F01)
bool const entered = enter_part<F01, false>();
#elif PROP(F02)
bool const entered = enter_part<F02, false>();
#elif PROP(F03)
bool const entered = enter_part<F03, false>();
#elif PROP(F04)
bool const entered = enter_part<F04, true>();
#endif
} // namespace

#ifdef ONLY_A01
#if PART == 0
namespace { bool const component = h::add_component("function wrapper", any_type); }
#endif
#elif PART == 0
namespace sim {
const Harness harnesses[] = {
#if PROP(F01)
    {"F01", any_type, "target fidelity"},
#elif PROP(F02)
    {"F02", any_type, "target lifetime"},
#elif PROP(F03)
    {"F03", any_type, "failing calls"},
#elif PROP(F04)
    {"F04", any_type, "const calls shared between tasks"},
#endif
};
const size_t n_harnesses = sizeof harnesses / sizeof harnesses[0];
} // namespace sim
#endif
