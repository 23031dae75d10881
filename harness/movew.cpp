// Moving wrappers under simulation: W01 (ownership along chains of copies),
// W02 (transfers that fail).
#include "common.h"

#include <embedded/function.h>
#include <embedded/move_wrapper.h>

#include <functional>

namespace {
using namespace h;
using embedded::move_wrapper;
using u64 = uint64_t;

// ------------------------------------------------------------ wrapped objects
// Every object carries a token; tokens are never duplicated by the harness.
inline u64 g_assign = 0, g_copied = 0;
struct Token { // move-only, noexcept
  u64 v;
  explicit Token(u64 x) : v(x) { Life::born(this); }
  Token(Token&& o) noexcept : v(o.v) { Life::used(&o); o.v = 0; Life::born(this); }
  Token& operator=(Token&& o) noexcept { ++g_assign; std::swap(v, o.v); return *this; }
  ~Token() { Life::died(this); v = 0xdddd; }
  u64 get() const { return v; }
  void set(u64 x) { v = x; }
};
struct Copyable { // can be copied, but a wrapper must not
  u64 v;
  explicit Copyable(u64 x) : v(x) { Life::born(this); }
  Copyable(Copyable const& o) : v(o.v) { ++g_copied; Life::born(this); }
  Copyable(Copyable&& o) noexcept : v(o.v) { Life::used(&o); o.v = 0; Life::born(this); }
  Copyable& operator=(Copyable const& o) { ++g_copied; v = o.v; return *this; }
  Copyable& operator=(Copyable&& o) noexcept { ++g_assign; v = o.v; o.v = 0; return *this; }
  ~Copyable() { Life::died(this); v = 0xdddd; }
  u64 get() const { return v; }
  void set(u64 x) { v = x; }
};
struct MayMove { // moving does not fail, but does not promise so; can be copied, but must not
  u64 v;
  explicit MayMove(u64 x) : v(x) { Life::born(this); }
  MayMove(MayMove const& o) noexcept : v(o.v) { ++g_copied; Life::born(this); }
  MayMove(MayMove&& o) noexcept(false) : v(o.v) { Life::used(&o); o.v = 0; Life::born(this); }
  MayMove& operator=(MayMove const& o) noexcept { ++g_copied; v = o.v; return *this; }
  MayMove& operator=(MayMove&& o) noexcept(false) { ++g_assign; v = o.v; o.v = 0; return *this; }
  ~MayMove() { Life::died(this); v = 0xdddd; }
  u64 get() const { return v; }
  void set(u64 x) { v = x; }
};
struct alignas(64) Aligned { // over-aligned, knows its own address
  u64 v;
  Aligned* self;
  unsigned char pad[70];
  explicit Aligned(u64 x) : v(x), self(this) { memset(pad, static_cast<int>(x), sizeof pad); Life::born(this); }
  Aligned(Aligned&& o) noexcept : v(o.v), self(this) {
    Life::used(&o);
    memcpy(pad, o.pad, sizeof pad);
    if (o.self != &o) v = 0xbad;
    o.v = 0;
    Life::born(this);
  }
  ~Aligned() { Life::died(this); v = 0xdddd; self = nullptr; }
  u64 get() const {
    if (self != this || reinterpret_cast<uintptr_t>(this) % 64) return 0xbad;
    for (unsigned char c : pad) if (v && c != pad[0]) return 0xbad1;
    return v;
  }
  void set(u64 x) { v = x; memset(pad, static_cast<int>(x), sizeof pad); }
};
struct Unique { // a standard handle
  std::unique_ptr<u64> p;
  explicit Unique(u64 x) { Unobserve u; p.reset(new u64(x)); Life::born(this); }
  Unique(Unique&& o) noexcept : p(std::move(o.p)) { Life::used(&o); Life::born(this); }
  ~Unique() { Life::died(this); }
  u64 get() const { return p ? *p : 0; }
  void set(u64 x) { if (p) *p = x; }
};
struct FromAny { template <class T> FromAny(T&&) {} };
struct Listed { // T{x} is a list with x in it, not a move of x; and &x is not its address
  u64 v;
  explicit Listed(u64 x) : v(x) { Life::born(this); }
  Listed(std::initializer_list<FromAny>) : v(0xbad) { Life::born(this); }
  Listed(Listed&& o) noexcept : v(o.v) { Life::used(std::addressof(o)); o.v = 0; Life::born(this); }
  ~Listed() { Life::died(this); v = 0xdddd; }
  Listed* operator&() { return nullptr; }
  Listed const* operator&() const { return nullptr; }
  u64 get() const { return v; }
  void set(u64 x) { v = x; }
};
struct Fn { // the library's own function wrapper as the wrapped object
  embedded::function<u64()> f;
  explicit Fn(u64 x) : f([x] { return x; }) { Life::born(this); }
  Fn(Fn&& o) noexcept : f(std::move(o.f)) { Life::used(&o); Life::born(this); }
  ~Fn() { Life::died(this); }
  u64 get() const { return f ? const_cast<Fn*>(this)->f() : 0; }
  void set(u64 x) { if (f) f = [x] { return x; }; }
};
// Moving may throw (before anything is changed)
template <bool NothrowDefault> struct Throwing {
  u64 v = 0;
  Throwing() noexcept(NothrowDefault) { Life::born(this); }
  explicit Throwing(u64 x) : v(x) { Life::born(this); }
  Throwing(Throwing&& o) noexcept(false) : v(o.v) { maybe_throw(); Life::used(&o); o.v = 0; Life::born(this); }
  // everything else cannot fail
  Throwing& operator=(Throwing&& o) noexcept { ++g_assign; std::swap(v, o.v); return *this; }
  ~Throwing() { Life::died(this); v = 0xdddd; }
  u64 get() const { return v; }
  void set(u64 x) { v = x; }
};
struct ThrowingCopyable {
  u64 v = 0;
  explicit ThrowingCopyable(u64 x) : v(x) { Life::born(this); }
  ThrowingCopyable(ThrowingCopyable const& o) noexcept : v(o.v) { ++g_copied; Life::born(this); }
  ThrowingCopyable(ThrowingCopyable&& o) : v(o.v) { maybe_throw(); Life::used(&o); o.v = 0; Life::born(this); }
  ThrowingCopyable& operator=(ThrowingCopyable const& o) noexcept { ++g_copied; v = o.v; return *this; }
  ThrowingCopyable& operator=(ThrowingCopyable&& o) noexcept { ++g_assign; std::swap(v, o.v); return *this; }
  ~ThrowingCopyable() { Life::died(this); v = 0xdddd; }
  u64 get() const { return v; }
  void set(u64 x) { v = x; }
};
struct Handle : Throwing<true> { // a throwing base, then a plain member moved after it
  u64 twin;
  explicit Handle(u64 x) : Throwing<true>(x), twin(x) {}
  Handle(Handle&& o) noexcept(false) : Throwing<true>(std::move(o)), twin(o.twin) { o.twin = 0; }
  u64 get() const { return v == twin ? v : 0xbad; }
  void set(u64 x) { v = twin = x; }
};

// Slots hold objects (plain or wrapped); the model says which token is where.
template <class T> struct World {
  using W = move_wrapper<T>;
  static constexpr int N = 6;
  Zone zo[N], zw[N];
  T* obj[N] = {};
  W* wr[N] = {};
  u64 mo[N] = {}, mw[N] = {}; // model: tokens (0: moved away)
  u64 next = 1;
  void setup() {
    for (int i = 0; i < N; ++i) {
      zo[i] = zone(sizeof(T), alignof(T), 64);
      zw[i] = zone(sizeof(W), alignof(W), 64);
    }
    Life::strict = true;
    g_assign = g_copied = 0;
  }
  static u64 get(T const& t) { Unobserve u; return t.get(); }
  // the wrapper's object as seen through every operator
  u64 look(int i) {
    W& w = *wr[i];
    W const& c = w;
    T *a, *b;
    T const *x, *y;
    { Observe o; a = std::addressof(*w); b = w.operator->(); x = std::addressof(*c); y = c.operator->(); }
    CHECK(a == b && x == y && a == x, "access", "the operators of wrapper %d reach different objects", i);
    auto p = reinterpret_cast<unsigned char*>(a);
    CHECK(p >= zw[i].p && p + sizeof(T) <= zw[i].p + sizeof(W), "access", "the object reached through wrapper %d lies outside the wrapper", i);
    CHECK(Life::alive(a), "access", "wrapper %d gives access to something that is not an object", i);
    u64 v;
    switch (draw(4)) {
    case 0: { Observe o; v = (*w).get(); break; }
    case 1: { Observe o; v = w->get(); break; }
    case 2: { Observe o; v = (*c).get(); break; }
    default: { Observe o; v = c->get(); break; }
    }
    return v;
  }
  void verify(const char* op) {
    for (int i = 0; i < N; ++i) {
      if (obj[i]) { u64 v = get(*obj[i]); CHECK(v == mo[i], "object", "after %s: object %d holds token %llu instead of %llu", op, i, (unsigned long long)v, (unsigned long long)mo[i]); }
      if (wr[i]) { u64 v = look(i); CHECK(v == mw[i], "object", "after %s: wrapper %d holds token %llu instead of %llu", op, i, (unsigned long long)v, (unsigned long long)mw[i]); }
      CHECK(zo[i].redzones_ok() && zw[i].redzones_ok(), "outside", "after %s: memory beside wrapper %d was written", op, i);
    }
    CHECK(g_copied == 0, "copied", "after %s: the wrapped object was copied", op);
  }
  size_t expected_alive() const {
    size_t n = 0;
    for (int i = 0; i < N; ++i) n += (obj[i] != nullptr) + (wr[i] != nullptr);
    return n;
  }
  void verify_alive(const char* op) {
    CHECK(Life::live.size() == expected_alive(), "leak", "after %s: %zu objects are alive instead of %zu", op, Life::live.size(), expected_alive());
  }
  int pick(bool want_wr) {
    int k[N], n = 0;
    for (int i = 0; i < N; ++i)
      if ((wr[i] != nullptr) == want_wr) k[n++] = i;
    return n ? k[draw(static_cast<uint32_t>(n))] : -1;
  }
  int pick_obj(bool want) {
    int k[N], n = 0;
    for (int i = 0; i < N; ++i)
      if ((obj[i] != nullptr) == want) k[n++] = i;
    return n ? k[draw(static_cast<uint32_t>(n))] : -1;
  }
  void drop(int i) {
    { Observe o; wr[i]->~W(); }
    wr[i] = nullptr;
    mw[i] = 0;
    memset(zw[i].p, 0xEE, zw[i].n);
  }
  void drop_obj(int i) {
    obj[i]->~T();
    obj[i] = nullptr;
    mo[i] = 0;
  }
  void teardown() {
    g_throw_in = 0;
    for (int i = 0; i < N; ++i) {
      if (wr[i]) drop(i);
      if (obj[i]) drop_obj(i);
    }
    CHECK(Life::live.empty(), "leak", "%zu objects are still alive after every wrapper is gone", Life::live.size());
  }
};
enum Form { COPY_CONST, COPY_MUT, MOVE, NFORMS };
const char* const form_name[] = {"copying a const wrapper", "copying a wrapper", "moving a wrapper"};

// One transfer that may fail; returns true if done.
template <class T, class W> bool transfer(W*& dst, void* mem, W& src, uint32_t form) {
  Observe o;
  switch (form) {
  case COPY_CONST: { W const& c = src; dst = new (mem) W(c); break; }
  case COPY_MUT: dst = new (mem) W(src); break;
  default: dst = new (mem) W(std::move(src)); break;
  }
  return true;
}

#if PROP(W01)
template <class T> struct W01 {
  using Wo = World<T>;
  using W = move_wrapper<T>;
  // callbacks that copy their captures on the way to the executor
  static void callbacks(Wo& w, int i) {
    struct Executor {
      std::vector<std::function<u64()>> q;
    } ex;
    u64 const tok = w.mw[i];
    STAT("probe.callback_chain");
    {
      Observe o;
      auto cb = [m = *w.wr[i]] { return m->get(); }; // copy-capture: the object now lives in the closure
      Unobserve u;
      std::function<u64()> f;
      f = cb; // copied into the queue's wrapper
      u64 mid = cb();
      CHECK(mid == 0, "duplicated", "a closure still has the object after it was copied into a callback");
      uint32_t hops = draw(5);
      for (uint32_t h = 0; h < hops; ++h) {
        std::function<u64()> g;
        g = f;
        u64 old = f(), now = g();
        TRACE("  hop %u: %llu -> %llu", h, (unsigned long long)old, (unsigned long long)now);
        CHECK(now == tok, "lost", "a copied callback does not have the object");
        CHECK(old == 0, "duplicated", "the original callback still has the object");
        f = std::move(g);
      }
      ex.q.push_back(std::move(f));
    }
    uint32_t n = range(1, 3);
    for (uint32_t k = 0; k < n; ++k) {
      u64 v = ex.q[0]();
      ev(v);
      CHECK(v == tok, "lost", "the queued callback does not have the object");
    }
    w.mw[i] = 0; // the object went with the callback and died with it
  }
  static void in_library_function(Wo& w, int i) {
    u64 const tok = w.mw[i];
    if constexpr (std::is_nothrow_move_constructible<T>::value) { // all it accepts
    STAT("probe.library_function");
    embedded::function<u64(), 256, 64> f;
    { Observe o; f = [m = *w.wr[i]] { return m->get(); }; }
    embedded::function<u64(), 256, 64> g;
    { Observe o; g = std::move(f); }
    u64 v;
    { Observe o; v = g(); }
    CHECK(v == tok, "lost", "a callback moved between function wrappers does not have the object");
    w.mw[i] = 0;
    } else
      (void)tok;
  }
  static void grow(Wo& w) { // containers that copy or move their elements when they grow
    STAT("probe.container_growth");
    std::vector<W> v;
    std::vector<u64> want;
    uint32_t n = range(1, 7);
    for (uint32_t i = 0; i < n; ++i) {
      T t(w.next);
      want.push_back(w.next++);
      W x(std::move(t));
      if (i & 1) v.push_back(x); else v.push_back(std::move(x));
    }
    std::vector<W> v2;
    v2 = std::vector<W>(v); // copying the container takes everything
    for (uint32_t i = 0; i < n; ++i) {
      u64 a = v[i]->get(), b = v2[i]->get();
      CHECK(b == want[i], "lost", "element %u of the copied container does not have its object", i);
      CHECK(a == 0, "duplicated", "element %u of the original container still has its object", i);
    }
  }
  static void run() {
    run_reset();
    Wo w;
    w.setup();
    uint32_t ops = range(1, 60);
    for (uint32_t k = 0; k < ops; ++k) {
      sim::Span sp;
      STAT("ops");
      const char* name = "";
      switch (draw(10)) {
      case 0: { // a new object
        int i = w.pick_obj(false);
        if (i < 0) continue;
        name = "creating an object";
        w.mo[i] = w.next++;
        w.obj[i] = new (w.zo[i].p) T(w.mo[i]);
        break;
      }
      case 1:
      case 2: { // wrap an object
        int i = w.pick_obj(true), j = w.pick(false);
        if (i < 0 || j < 0) continue;
        name = "wrapping an object";
        { Observe o; w.wr[j] = new (w.zw[j].p) W(std::move(*w.obj[i])); }
        w.mw[j] = w.mo[i];
        w.mo[i] = 0;
        break;
      }
      case 3:
      case 4:
      case 5: { // transfer between wrappers
        int i = w.pick(true), j = w.pick(false);
        if (i < 0 || j < 0) continue;
        uint32_t f = draw(NFORMS);
        name = form_name[f];
        transfer<T, W>(w.wr[j], w.zw[j].p, *w.wr[i], f);
        w.mw[j] = w.mw[i];
        w.mw[i] = 0;
        break;
      }
      case 6: { // change the object through the wrapper
        int i = w.pick(true);
        if (i < 0 || w.mw[i] == 0) continue;
        name = "changing the object through its wrapper";
        u64 v = w.next++;
        if (draw(2)) (*w.wr[i])->set(v); else (**w.wr[i]).set(v);
        w.mw[i] = v;
        break;
      }
      case 7: { // take the object out again
        int i = w.pick(true), j = w.pick_obj(false);
        if (i < 0 || j < 0) continue;
        name = "moving the object out of its wrapper";
        w.obj[j] = new (w.zo[j].p) T(std::move(**w.wr[i]));
        w.mo[j] = w.mw[i];
        w.mw[i] = 0;
        break;
      }
      case 8: {
        int i = w.pick(true);
        if (i < 0) continue;
        if (draw(2)) { name = "destroying a wrapper"; w.drop(i); }
        else { int j = w.pick_obj(true); if (j < 0) continue; name = "destroying an object"; w.drop_obj(j); }
        break;
      }
      default: {
        int i = w.pick(true);
        switch (draw(3)) {
        case 0: if (i < 0) continue; name = "passing a wrapper through callbacks"; callbacks(w, i); break;
        case 1: if (i < 0) continue; name = "passing a wrapper through function wrappers"; in_library_function(w, i); break;
        default: name = "growing a container of wrappers"; grow(w); break;
        }
      }
      }
      TRACE("%s", name);
      for (int i = 0; i < Wo::N; ++i) ev(w.mw[i]);
      u64 h = 0;
      for (int i = 0; i < Wo::N; ++i) h = h * 9 + (w.wr[i] ? 1 + (w.mw[i] != 0) : 0) * 3 + (w.obj[i] ? 1 + (w.mo[i] != 0) : 0);
      sim::cover_state(h);
      w.verify(name);
      w.verify_alive(name);
    }
    w.teardown();
  }
};
void run_w01() {
  switch (draw(7)) {
  case 0: W01<Token>::run(); break;
  case 5: W01<MayMove>::run(); break;
  case 4: W01<Listed>::run(); break;
  case 1: W01<Copyable>::run(); break;
  case 2: W01<Aligned>::run(); break;
  case 3: W01<Unique>::run(); break;
  default: W01<Fn>::run(); break;
  }
}
#endif

#if PROP(W02)
template <class T> struct W02 {
  using Wo = World<T>;
  using W = move_wrapper<T>;
  // does fn; true if it went through, false if the planned exception arrived
  template <class Fn> static bool attempt(Fn fn) {
    bool const planned = draw(2) == 0;
    g_throw_token = 0xfa11 + draw(1000);
    g_throw_in = planned ? range(1, 2) : 0;
    g_thrown = false;
    bool done = false;
    try {
      fn();
      done = true;
    } catch (Fault const& f) {
      sim::observing_set(false);
      CHECK(g_thrown && f.token == g_throw_token, "exception", "a failed move arrived as another exception");
    } catch (...) {
      sim::observing_set(false);
      sim::violate("exception", "a failed move arrived as an exception of another type");
    }
    sim::observing_set(false);
    g_throw_in = 0;
    CHECK(done != g_thrown, "exception", "moving the object threw, but no exception reached the caller");
    ev(done);
    return done;
  }
  static void run() {
    run_reset();
    Wo w;
    w.setup();
    uint32_t ops = range(1, 60);
    for (uint32_t k = 0; k < ops; ++k) {
      sim::Span sp;
      STAT("ops");
      const char* name = "";
      switch (draw(8)) {
      case 0: {
        int i = w.pick_obj(false);
        if (i < 0) continue;
        name = "creating an object";
        w.mo[i] = w.next++;
        w.obj[i] = new (w.zo[i].p) T(w.mo[i]);
        break;
      }
      case 1:
      case 2: {
        int i = w.pick_obj(true), j = w.pick(false);
        if (i < 0 || j < 0) continue;
        name = "wrapping an object";
        if (attempt([&] { Observe o; w.wr[j] = new (w.zw[j].p) W(std::move(*w.obj[i])); })) {
          w.mw[j] = w.mo[i];
          w.mo[i] = 0;
        } else w.wr[j] = nullptr;
        break;
      }
      case 3:
      case 4:
      case 5: {
        int i = w.pick(true), j = w.pick(false);
        if (i < 0 || j < 0) continue;
        uint32_t f = draw(NFORMS);
        name = form_name[f];
        if (attempt([&] { transfer<T, W>(w.wr[j], w.zw[j].p, *w.wr[i], f); })) {
          w.mw[j] = w.mw[i];
          w.mw[i] = 0;
        } else w.wr[j] = nullptr;
        break;
      }
      case 6: { // as a closure that is copied
        int i = w.pick(true);
        if (i < 0) continue;
        name = "copying a wrapper into a closure";
        bool ok = attempt([&] {
          Observe o;
          auto cb = [m = *w.wr[i]] { return m->get(); };
          Unobserve u;
          g_throw_in = 0;
          u64 v = cb();
          CHECK(v == w.mw[i], "lost", "the closure does not have the object");
        });
        if (ok) w.mw[i] = 0;
        break;
      }
      default: {
        int i = w.pick(true);
        if (i < 0) continue;
        if (draw(2)) { name = "destroying a wrapper"; w.drop(i); }
        else { int j = w.pick_obj(true); if (j < 0) continue; name = "destroying an object"; w.drop_obj(j); }
        break;
      }
      }
      TRACE("%s%s", name, g_thrown ? " (failed)" : "");
      u64 h = g_thrown;
      for (int i = 0; i < Wo::N; ++i) { ev(w.mw[i]); h = h * 9 + (w.wr[i] ? 1 + (w.mw[i] != 0) : 0) * 3 + (w.obj[i] ? 1 + (w.mo[i] != 0) : 0); }
      sim::cover_state(h);
      w.verify(name);
      w.verify_alive(name);
      g_thrown = false;
    }
    w.teardown();
  }
};
void run_w02() {
  switch (draw(4)) {
  case 0: W02<Throwing<true>>::run(); break;
  case 1: W02<Throwing<false>>::run(); break;
  case 2: W02<Handle>::run(); break;
  default: W02<ThrowingCopyable>::run(); break;
  }
}
#endif
} // namespace

#ifdef ONLY_A01
namespace { bool const component = h::add_component("move wrapper", run_w01); }
#else
namespace sim {
const Harness harnesses[] = {
#if PROP(W01)
    {"W01", run_w01, "ownership transfer"},
#elif PROP(W02)
    {"W02", run_w02, "failing transfer"},
#endif
};
const size_t n_harnesses = sizeof harnesses / sizeof harnesses[0];
} // namespace sim
#endif
