// B01: one program, many build configurations.  The program is plain C++11
// and judges nothing itself: it executes the drawn history and records every
// observable result; check.py compares the recordings of the builds run by
// run.  Not instrumented, so that the builds are the ones users make.
#include "embedded/circular_buffer_adapter.h"
#include "embedded/function.h"
#include "embedded/move_wrapper.h"
#include "embedded/mutex.h"
#include "embedded/typelist.h"
#include "embedded/varint.h"
#ifndef B01_NO_SIGNAL
#include "embedded/signal/bessel.h"
#include "embedded/signal/butterworth.h"
#include "embedded/signal/chebyshev.h"
#include "embedded/signal/filter.h"
#endif

#include "../sim/sim.h"

#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>

namespace {
using sim::draw;
using sim::ev;
typedef uint64_t u64;

uint32_t pick(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }

// ------------------------------------------------------------- ring buffer
struct Triv3 { unsigned char b[3]; };
struct Obj { // non-trivial: registers itself
  static int live;
  static u64 sum;
  u64 v;
  explicit Obj(u64 x) : v(x) { ++live; sum += v; }
  Obj(Obj const& o) : v(o.v) { ++live; sum += v; }
  Obj(Obj&& o) : v(o.v) { ++live; sum += v; sum -= o.v; o.v = 0; }
  Obj& operator=(Obj const& o) { sum += o.v - v; v = o.v; return *this; }
  ~Obj() { --live; sum -= v; }
};
int Obj::live = 0;
u64 Obj::sum = 0;
template <class T> struct El {
  static T make(u64 v) { return static_cast<T>(v); }
  static u64 get(T const& t) { return static_cast<u64>(t); }
};
template <> struct El<Triv3> {
  static Triv3 make(u64 v) {
    Triv3 t;
    for (int i = 0; i < 3; ++i) t.b[i] = static_cast<unsigned char>(v >> (8 * i));
    return t;
  }
  static u64 get(Triv3 const& t) { return t.b[0] | t.b[1] << 8 | static_cast<u64>(t.b[2]) << 16; }
};
template <> struct El<Obj> {
  static Obj make(u64 v) { return Obj(v); }
  static u64 get(Obj const& o) { return o.v; }
};

alignas(64) unsigned char g_mem[8192];

template <class T, bool Trivial> struct Bulk {
  template <class A> static void go(A&, u64*, u64&) {}
};
template <class T> struct Bulk<T, true> {
  template <class A> static void go(A& a, u64* seed, u64&) {
    T buf[40];
    uint32_t what = draw(6);
    if (what < 2) {
      uint32_t n = draw(static_cast<uint32_t>(a.remaining()) + 1);
      for (uint32_t i = 0; i < n; ++i) buf[i] = El<T>::make((*seed)++);
      if (what == 0) a.copy_in_front(buf, n);
      else a.copy_in_back(buf, n);
    } else if (what < 4) {
      uint32_t n = draw(static_cast<uint32_t>(a.size()) + 1);
      if (what == 2) a.copy_out_front(buf, n);
      else a.copy_out_back(buf, n);
      for (uint32_t i = 0; i < n; ++i) ev(El<T>::get(buf[i]));
    } else if (!a.empty()) {
      uint32_t p = draw(static_cast<uint32_t>(a.size()));
      uint32_t n = draw(static_cast<uint32_t>(a.size()) - p + 1);
      typename A::iterator b = a.begin();
      b += p;
      typename A::iterator e = b;
      e += n;
      if (what == 4) {
        for (uint32_t i = 0; i < n; ++i) buf[i] = El<T>::make((*seed)++);
        a.copy_in(b, e, buf);
      } else {
        typename A::const_iterator cb = b, ce = e;
        a.copy_out(cb, ce, buf);
        for (uint32_t i = 0; i < n; ++i) ev(El<T>::get(buf[i]));
      }
    }
    TRACE("bulk copy, form %u", what);
  }
};

template <class T> void observe(embedded::circular_buffer_adapter<T> const& a) {
  typedef embedded::circular_buffer_adapter<T> A;
  ev(a.size(), a.remaining(), a.capacity());
  ev(static_cast<u64>(a.empty()) | static_cast<u64>(a.full()) << 1);
  uint32_t how = draw(5);
  if (how == 0) {
    for (typename A::iterator i = a.begin(); i != a.end(); ++i) ev(El<T>::get(*i));
  } else if (how == 1) {
    for (typename A::reverse_iterator i = a.rbegin(); i != a.rend(); ++i) ev(El<T>::get(*i));
  } else if (how == 2) {
    for (size_t i = 0; i < a.size(); ++i) ev(El<T>::get(a[i]));
  } else if (how == 3) {
    for (size_t i = 0; i < a.size(); ++i) ev(El<T>::get(a.at(i)));
  } else {
    for (typename A::const_iterator i = a.cend(); i != a.cbegin();) ev(El<T>::get(*--i));
  }
  if (!a.empty()) {
    ev(El<T>::get(a.front()), El<T>::get(a.back()));
    uint32_t p = draw(static_cast<uint32_t>(a.size()) + 1), q = draw(static_cast<uint32_t>(a.size()) + 1);
    typename A::iterator i = a.begin() + p;
    typename A::iterator j = a.begin();
    j += q;
    ev(static_cast<u64>(i - j), static_cast<u64>(i < j) | static_cast<u64>(i == j) << 1 | static_cast<u64>(i >= j) << 2);
    ev(a.raw_index(i), a.raw_index(j));
    typename A::const_iterator k = i;
    ev(static_cast<u64>(k != j));
    i -= p;
    ev(static_cast<u64>(i == a.begin()));
  }
}

template <class T> void ring() {
  typedef embedded::circular_buffer_adapter<T> A;
  std::memset(g_mem, 0xA5, sizeof g_mem);
  Obj::live = 0;
  Obj::sum = 0;
  uint32_t cap = pick(1, 3);
  if (draw(2)) cap = pick(1, 33);
  uint32_t first = draw(cap + 1);
  T* data = reinterpret_cast<T*>(g_mem);
  A a(data, cap, first, 0);
  if (draw(2)) a = A(data, data + cap, data + first, 0);
  u64 seed = draw(1000);
  uint32_t ops = pick(1, 40);
  TRACE("ring buffer of capacity %u from slot %u", cap, first);
  for (uint32_t i = 0; i < ops; ++i) {
    sim::Span s;
    uint32_t op = draw(12);
    ev(op);
    TRACE("operation %u on %u elements", op, static_cast<unsigned>(a.size()));
    switch (op) {
    case 0: case 1:
      if (!a.full()) { T x(El<T>::make(seed++)); if (draw(2)) a.push_back(x); else a.push_back(std::move(x)); }
      break;
    case 2: case 3:
      if (!a.full()) { T x(El<T>::make(seed++)); if (draw(2)) a.push_front(x); else a.push_front(std::move(x)); }
      break;
    case 4:
      if (!a.full()) { T x(El<T>::make(seed++)); ev(El<T>::get(a.emplace_back(x))); }
      break;
    case 5:
      if (!a.full()) { T x(El<T>::make(seed++)); ev(El<T>::get(a.emplace_front(x))); }
      break;
    case 6: if (!a.empty()) { if (draw(2)) a.pop_front(); else a.pop_back(); } break;
    case 7: {
      uint32_t n = draw(static_cast<uint32_t>(a.size()) + 1);
      if (draw(2)) a.pop_front(n); else a.pop_back(n);
      break;
    }
    case 8: if (draw(6) == 5) a.clear(); break;
    case 9: Bulk<T, std::is_trivial<T>::value>::go(a, &seed, seed); break;
    case 10: { // re-create, move
      size_t at = a.empty() ? 0 : a.raw_index(a.begin()), n = a.size();
      if (draw(2)) a = A(data, cap, at, n);
      else { A b(std::move(a)); a = std::move(b); }
      break;
    }
    default:
      if (!a.empty()) { uint32_t p = draw(static_cast<uint32_t>(a.size())); T x(El<T>::make(seed++)); a[p] = x; }
    }
    observe(a);
    if (!std::is_trivial<T>::value) ev(static_cast<u64>(Obj::live), Obj::sum);
  }
  a.clear();
  ev(a.size(), static_cast<u64>(Obj::live));
}

// --------------------------------------------------------- function wrapper
struct Big { u64 a, b; u64 operator()(u64 x) { a += x; return a ^ b; } };
struct CallC { u64 k; u64 operator()(u64 x) const { return x * 3 + k; } };
struct Both { u64 k; u64 operator()(u64 x) { return x + k; } u64 operator()(u64 x) const { return x - k; } };
struct Dtor {
  static int live;
  u64 v;
  explicit Dtor(u64 x) : v(x) { ++live; }
  Dtor(Dtor const& o) : v(o.v) { ++live; }
  Dtor(Dtor&& o) noexcept : v(o.v) { ++live; o.v = 0; }
  ~Dtor() { --live; }
  u64 operator()(u64 x) const { return x ^ v; }
};
int Dtor::live = 0;
struct Uniq {
  std::unique_ptr<u64> p;
  explicit Uniq(u64 x) : p(new u64(x)) {}
  u64 operator()(u64 x) const { return *p + x; }
};
u64 plain(u64 x) { return x * x; }
u64 plain2(u64 x) { return ~x; }
struct Klass { u64 m; u64 get() const { return m; } u64 add(u64 x) { m += x; return m; } };
struct Abs { virtual ~Abs() {} virtual u64 f(u64) const = 0; };
struct Impl : Abs { u64 k; explicit Impl(u64 q) : k(q) {} u64 f(u64 x) const override { return x % (k + 1); } };

template <class Sig, class F, size_t C> bool fits() { return std::is_constructible<embedded::function<Sig, C>, F>::value; }

template <class Sig, size_t Cap> struct Put {
  typedef embedded::function<Sig, Cap> F;
  static F make(uint32_t kind, u64 k) {
    switch (kind) {
    case 0: return F([k](u64 x) { return x + k; });
    case 1: return F(CallC{k});
    case 2: return F(Both{k});
    case 3: return F(Dtor(k));
    case 4: return F(&plain);
    case 5: return F(plain2);
    case 6: return F(Uniq(k));
    case 7: return F([](u64 x) { return x / 2; });
    case 8: { Impl i(k); return F([i](u64 x) { return static_cast<Abs const&>(i).f(x); }); }
    default: return F();
    }
  }
};
template <class Sig, size_t Cap> void wrappers() {
  typedef embedded::function<Sig, Cap> F;
  Dtor::live = 0;
  {
    F f[3];
    uint32_t ops = pick(1, 40);
    for (uint32_t n = 0; n < ops; ++n) {
      sim::Span s;
      uint32_t op = draw(8), i = draw(3), j = draw(3);
      ev(op, i, j);
      TRACE("function wrapper %u: operation %u (other %u)", i, op, j);
      switch (op) {
      case 0: case 1: { uint32_t k = draw(10); u64 v = draw(100); f[i] = Put<Sig, Cap>::make(k, v); break; }
      case 2: f[i] = std::move(f[j]); break;
      case 3: if (draw(2)) f[i] = nullptr; else f[i] = F(nullptr); break;
      case 4: { using std::swap; swap(f[i], f[j]); break; }
      case 5: { F t(std::move(f[i])); ev(static_cast<u64>(static_cast<bool>(t))); f[j] = std::move(t); break; }
      default: break;
      }
      for (int q = 0; q < 3; ++q) {
        ev(static_cast<u64>(static_cast<bool>(f[q])));
        if (f[q]) ev(f[q](draw(50)));
      }
      ev(static_cast<u64>(Dtor::live));
    }
  }
  ev(static_cast<u64>(Dtor::live));
}
void members() {
  Klass k{draw(100)};
  embedded::function<u64(Klass&)> a(&Klass::get), b(&Klass::m);
  embedded::function<u64(Klass const&) const> c(&Klass::get);
  embedded::function<u64(Klass&, u64)> d(&Klass::add);
  embedded::function<u64 const&(Klass const&)> e;
  ev(static_cast<u64>(static_cast<bool>(e)));
  e = &Klass::m;
  uint32_t ops = pick(1, 12);
  for (uint32_t n = 0; n < ops; ++n) {
    sim::Span s;
    ev(a(k), b(k), c(k));
    ev(d(k, draw(9)));
    ev(e(k), static_cast<u64>(&e(k) == &k.m));
    switch (draw(5)) {
    case 0: d = static_cast<u64 (Klass::*)(u64)>(nullptr); ev(static_cast<u64>(static_cast<bool>(d))); d = &Klass::add; break;
    case 1: a = b ? embedded::function<u64(Klass&)>(&Klass::m) : nullptr; break;
    case 2: a = std::move(b); b = &Klass::m; break;
    default: break;
    }
  }
  // what can be wrapped at all
  typedef u64 S1(u64);
  typedef u64 S2(u64) const;
  typedef void S3(int&);
  typedef long S4(char const*, int);
  bool q[] = {
      fits<S1, Big, 24>(), fits<S2, Big, 24>(), fits<S1, CallC, 24>(), fits<S2, CallC, 24>(), fits<S1, Uniq, 24>(),
      fits<S1, decltype(&plain), 24>(), fits<S2, decltype(&plain), 24>(), fits<S3, CallC, 24>(), fits<S4, CallC, 24>(),
      fits<S1, int, 24>(), fits<S1, std::nullptr_t, 24>(), fits<S2, Both, 24>(), fits<S1, Klass, 24>(),
      fits<S1, embedded::function<S1> const&, 24>(), fits<S1, embedded::function<S2>, 24>(),
      fits<S1, std::unique_ptr<u64>, 24>(), fits<S1, u64 Klass::*, 24>(), fits<S1, u64 (*)(int), 24>(), fits<S1, char* (*)(u64), 24>(),
      fits<S4, long (*)(void const*, long), 24>(), fits<S3, void (*)(int const&), 24>(), fits<S3, void (*)(int&&), 24>(),
  };
  u64 m = 0;
  for (bool x : q) m = m << 1 | static_cast<u64>(x);
  ev(m);
}
u64 g_called;
void void_calls() {
  g_called = draw(50);
  embedded::function<void(u64&, int)> f([](u64& x, int y) { x += static_cast<u64>(y); });
  embedded::function<u64*(u64*) const, 8> g([](u64* p) { return p; });
  embedded::function<void()> h([] { ++g_called; });
  embedded::function<std::unique_ptr<u64>(std::unique_ptr<u64>)> u([](std::unique_ptr<u64> p) { ++*p; return p; });
  embedded::function<u64(u64&&, u64 const&)> v([](u64&& a, u64 const& b) { u64 t = a; a = 0; return t + b; });
  uint32_t ops = pick(1, 10);
  for (uint32_t n = 0; n < ops; ++n) {
    u64 x = draw(9), y = draw(9);
    f(x, 5);
    h();
    ev(x, static_cast<u64>(g(&x) == &x), g_called);
    ev(*u(std::unique_ptr<u64>(new u64(x))));
    u64 const r = v(std::move(x), y);
    ev(r, x);
    if (draw(3) == 2) { embedded::function<void()> t(std::move(h)); h = std::move(t); }
  }
}
// a call of an empty wrapper is reported: by the documented exception, or,
// without exceptions, by terminating
void on_terminate() { ev(0x7e71); sim::power_cut(); }
void empty_call() {
  embedded::function<u64(u64)> f;
  if (draw(2)) { f = [](u64 x) { return x; }; f = nullptr; }
  std::terminate_handler old = std::set_terminate(on_terminate);
  sim::run_abandonable([&f] {
#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
    try { f(1); ev(0xbad1); }
    catch (std::bad_function_call&) { ev(0x7e71); }
    catch (...) { ev(0xbad2); }
#else
    f(1);
    ev(0xbad1);
#endif
  });
  std::set_terminate(old);
  TRACE("empty wrapper called");
}

// ------------------------------------------------------------------- varint
template <class T> void varints() {
  uint32_t n = pick(1, 12);
  std::vector<uint8_t> all;
  std::vector<T> vals;
  for (uint32_t i = 0; i < n; ++i) {
    sim::Span s;
    u64 r = sim::draw64() >> draw(64);
    if (draw(4) == 3) r = ~r;
    T v = static_cast<T>(r);
    vals.push_back(v);
    uint8_t out[16];
    std::memset(out, 0xA5, sizeof out);
    uint32_t room = draw(13);
    uint8_t* e = embedded::varint::encode(v, out, out + room);
    ev(static_cast<u64>(e - out), embedded::varint::size(v));
    if (e != out) for (uint8_t* p = out; p != e; ++p) ev(*p);
    e = embedded::varint::encode(v, out);
    ev(static_cast<u64>(e - out));
    embedded::varint::encode(v, std::back_inserter(all));
  }
  for (uint8_t b : all) ev(b);
  uint32_t damage = draw(4);
  if (damage == 3)
    for (uint32_t k = pick(1, 3); k > 0; --k) {
      uint32_t at = draw(static_cast<uint32_t>(all.size()));
      all[at] = static_cast<uint8_t>(draw(256));
    }
  if (damage == 2) all.resize(draw(static_cast<uint32_t>(all.size())));
  std::list<uint8_t> l(all.begin(), all.end());
  std::list<uint8_t>::const_iterator li = l.begin(), le = l.end();
  uint8_t const *b = all.data(), *e = b + all.size();
  while (b != e) {
    T x = 0, y = 0;
    uint8_t const* p = embedded::varint::decode(x, b, e);
    std::list<uint8_t>::const_iterator q = embedded::varint::decode(y, li, le);
    ev(static_cast<u64>(p - b), p != b ? static_cast<u64>(x) : 0, q != li ? static_cast<u64>(y) : 0);
    if (p == b) break;
    b = p;
    li = q;
  }
  TRACE("varints of %u bytes: %u values", static_cast<unsigned>(sizeof(T)), n);
}

// ------------------------------------------------------ lock, move wrapper
struct Mx {
  int held;
  void lock() { ++held; ev(0x10c); }
  void unlock() { --held; ev(0x0c1); }
};
u64 locked(Mx& m, Mx& k, uint32_t how) {
  embedded::lock_guard<Mx> g(m);
  for (uint32_t i = 0; i < 3; ++i) {
    embedded::lock_guard<Mx> h(k);
    ev(static_cast<u64>(m.held), static_cast<u64>(k.held));
    if (how == 0) return i;
    if (how == 1 && i == 1) break;
    if (how == 2) continue;
  }
  return 9;
}
void locks() {
  Mx m = {0}, k = {0};
  for (uint32_t n = pick(1, 12); n > 0; --n) {
    ev(locked(m, k, draw(4)));
    ev(static_cast<u64>(m.held), static_cast<u64>(k.held));
  }
  TRACE("lock guards");
}
typedef embedded::move_wrapper<std::unique_ptr<u64>> MW;
void seen(MW const& m) { ev(*m ? **m : 0x0ff); }
void wrapped() {
  MW a(std::unique_ptr<u64>(new u64(draw(99))));
  u64 sum = 0;
  for (uint32_t n = pick(1, 12); n > 0; --n) {
    switch (draw(4)) {
    case 0: { MW b(a); seen(a); seen(b); MW c(std::move(b)); seen(b); if (*c) *a = std::move(*c); break; }
    case 1: { MW const b(std::unique_ptr<u64>(new u64(draw(99)))); MW c(b); seen(b); seen(c); if (c->get()) sum += *c->get(); break; }
    case 2: {
      std::function<u64()> f;
      { MW b(a); f = [b]() { return *b ? **b : 0; }; }
      std::function<u64()> g(f);
      ev(g());
      ev(f());
      a->reset(new u64(draw(99)));
      break;
    }
    default: {
      MW b(a);
      embedded::function<u64()> f([b]() { return *b ? **b : 0; });
      embedded::function<u64()> g(std::move(f));
      ev(g());
      a->reset(new u64(draw(99)));
    }
    }
    seen(a);
  }
  ev(sum);
  TRACE("move wrappers");
}

// --------------------------------------------------- failures, if there are any
#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
struct Fail { u64 code; };
uint32_t g_fail_in; // the n-th of the following operations fails; 0: none
void may_fail() { if (g_fail_in != 0 && --g_fail_in == 0) throw Fail{draw(100)}; }
struct Frail {
  static int live;
  u64 v;
  explicit Frail(u64 x) : v(x) { may_fail(); ++live; }
  Frail(Frail const& o) : v(o.v) { may_fail(); ++live; }
  Frail(Frail&& o) : v(o.v) { may_fail(); o.v = 0; ++live; }
  ~Frail() { --live; }
};
int Frail::live = 0;
struct FrailMx {
  int held;
  void lock() { may_fail(); ++held; }
  void unlock() { --held; }
};
struct FrailOut { // refuses bytes
  typedef uint8_t value_type;
  std::vector<uint8_t> v;
  void push_back(uint8_t b) { may_fail(); v.push_back(b); }
};
template <class F> void attempt(F const& f) {
  try { f(); ev(0x0c); }
  catch (Fail const& x) { ev(0xfa, x.code); STAT("fault.exception_in_every_build"); }
  catch (std::out_of_range const&) { ev(0xfb); STAT("fault.out_of_range_in_every_build"); }
  catch (std::bad_function_call const&) { ev(0xfc); STAT("fault.empty_call_in_every_build"); }
  catch (...) { ev(0xfd); }
  g_fail_in = 0;
}
uint32_t soon() { return draw(3) ? 0 : pick(1, 4); }
void frail_ring() {
  typedef embedded::circular_buffer_adapter<Frail> A;
  std::memset(g_mem, 0xA5, sizeof g_mem);
  Frail::live = 0;
  uint32_t cap = pick(1, 9), first = draw(cap + 1);
  A a(reinterpret_cast<Frail*>(g_mem), cap, first, 0);
  for (uint32_t n = pick(1, 30); n > 0; --n) {
    sim::Span s;
    uint32_t const op = draw(8);
    u64 const v = draw(1000);
    ev(op);
    TRACE("operation %u of a buffer of %u elements that fail", op, static_cast<unsigned>(a.size()));
    if (op < 6 && a.full()) { a.pop_front(); continue; }
    if (op < 6) {
      Frail x(v);
      g_fail_in = soon();
      switch (op) {
      case 0: attempt([&] { a.push_back(x); }); break;
      case 1: attempt([&] { a.push_front(x); }); break;
      case 2: attempt([&] { a.push_back(std::move(x)); }); break;
      case 3: attempt([&] { a.push_front(std::move(x)); }); break;
      case 4: attempt([&] { ev(a.emplace_back(v).v); }); break;
      default: attempt([&] { ev(a.emplace_front(v).v); });
      }
      ev(x.v);
    } else if (op == 6) {
      size_t const i = draw(4) == 3 ? ~static_cast<size_t>(draw(9)) : draw(static_cast<uint32_t>(a.capacity()) + 2);
      attempt([&] { ev(a.at(i).v); });
    } else if (!a.empty()) {
      if (draw(2)) a.pop_back(); else a.pop_front(draw(static_cast<uint32_t>(a.size()) + 1));
    }
    ev(a.size(), static_cast<u64>(Frail::live), a.empty() ? 0 : a.raw_index(a.begin()));
    for (A::iterator i = a.begin(); i != a.end(); ++i) ev(i->v);
  }
  a.clear();
  ev(static_cast<u64>(Frail::live));
}
void frail_rest() {
  typedef embedded::function<u64(u64)> F;
  F f, g([](u64 x) { may_fail(); return x + 1; });
  u64 k = draw(50);
  F h([k](u64 x) mutable { k += x; may_fail(); return k; });
  FrailMx m = {0};
  FrailOut bytes;
  for (uint32_t n = pick(1, 20); n > 0; --n) {
    sim::Span s;
    uint32_t const op = draw(7);
    ev(op);
    TRACE("operation %u that may fail", op);
    g_fail_in = soon();
    switch (op) {
    case 0: attempt([&] { ev(f(3)); }); break;
    case 1: attempt([&] { ev(g(draw(9))); }); break;
    case 2: attempt([&] { ev(h(draw(9))); }); break;
    case 3: { uint32_t const on = g_fail_in; g_fail_in = 0; F t(std::move(g)); g = std::move(f); f = std::move(t); g_fail_in = on; break; }
    case 4: attempt([&] { embedded::lock_guard<FrailMx> l(m); may_fail(); }); break;
    case 5: { u64 const v = sim::draw64() >> draw(64); attempt([&] { embedded::varint::encode(v, std::back_inserter(bytes)); }); break; }
    default:
      attempt([&] {
        embedded::move_wrapper<Frail> a((Frail(7)));
        struct Tell {
          embedded::move_wrapper<Frail>& a;
          ~Tell() { ev(a->v); }
        } tell = {a};
        embedded::move_wrapper<Frail> b(a);
        ev(a->v, b->v);
        embedded::move_wrapper<Frail> c(std::move(b));
        ev(b->v, c->v);
      });
    }
    g_fail_in = 0;
    ev(static_cast<u64>(static_cast<bool>(f)) | static_cast<u64>(static_cast<bool>(g)) << 1 | static_cast<u64>(static_cast<bool>(h)) << 2, static_cast<u64>(m.held), bytes.v.size());
  }
  for (uint8_t b : bytes.v) ev(b);
}
#endif

// ------------------------------------------------------------------ filters
#ifndef B01_NO_SIGNAL
namespace sg = embedded::signal;
typedef sg::iirfilter<double> IIR;
// designs fixed at compile time: their coefficients cannot depend on libm
static constexpr auto d_bw4 = IIR(48000.0).lowpass(sg::butterworth<4>(), 1000.0).sos<double>();
static constexpr auto d_bw4p = IIR(48000.0).lowpass(sg::butterworth<4>(), 1000.0).poly<double>();
static constexpr auto d_bw5f = IIR(1000.0).highpass(sg::butterworth<5>(), 200.0).sos<float>(sg::sos_gain::distribute);
static constexpr auto d_bw3fp = IIR(1000.0).highpass(sg::butterworth<3>(), 200.0).poly<float>();
static constexpr auto d_ch6 = IIR(8000.0).lowpass(sg::chebyshev1<6>(0.5), 900.0).sos<double>();
static constexpr auto d_ch2 = IIR(8000.0).highpass(sg::chebyshev1<2>(1.0), 900.0).poly<double>();
static constexpr auto d_be3 = IIR(500.0).lowpass(sg::bessel<3>(), 40.0).sos<float>();
static constexpr auto d_be7 = IIR(500.0).lowpass(sg::bessel<7>(), 90.0).sos<double>();
static constexpr auto d_bw1 = IIR(100.0).lowpass(sg::butterworth<1>(), 20.0).poly<float>();
template <class D> struct SampleOf;
template <class F, size_t N> struct SampleOf<sg::sos_design<F, N>> { typedef F type; };
template <class F, size_t N> struct SampleOf<sg::poly_design<F, N>> { typedef F type; };
u64 bits(float x) { uint32_t b; std::memcpy(&b, &x, 4); return b; }
u64 bits(double x) { u64 b; std::memcpy(&b, &x, 8); return b; }
template <class D> void filt(D const& d) {
  typedef typename SampleOf<typename std::decay<D>::type>::type F;
  auto a = d.instance();
  auto b = a;
  uint32_t n = pick(1, 60);
  uint32_t shape = draw(3);
  TRACE("filter of order %u, %u samples of shape %u", static_cast<unsigned>(D::order()), n, shape);
  for (uint32_t i = 0; i < n; ++i) {
    double x = shape == 0 ? (i == 0) : shape == 1 ? 1.0 : static_cast<double>(draw(4001)) - 2000.0;
    F y = a(static_cast<F>(x));
    ev(bits(y));
    if (draw(20) == 19) b = a;
    if (draw(3) == 2) ev(bits(b(static_cast<F>(x / 3))));
  }
}
template <class D> void coefs(D const& d) {
  auto b = d.b();
  auto a = d.a();
  for (size_t i = 0; i < b.size(); ++i) ev(bits(b[i]), bits(a[i]));
}
void filters() {
  switch (draw(9)) {
  case 0: filt(d_bw4); break;
  case 1: filt(d_bw4p); coefs(d_bw4p); break;
  case 2: filt(d_bw5f); break;
  case 3: filt(d_bw3fp); coefs(d_bw3fp); break;
  case 4: filt(d_ch6); for (size_t i = 0; i < d_ch6.size(); ++i) coefs(d_ch6.sos()[i]); break;
  case 5: filt(d_ch2); break;
  case 6: filt(d_be3); break;
  case 7: filt(d_be7); break;
  default: filt(d_bw1); break;
  }
}
#endif

void run_b01() {
  uint32_t parts = pick(1, 3);
  for (uint32_t k = 0; k < parts; ++k) {
    sim::Span s;
    uint32_t c = draw(22);
    if (c == 0) STAT("fault.empty_call_in_every_build");
    ev(c);
    switch (c) {
    case 0: empty_call(); break;
    case 1: ring<uint8_t>(); break;
    case 2: ring<uint32_t>(); break;
    case 3: ring<Triv3>(); break;
    case 4: case 5: ring<Obj>(); break;
    case 6: wrappers<u64(u64), 24>(); break;
    case 7: wrappers<u64(u64) const, 24>(); break;
    case 8: wrappers<u64(u64), 32>(); break;
    case 9: members(); break;
    case 10: void_calls(); break;
    case 11: varints<uint8_t>(); varints<int16_t>(); break;
    case 12: varints<uint16_t>(); varints<int8_t>(); break;
    case 13: varints<uint32_t>(); varints<int64_t>(); break;
    case 14: varints<uint64_t>(); varints<int32_t>(); break;
    case 15: locks(); break;
    case 16: wrapped(); break;
    case 20: case 21:
#if defined(__cpp_exceptions) || defined(__EXCEPTIONS)
      if (c == 20) frail_ring(); else frail_rest();
      break;
#else
      sim::skip_compare(); // nothing can fail
      return;
#endif
    default:
#ifndef B01_NO_SIGNAL
      filters();
#else
      sim::skip_compare(); // this compiler has no constant-expression <cmath>
      return;
#endif
    }
  }
}
} // namespace

namespace sim {
const Harness harnesses[] = {{"B01", run_b01, "build configurations"}};
const size_t n_harnesses = 1;
} // namespace sim
