// T01: what an operation costs is bounded by what it has to do, not by
// capacity, fill, position, value or history.  Cost is the number of memory
// accesses the library's code makes, as counted by the simulator.
#include "common.h"

#include <embedded/circular_buffer_adapter.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include <embedded/varint.h>

#include <limits>
#include <list>

#include <sys/mman.h>

namespace {
using namespace h;
using u64 = uint64_t;
using D = std::ptrdiff_t;

// A generous constant (the unoptimised build needs at most a quarter of it,
// mostly much less) and a generous factor for every element, byte or order
// concerned (it needs at most 25).
constexpr u64 kOp = 600, kEach = 60;

void bound(const char* what, u64 cost, u64 n) {
  STAT("ops");
  CHECK(cost <= kOp + kEach * n, "cost", "%s made %llu memory accesses where %llu are more than enough", what, (unsigned long long)cost,
        (unsigned long long)(kOp + kEach * n));
}
// measured: everything executed between construction and stop()
struct Meter {
  u64 t = sim::steps();
  u64 stop() const { return sim::steps() - t; }
};
#define COST(what, n, ...) do { u64 const n_ = (n); Meter m_; { Observe o_; __VA_ARGS__; } bound(what, m_.stop(), n_); } while (0)

// ------------------------------------------------------------ ring buffers
struct Plain { // not trivial: has to be constructed and destroyed
  u64 v;
  explicit Plain(u64 x) : v(x) { maybe_throw(); }
  Plain(Plain const& o) : v(o.v) { maybe_throw(); }
  Plain& operator=(Plain const&) = default;
  ~Plain() { v = 0; }
};
template <class T> struct Make { static T make(u64 v) { return T(static_cast<T>(v)); } };
template <> struct Make<Plain> { static Plain make(u64 v) { return Plain(v); } };
template <size_t N> struct Make<Bytes<N>> { static Bytes<N> make(u64 v) { Bytes<N> b; memset(&b, static_cast<int>(v), sizeof b); return b; } };

struct Map {
  static constexpr size_t bytes = size_t(20) << 30;
  static unsigned char* get() {
    static unsigned char* p = nullptr;
    static bool tried = false;
    if (!tried) {
      tried = true;
      void* q = mmap(reinterpret_cast<void*>(size_t(0x20) << 40), bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (q != MAP_FAILED) {
        p = static_cast<unsigned char*>(q);
        madvise(p, bytes, MADV_NOHUGEPAGE);
      }
    }
    return p;
  }
};
constexpr size_t kSmall = 1 << 20;
alignas(4096) unsigned char g_small[kSmall];

template <class T> struct Ring {
  using A = embedded::circular_buffer_adapter<T>;
  static constexpr bool trivial = std::is_trivial<T>::value;
  T* data = nullptr;
  size_t cap = 0;
  A a;
  alignas(T) unsigned char raw[100 * sizeof(T)] = {};
  T* buf = reinterpret_cast<T*>(raw);
  static void run() {
    static Ring r; // the simulated program's memory
    r.go();
  }
  size_t size() { return a.size(); }
  size_t near(size_t max) {
    size_t const c[] = {0, max, max / 2, 1, 200, 4000};
    size_t x = c[draw(6)] + draw(5);
    x = x >= 2 ? x - 2 : 0;
    return std::min(x, max);
  }
  // how many to remove at once: an implementation may take a step for each
  size_t few(size_t max) { return std::min<size_t>(near(max), 5000); }
  void go() {
#ifdef __OPTIMIZE__ // where a loop that makes no access costs nothing, but takes its time
    bool const huge = false;
#else
    bool const huge = trivial && coin(8) && Map::get();
#endif
    if (huge) {
      madvise(Map::get(), Map::bytes, MADV_DONTNEED);
      data = reinterpret_cast<T*>(Map::get());
      cap = std::min<size_t>((size_t(1) << range(24, 33)) + draw(3), Map::bytes / sizeof(T));
      STAT("probe.huge_storage");
    } else {
      data = reinterpret_cast<T*>(g_small);
      size_t const c[] = {8, 1, 300, 5000, kSmall / sizeof(T)};
      cap = c[draw(5)] + draw(4);
      cap = std::min(cap, kSmall / sizeof(T));
      if (!trivial) cap = std::min<size_t>(cap, 6000);
    }
    size_t first = std::min<size_t>(near(cap), cap), n0 = near(cap);
    if (!trivial) {
      Unobserve u;
      for (size_t i = 0; i < cap; ++i) ::new (data + i) T(Make<T>::make(i));
    }
    TRACE("ring of %zu items of %zu bytes, start %zu, %zu existing", cap, sizeof(T), first, n0);
    uint32_t form = draw(2);
    COST("creating", 0, if (form) a = A(data, cap, first, n0); else a = A(data, data + cap, data + first, n0));
    uint32_t n = range(3, 40);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      one();
      reads();
    }
    if (size() <= 10000) COST("clear()", size(), a.clear());
  }
  void one() {
    size_t const sz = size(), room = cap - sz;
    uint32_t op = draw(13);
    ev(op, sz, cap);
    bool thrown = false;
    switch (op) {
    case 0: case 1: case 2: case 3: {
      if (!room) break;
      T x = Make<T>::make(fresh_value());
      TRACE("%s %s at size %zu", op & 2 ? "emplace" : "push", op & 1 ? "front" : "back", sz);
      if (!trivial && coin(6)) { g_throw_in = 1; g_throw_token = 1; }
      Meter m;
      try {
        Observe o;
        switch (op) {
        case 0: a.push_back(x); break;
        case 1: a.push_front(x); break;
        case 2: a.emplace_back(x); break;
        case 3: a.emplace_front(x); break;
        }
      } catch (Fault const&) { thrown = true; }
      g_throw_in = 0;
      if (thrown) TRACE("it threw");
      bound("adding an element", m.stop(), 0);
      break;
    }
    case 4: if (sz) { TRACE("pop_front at size %zu", sz); COST("pop_front()", 0, a.pop_front()); } break;
    case 5: if (sz) { TRACE("pop_back at size %zu", sz); COST("pop_back()", 0, a.pop_back()); } break;
    case 6: { size_t c = few(sz); TRACE("pop_front(%zu) at size %zu", c, sz); COST("pop_front(n)", c, a.pop_front(c)); break; }
    case 7: { size_t c = few(sz); TRACE("pop_back(%zu) at size %zu", c, sz); COST("pop_back(n)", c, a.pop_back(c)); break; }
    case 8: if (coin(3) && sz <= 10000) { TRACE("clear at size %zu", sz); COST("clear()", sz, a.clear()); } break;
    case 9: case 10: bulk(op == 9, sz, room); break;
    case 11: {
      TRACE("move");
      Meter m;
      { Observe o; A b(std::move(a)); a = std::move(b); }
      bound("moving the adapter", m.stop(), 0);
      break;
    }
    default: {
      size_t pos = 0;
      TRACE("re-adopt %zu", sz);
      COST("raw_index", 0, pos = sz ? a.raw_index(a.begin()) : 0);
      COST("creating", 0, a = A(data, cap, pos, sz));
    }
    }
  }
  void bulk(bool front, size_t sz, size_t room) {
    if constexpr (trivial) {
      size_t in = std::min<size_t>(draw(100), room), out = std::min<size_t>(draw(100), sz);
      TRACE("copy in %zu and out %zu at the %s at size %zu", in, out, front ? "front" : "back", sz);
      if (front) {
        COST("copy_in_front", in * sizeof(T), a.copy_in_front(buf, in));
        COST("copy_out_front", out * sizeof(T), a.copy_out_front(buf, out));
      } else {
        COST("copy_in_back", in * sizeof(T), a.copy_in_back(buf, in));
        COST("copy_out_back", out * sizeof(T), a.copy_out_back(buf, out));
      }
      size_t const now = size();
      if (!now) return;
      size_t at = near(now - 1), c = std::min<size_t>(draw(100), now - at);
      if (!c) return;
      COST("copy_in(range)", c * sizeof(T), { auto b = a.begin() + static_cast<D>(at); a.copy_in(b, b + static_cast<D>(c), buf); });
      COST("copy_out(range)", c * sizeof(T), { auto b = a.begin() + static_cast<D>(at); a.copy_out(b, b + static_cast<D>(c), buf); });
    }
  }
  void reads() {
    u64 sum = 0;
    COST("size() and its like", 0, sum += a.size() + a.capacity() + a.remaining() + a.empty() + a.full());
    COST("begin() and end()", 0, sum += (a.begin() == a.end()) + (a.cbegin() != a.cend()) + (a.rbegin() == a.rend()));
    size_t const n = size();
    if (!n) return;
    size_t const x = near(n - 1), y = near(n);
    D const dx = static_cast<D>(x), dy = static_cast<D>(y), dn = static_cast<D>(n);
    TRACE("read %zu and %zu of %zu", x, y, n);
    void const* p = nullptr;
    COST("front() or back()", 0, { p = std::addressof(a.front()); p = std::addressof(a.back()); });
    COST("[]", 0, p = std::addressof(a[x]));
    COST("at()", 0, p = std::addressof(a.at(x)));
    bool out = false;
    {
      Meter m;
      try { Observe o; p = std::addressof(a.at(n + draw(3))); } catch (std::out_of_range const&) { out = true; }
      if (out) bound("at() out of range", m.stop(), 0);
    }
    auto i = a.begin();
    auto j = a.end();
    auto c = a.cbegin();
    COST("iterator + n", 0, i = a.begin() + dx);
    COST("iterator - n", 0, j = a.end() - (dn - dy));
    COST("iterator += n", 0, { c = a.cbegin(); c += dx; });
    COST("iterator dereference", 0, { p = std::addressof(*i); p = std::addressof(i[0]); });
    COST("iterator difference", 0, sum += static_cast<u64>((j - i) + (a.cend() - c)));
    COST("iterator comparison", 0, sum += (i < j) + (i == j) + (i != j) + (c >= a.cbegin()));
    COST("raw_index", 0, sum += a.raw_index(c));
    COST("++ and --", 0, { ++i; --i; ++c; --c; });
    COST("reverse iterator", 0, { auto r = a.rbegin() + (dn - 1 - dx); p = std::addressof(*r); sum += static_cast<u64>(a.rend() - r); });
    if (n <= 1000) {
      size_t k = 0;
      COST("walking over all elements", n, { for (auto& e : a) { p = std::addressof(e); ++k; } });
      sum += k;
    }
    (void)p;
    ev(n);
    (void)sum;
  }
};

// ------------------------------------------------------------ functions
template <size_t N> struct Target {
  unsigned char b[N];
  u64 operator()(u64 x) const { return x + b[0] + b[N - 1]; }
};
struct Owning { // not trivially destructible
  u64 v;
  explicit Owning(u64 x) : v(x) {}
  Owning(Owning&& o) noexcept : v(o.v) { o.v = 0; }
  Owning(Owning const&) = default;
  ~Owning() { v = 0; }
  u64 operator()(u64 x) const { return x + v; }
};
template <class F, size_t Room> struct Functions {
  static void run() {
    static F f[4];
    for (F& x : f) x = nullptr;
    uint32_t n = range(10, 300);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      uint32_t p = draw(4), q = draw(4), op = draw(9);
      ev(op, p, q);
      TRACE("function op %u on %u and %u", op, p, q);
      switch (op) {
      case 0: { Target<8> t{}; COST("assigning a target", 0, f[p] = t); break; }
      case 1: { Target<Room> t{}; COST("assigning a target", 0, f[p] = t); break; }
      case 2: { Owning t(i); COST("assigning a target", 0, f[p] = std::move(t)); break; }
      case 3: COST("move assignment", 0, f[p] = std::move(f[q])); break;
      case 4: { Meter m; { Observe o; F g(std::move(f[p])); f[q] = std::move(g); } bound("moving through a temporary", m.stop(), 0); break; }
      case 5: if (coin(3)) COST("= nullptr", 0, f[p] = nullptr); break;
      case 6: COST("operator bool", 0, ev(static_cast<bool>(f[p]))); break;
      default: {
        if (!f[p]) break;
        u64 r = 0;
        COST("a call", 0, r = f[p](i));
        ev(r);
      }
      }
    }
  }
};

// ------------------------------------------------------------ move_wrapper, lock_guard
struct Token {
  u64 v;
  explicit Token(u64 x) : v(x) {}
  Token(Token&& o) noexcept : v(o.v) { o.v = 0; }
};
struct Mutex {
  u64 held = 0;
  void lock() { ++held; }
  void unlock() { --held; }
};
void small_parts() {
  using W = embedded::move_wrapper<Token>;
  alignas(W) unsigned char mem[2][sizeof(W)];
  W* w = nullptr;
  COST("wrapping", 0, w = new (mem[0]) W(Token(7)));
  uint32_t n = range(1, 200);
  for (uint32_t i = 0; i < n; ++i) {
    W* x = nullptr;
    bool const mv = draw(2);
    COST("transferring a wrapped object", 0, x = mv ? new (mem[(i + 1) % 2]) W(std::move(*w)) : new (mem[(i + 1) % 2]) W(*w));
    w->~W();
    w = x;
    COST("access to a wrapped object", 0, ev((**w).v + (*w)->v));
  }
  w->~W();
  Mutex m;
  for (uint32_t i = 0; i < n; ++i)
    COST("a critical section", 0, { embedded::lock_guard<Mutex> g(m); });
}

// ------------------------------------------------------------ varint
alignas(64) unsigned char g_bytes[70000];
template <class T> struct Codec {
  static void run() {
    constexpr size_t longest = (8 * sizeof(T) + 6) / 7;
    size_t const total = range(1, 65000);
    unsigned char* const e = g_bytes + total;
    uint32_t n = range(3, 30);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      T const v = static_cast<T>(draw(2) ? fresh_value() : u64(1) << draw(64));
      size_t const off = std::min<size_t>(draw(4) ? draw(40) : draw(65000), total);
      uint32_t op = draw(6);
      ev(op, sizeof(T), static_cast<u64>(v));
      TRACE("varint op %u on %llu of %zu bytes, offset %zu of %zu", op, (unsigned long long)v, sizeof(T), off, total);
      unsigned char* p = g_bytes + off;
      T r{};
      switch (op) {
      case 0: COST("encoding with a range", longest, embedded::varint::encode(v, p, e)); break;
      case 1: COST("encoding", longest, embedded::varint::encode(v, p)); break;
      case 2: {
        std::vector<uint8_t> o;
        o.reserve(16);
        COST("encoding to a container", longest, embedded::varint::encode(v, std::back_inserter(o)));
        break;
      }
      case 3: { // anything, also without any end
        unsigned char const fill = static_cast<unsigned char>(draw(2) ? 0x80 : 0xff);
        memset(g_bytes, fill, sizeof g_bytes);
        STAT("fault.endless_encoding");
        COST("decoding an endless encoding", longest, embedded::varint::decode(r, static_cast<unsigned char const*>(p), static_cast<unsigned char const*>(e)));
        break;
      }
      case 4: COST("size()", longest, ev(embedded::varint::size(v))); break;
      default: {
        embedded::varint::encode(v, p);
        COST("decoding", longest, embedded::varint::decode(r, static_cast<unsigned char const*>(p), static_cast<unsigned char const*>(e)));
      }
      }
    }
  }
};

// ------------------------------------------------------------ filters
template <size_t N, class F> struct Filters {
  static void run() {
    embedded::signal::iirfilter<double> fl(1000);
    embedded::signal::butterworth<N> const bw;
    double const edge = 10 + draw(480);
    if (draw(2)) feed(draw(2) ? fl.lowpass(bw, edge).template sos<F>() : fl.highpass(bw, edge).template sos<F>());
    else feed(draw(2) ? fl.lowpass(bw, edge).template poly<F>() : fl.highpass(bw, edge).template poly<F>());
  }
  template <class Design> static void feed(Design const& d) {
    auto f = d.instance();
    uint32_t n = range(1, 200), kind = draw(5);
    ev(N, kind);
    TRACE("filter of order %zu, %u samples of kind %u", N, n, kind);
    for (uint32_t i = 0; i < n; ++i) {
      F x = F(0);
      switch (kind) {
      case 0: break;
      case 1: x = i == 0 ? F(1) : F(0); break;
      case 2: x = static_cast<F>(draw(1000)) - F(500); break;
      case 3: x = std::numeric_limits<F>::denorm_min(); break;
      default: x = i % 3 ? std::numeric_limits<F>::infinity() : std::numeric_limits<F>::max();
      }
      volatile F y;
      COST("a sample", N, y = f(x));
      if (coin(20)) {
        Meter m;
        { Observe o; auto g(f); f = g; }
        bound("copying a filter", m.stop(), N);
      }
    }
  }
};

void run_t01() {
  run_reset();
  static const uint32_t w[] = {6, 2, 1, 2, 2};
  switch (sim::weighted(w)) {
  case 0:
    switch (draw(5)) {
    case 0: Ring<uint8_t>::run(); break;
    case 1: Ring<u64>::run(); break;
    case 2: Ring<Bytes<100>>::run(); break;
    case 3: Ring<uint16_t>::run(); break;
    default: Ring<Plain>::run(); break;
    }
    break;
  case 1:
    switch (draw(3)) {
    case 0: Functions<embedded::function<u64(u64), 16>, 16>::run(); break;
    case 1: Functions<embedded::function<u64(u64) const, 64>, 60>::run(); break;
    default: Functions<embedded::function<u64(u64), 20000, 16>, 19999>::run(); break;
    }
    break;
  case 2: small_parts(); break;
  case 3:
    switch (draw(8)) {
    case 0: Codec<uint8_t>::run(); break;
    case 1: Codec<int8_t>::run(); break;
    case 2: Codec<uint16_t>::run(); break;
    case 3: Codec<int16_t>::run(); break;
    case 4: Codec<uint32_t>::run(); break;
    case 5: Codec<int32_t>::run(); break;
    case 6: Codec<uint64_t>::run(); break;
    default: Codec<int64_t>::run(); break;
    }
    break;
  default:
    switch (draw(5)) {
    case 0: Filters<1, double>::run(); break;
    case 1: Filters<2, float>::run(); break;
    case 2: Filters<5, double>::run(); break;
    case 3: Filters<8, float>::run(); break;
    default: Filters<16, double>::run(); break;
    }
  }
}
} // namespace

namespace sim {
const Harness harnesses[] = {{"T01", run_t01, "cost of operations"}};
const size_t n_harnesses = 1;
} // namespace sim
