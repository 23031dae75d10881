// Digital filters under simulation: S01 (isolation, copies), S02 (difference
// equation from rest), S03 (disturbances are forgotten), S04 (both forms).
#include "common.h"
#include "ring64.h"

#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>

#include <cmath>
#include <complex>
#include <limits>

namespace flt {
using u64 = uint64_t;
using Real = long double;

#ifdef REDUCED // without the ring, see check.py
enum FK { FLOAT, DOUBLE, NFK, RING };
#else
enum FK { FLOAT, DOUBLE, RING, NFK };
#endif
inline const char* const fk_name[] = {"float", "double", "integers mod 2^64"};
template <class F> struct Conv;
template <> struct Conv<float> {
  static constexpr FK kind = FLOAT;
  static u64 bits(float x) { uint32_t b; memcpy(&b, &x, 4); return b; }
  static float from(u64 b) { uint32_t c = static_cast<uint32_t>(b); float x; memcpy(&x, &c, 4); return x; }
};
template <> struct Conv<double> {
  static constexpr FK kind = DOUBLE;
  static u64 bits(double x) { u64 b; memcpy(&b, &x, 8); return b; }
  static double from(u64 b) { double x; memcpy(&x, &b, 8); return x; }
};
template <> struct Conv<Z64> {
  static constexpr FK kind = RING;
  static u64 bits(Z64 x) { return x.v; }
  static Z64 from(u64 b) { return Z64::raw(b); }
};
inline Real real_of(FK k, u64 bits) { return k == FLOAT ? static_cast<Real>(Conv<float>::from(bits)) : static_cast<Real>(Conv<double>::from(bits)); }
inline u64 bits_of(FK k, Real r) { return k == FLOAT ? Conv<float>::bits(static_cast<float>(r)) : Conv<double>::bits(static_cast<double>(r)); }


struct Spec { // a design, as drawn
  int family = 0, order = 1;
  bool hp = false, distribute = false, sos = true;
  FK fk = DOUBLE;
  bool design_in_float = false;
  double fs = 1000, f = 100, ripple = 1;
};
struct Box { // a design object and what can be done with its instances
  FK fk;
  virtual ~Box() {}
  virtual size_t isize() const = 0;
  virtual size_t ialign() const = 0;
  virtual std::vector<Sec> equation() const = 0;
  virtual void make(void* mem, bool by_ctor) const = 0;
  virtual void copy(void* mem, void* from, bool move) const = 0;
  virtual void assign(void* to, void* from, bool move) const = 0;
  virtual void destroy(void* p) const = 0;
  virtual u64 feed(void* p, u64 x) const = 0;
};
using MakeFn = Box* (*)(Spec const&, void* mem, size_t room);
constexpr int kOrders = 101;
inline MakeFn g_make[kOrders];
struct Analog { std::vector<std::complex<Real>> p, z; Real gain; };
using AnalogFn = void (*)(Spec const&, Analog&);
inline AnalogFn g_bessel[kOrders], g_analog[kOrders];
} // namespace flt

namespace {
using namespace h;
using namespace flt;

template <class F, class Design> struct BoxT : Box {
  using Inst = decltype(std::declval<Design const&>().instance());
  Design d;
  explicit BoxT(Design const& x) : d(x) { fk = Conv<F>::kind; }
  size_t isize() const override { return sizeof(Inst); }
  size_t ialign() const override { return alignof(Inst); }
  void make(void* mem, bool by_ctor) const override {
    Observe o;
    if (by_ctor) new (mem) Inst(&d);
    else new (mem) Inst(d.instance());
  }
  void copy(void* mem, void* from, bool move) const override {
    Observe o;
    Inst* s = static_cast<Inst*>(from);
    if (move) new (mem) Inst(std::move(*s));
    else new (mem) Inst(*static_cast<Inst const*>(s));
  }
  void assign(void* to, void* from, bool move) const override {
    Observe o;
    Inst *t = static_cast<Inst*>(to), *s = static_cast<Inst*>(from);
    if (move) *t = std::move(*s);
    else *t = *static_cast<Inst const*>(s);
  }
  void destroy(void* p) const override { Observe o; static_cast<Inst*>(p)->~Inst(); }
  __attribute__((noinline)) u64 feed(void* p, u64 x) const override {
    F y;
    F const in = Conv<F>::from(x);
    { Observe o; y = (*static_cast<Inst*>(p))(in); }
    return Conv<F>::bits(y);
  }
  std::vector<Sec> equation() const override {
    std::vector<Sec> r;
    fill(d, r);
    return r;
  }
  template <size_t N> static void fill(embedded::signal::poly_design<F, N> const& p, std::vector<Sec>& r) {
    Sec s;
    auto const b = p.b();
    auto const a = p.a();
    for (size_t i = 0; i <= N; ++i) { s.b.push_back(Conv<F>::bits(b[i])); s.a.push_back(Conv<F>::bits(a[i])); }
    r.push_back(std::move(s));
  }
  template <size_t N> static void fill(embedded::signal::sos_design<F, N> const& p, std::vector<Sec>& r) {
    for (size_t i = 0; i < p.size(); ++i) {
      Sec s;
      auto const b = p.sos()[i].b();
      auto const a = p.sos()[i].a();
      for (size_t k = 0; k < 3; ++k) { s.b.push_back(Conv<F>::bits(b[k])); s.a.push_back(Conv<F>::bits(a[k])); }
      r.push_back(std::move(s));
    }
  }
};

template <class F, class D> Box* boxed(D const& base, Spec const& s, void* mem, size_t room) {
  using P = decltype(base.template poly<F>());
  using S = decltype(base.template sos<F>());
  if (sizeof(BoxT<F, P>) > room || sizeof(BoxT<F, S>) > room) sim::harness_error("no room for a design");
  if (!s.sos) return new (mem) BoxT<F, P>(base.template poly<F>());
  if (s.distribute) return new (mem) BoxT<F, S>(base.template sos<F>(embedded::signal::sos_gain::distribute));
  return new (mem) BoxT<F, S>(base.template sos<F>());
}
template <class D, class C> auto base_design(Spec const& s, C const& c) {
  embedded::signal::iirfilter<D> fl(static_cast<D>(s.fs));
  return s.hp ? fl.highpass(c, static_cast<D>(s.f)) : fl.lowpass(c, static_cast<D>(s.f));
}
template <size_t N, class D = double> auto any_design(Spec const& s) {
  using namespace embedded::signal;
  switch (s.family) {
  case 0: return base_design<D>(s, butterworth<N>());
  case 1: return base_design<D>(s, chebyshev1<N>(s.ripple));
  case 2: return base_design<D>(s, chebyshev2<N>(s.ripple));
  default: return base_design<D>(s, bessel<N>());
  }
}
#if PROP(S05)
// High orders, and designs made in single precision, are for S05 only.
template <size_t N> Box* make_big(Spec const& s, void* mem, size_t room) {
  auto const base = any_design<N>(s);
  if (s.fk == FLOAT) return boxed<float>(base, s, mem, room);
  return boxed<double>(base, s, mem, room);
}
template <size_t N> Box* make_sections(Spec const& s, void* mem, size_t room) {
  auto const base = any_design<N>(s);
  using S = decltype(base.template sos<double>());
  if (sizeof(BoxT<double, S>) > room) sim::harness_error("no room for a design");
  if (s.distribute) return new (mem) BoxT<double, S>(base.template sos<double>(embedded::signal::sos_gain::distribute));
  return new (mem) BoxT<double, S>(base.template sos<double>());
}
// the poles, zeros and gain of a specification
template <class C> void analog(C const& c, Analog& r) {
  auto const sp = c.template spec<double>();
  auto const p = sp.poles();
  auto const z = sp.zeros();
  r.p.clear();
  r.z.clear();
  for (size_t i = 0; i < p.size(); ++i) r.p.emplace_back(p[i].real(), p[i].imag());
  for (size_t i = 0; i < z.size(); ++i) r.z.emplace_back(z[i].real(), z[i].imag());
  // how a design puts them together: the numbers it starts from
  auto const zpk = sp.zpk();
  r.gain = static_cast<double>(zpk.gain());
}
template <size_t N> void analog_bessel(Spec const&, Analog& r) { Observe o; analog(embedded::signal::bessel<N>(), r); }
template <size_t N> void analog_any(Spec const& s, Analog& r) {
  using namespace embedded::signal;
  Observe o;
  switch (s.family) {
  case 0: analog(butterworth<N>(), r); break;
  case 1: analog(chebyshev1<N>(s.ripple), r); break;
  case 2: analog(chebyshev2<N>(s.ripple), r); break;
  default: analog(bessel<N>(), r);
  }
}
template <size_t First, size_t... I> void enter_bessel(std::index_sequence<I...>) { ((g_bessel[First + I] = analog_bessel<First + I>), ...); }
#endif
template <size_t N> Box* make_n(Spec const& s, void* mem, size_t room) {
#if PROP(S05)
  if constexpr (N == 2 || N == 3 || N == 4 || N == 6)
    if (s.design_in_float) {
      auto const base = any_design<N, float>(s);
      if (s.fk == FLOAT) return boxed<float>(base, s, mem, room);
      return boxed<double>(base, s, mem, room);
    }
#endif
  auto const base = any_design<N>(s);
  switch (s.fk) {
  case FLOAT: return boxed<float>(base, s, mem, room);
  case DOUBLE: return boxed<double>(base, s, mem, room);
#ifdef REDUCED
  default: return nullptr;
#else
  default: return boxed<Z64>(base, s, mem, room);
#endif
  }
}
#if (PROP(S01) || PROP(S02)) && !defined ONLY_A01 && !defined REDUCED
#define HIGH_ORDERS
// high orders, of integers: what the forms compute does not depend on where the
// coefficients come from
template <size_t N> Box* make_high(Spec const& s, void* mem, size_t room) {
  return boxed<Z64>(base_design<double>(s, embedded::signal::butterworth<N>()), s, mem, room);
}
#endif
bool enter_part() {
#if PART == 0
  g_make[1] = make_n<1>; g_make[6] = make_n<6>; g_make[8] = make_n<8>;
#elif PART == 1
  g_make[2] = make_n<2>; g_make[5] = make_n<5>; g_make[9] = make_n<9>;
#elif PART == 2
  g_make[3] = make_n<3>; g_make[7] = make_n<7>; g_make[10] = make_n<10>;
#elif PART == 3
  g_make[4] = make_n<4>; g_make[12] = make_n<12>;
#endif
#ifdef HIGH_ORDERS
#if PART == 0
  g_make[16] = make_high<16>;
#elif PART == 1
  g_make[17] = make_high<17>;
#elif PART == 2
  g_make[13] = make_high<13>; g_make[24] = make_high<24>;
#elif PART == 3
  g_make[33] = make_high<33>;
#endif
#endif
#if PROP(S05)
#if PART == 0
  g_make[11] = make_big<11>; g_make[20] = make_big<20>;
#elif PART == 1
  g_make[13] = make_big<13>; g_make[18] = make_big<18>;
#elif PART == 2
  g_make[14] = make_big<14>; g_make[17] = make_big<17>;
#elif PART == 3
  g_make[15] = make_big<15>; g_make[16] = make_big<16>;
#elif PART == 4
  g_make[19] = make_sections<19>; g_make[21] = make_sections<21>; g_make[22] = make_sections<22>; g_make[23] = make_sections<23>;
#elif PART == 5
  g_make[24] = make_sections<24>; g_make[31] = make_sections<31>; g_make[32] = make_sections<32>;
#elif PART == 6
  g_make[40] = make_sections<40>; g_make[41] = make_sections<41>;
#elif PART == 7 && !defined REDUCED
  enter_bessel<1>(std::make_index_sequence<100>());
  g_analog[1] = analog_any<1>; g_analog[2] = analog_any<2>; g_analog[3] = analog_any<3>; g_analog[4] = analog_any<4>;
  g_analog[5] = analog_any<5>; g_analog[6] = analog_any<6>; g_analog[7] = analog_any<7>; g_analog[12] = analog_any<12>;
  g_analog[19] = analog_any<19>; g_analog[20] = analog_any<20>; g_analog[33] = analog_any<33>; g_analog[64] = analog_any<64>;
#endif
#endif
  return true;
}
[[maybe_unused]] bool const entered = enter_part();

#if PART == 0
// ------------------------------------------------------------------ designs
const char* const family_name[] = {"butterworth", "chebyshev1", "chebyshev2", "bessel"};
[[maybe_unused]] Spec draw_spec(int max_order) {
  Spec s;
  s.family = static_cast<int>(draw(4));
  do s.order = static_cast<int>(range(1, static_cast<uint32_t>(max_order))); while (!g_make[s.order]);
  s.hp = draw(2);
  s.sos = !draw(2);
  s.distribute = draw(2);
  s.fk = static_cast<FK>(draw(NFK));
  static const double rates[] = {1000, 1, 48000, 2, 44100, 12.5};
  s.fs = rates[draw(6)];
  s.f = s.fs * (0.02 + 0.46 * (draw(1000) / 1000.0));
  s.ripple = s.family == 1 ? 0.1 + draw(40) * 0.1 : 15 + draw(60);
  return s;
}
[[maybe_unused]] Spec draw_spec_up(int max_order) { // sometimes of a high order
  Spec s = draw_spec(max_order);
  static const int high[] = {13, 16, 17, 24, 33};
  int const o = high[draw(5)];
  if (coin(8) && g_make[o]) {
    s.order = o;
    s.family = 0;
    s.fk = RING;
    STAT("probe.high_orders");
  }
  return s;
}
[[maybe_unused]] void trace_spec(Spec const& s) {
  TRACE("design: %s %s, order %d, fs %g, f %g, ripple %g, %s%s, samples %s", family_name[s.family], s.hp ? "highpass" : "lowpass", s.order,
        s.fs, s.f, s.ripple, s.sos ? "sections" : "polynomial", s.sos && s.distribute ? " (gain distributed)" : "", fk_name[s.fk]);
}
// a design lives in simulated memory
[[maybe_unused]] Box* build(Spec const& s, Zone& z) {
  z = zone(4096, 64, 64);
  return g_make[s.order](s, z.p, 4096);
}
// garbage the instance's memory contains beforehand
[[maybe_unused]] void soil(Zone const& z) {
  switch (draw(4)) {
  case 0: memset(z.p, 0, z.n); break;
  case 1: memset(z.p, 0xff, z.n); break;
  case 2: break; // the arena's poison
  default: for (size_t i = 0; i + 8 <= z.n; i += 8) { u64 v = sim::mix(i, draw(1000)) >> 2; memcpy(z.p + i, &v, 8); }
  }
}
// ------------------------------------------------------------------ streams
struct Stream { // input generator
  FK fk;
  uint32_t shape = 0, period = 1;
  Real amp = 1;
  u64 n = 0;
  static Stream make(FK fk) {
    Stream s;
    s.fk = fk;
    s.shape = draw(8);
    s.period = range(1, 40);
    static const Real amps[] = {1, 1e3L, 1e-3L, 1e6L, 32767, 1e-30L, 1e12L, 1e-12L, 1e18L, 0};
    s.amp = amps[draw(10)];
    if (s.amp == 0) s.amp = fk == FLOAT ? 1e23L : 1e100L;
    return s;
  }
  u64 next() {
    u64 i = n++;
    if (fk == RING) {
      switch (shape) {
      case 0: return i == 0;
      case 1: return 1;
      case 2: return sim::draw64();
      case 3: return i % period == 0 ? sim::draw64() : 0;
      default: return draw(1000);
      }
    }
    Real v;
    switch (shape) {
    case 0: v = i == 0; break;
    case 1: v = 1; break;
    case 2: v = i % (2 * period) < period ? 1 : -1; break;
    case 3: v = (static_cast<Real>(draw(2000001)) - 1000000) / 1000000; break;
    case 4: v = static_cast<Real>(i % period) / period; break;
    case 5: v = draw(20) == 19 ? (static_cast<Real>(draw(2001)) - 1000) / 10 : 0; break; // bursts
    case 6: v = i < period ? 0 : (static_cast<Real>(draw(2001)) - 1000) / 1000; break;  // silence first
    default: v = sinl(2 * 3.14159265358979323846L * static_cast<Real>(i) / (period + 2)); break;
    }
    return bits_of(fk, v * amp);
  }
};

// -------------------------------------------------------- reference equation
// Real: extended precision, with a bound on the rounding error of any direct
// evaluation (direct form I, II or transposed) in the sample type.
struct RealRef {
  struct S {
    std::vector<Real> b, a;   // a[0] == 1
    std::vector<Real> g, hh;  // |impulse response| of 1/A and of B/A
    std::vector<Real> x, y, w, t, d1, d2, e2, e; // histories, oldest first
    Real sb = 0, sa = 0, peak = 0;
  };
  std::vector<S> s;
  Real eps, tiny;
  Real dev = 0;   // relative deviation allowed to each coefficient
  bool ok = true; // well-conditioned enough to be judged
  Real gain_g = 0;
  // exact coefficients; the filter's own may deviate from them by `d`
  RealRef(FK fk, std::vector<std::pair<std::vector<Real>, std::vector<Real>>> const& e, Real d) : dev(d) {
    eps = fk == FLOAT ? std::numeric_limits<float>::epsilon() : std::numeric_limits<double>::epsilon();
    tiny = fk == FLOAT ? std::numeric_limits<float>::min() : std::numeric_limits<double>::min();
    for (auto const& q : e) {
      S t;
      t.b = q.first;
      t.a = q.second;
      for (Real v : t.b) t.sb += fabsl(v);
      for (Real v : t.a) t.sa += fabsl(v);
      if (ok) responses(t);
      s.push_back(std::move(t));
    }
  }
  RealRef(FK fk, std::vector<Sec> const& e) {
    eps = fk == FLOAT ? std::numeric_limits<float>::epsilon() : std::numeric_limits<double>::epsilon();
    tiny = fk == FLOAT ? std::numeric_limits<float>::denorm_min() : std::numeric_limits<double>::denorm_min();
    for (auto const& q : e) {
      S t;
      for (u64 v : q.b) t.b.push_back(real_of(fk, v));
      for (u64 v : q.a) t.a.push_back(real_of(fk, v));
      t.a[0] = 1;
      for (Real v : t.b) { t.sb += fabsl(v); if (!std::isfinite(v)) ok = false; }
      for (Real v : t.a) { t.sa += fabsl(v); if (!std::isfinite(v)) ok = false; }
      if (ok) responses(t);
      s.push_back(std::move(t));
    }
  }
  void responses(S& t) {
    size_t const L = dev > 0 ? 3000 : 1500;
    Real const tail = dev > 0 ? 1e-13L : 1e-24L;
    std::vector<Real> g(L), h(L);
    Real peak = 0, sum = 0;
    size_t len = 0;
    for (size_t n = 0; n < L; ++n) {
      Real v = n == 0;
      for (size_t k = 1; k < t.a.size() && k <= n; ++k) v -= t.a[k] * g[n - k];
      g[n] = v;
      Real u = 0;
      for (size_t k = 0; k < t.b.size() && k <= n; ++k) u += t.b[k] * g[n - k];
      h[n] = u;
      peak = std::max(peak, fabsl(v));
      sum += fabsl(v);
      if (!(peak < 1e9L)) { ok = false; return; }
      if (fabsl(v) > peak * tail) len = n + 1;
      else if (n > len + 40) break;
    }
    if (len >= L) { ok = false; return; } // rings too long to judge
    g.resize(len);
    h.resize(len);
    for (auto& v : g) v = fabsl(v);
    for (auto& v : h) v = fabsl(v);
    t.g = std::move(g);
    t.hh = std::move(h);
    gain_g = std::max(gain_g, sum);
  }
  static Real conv(std::vector<Real> const& k, std::vector<Real> const& v) { // newest value of |k| * v
    Real r = 0;
    size_t n = std::min(k.size(), v.size());
    for (size_t i = 0; i < n; ++i) r += k[i] * v[v.size() - 1 - i];
    return r;
  }
  static Real at(std::vector<Real> const& v, size_t back) { return back < v.size() ? v[v.size() - 1 - back] : 0; }
  // where rounding errors outgrow what causes them nothing can be said
  static Real bound(Real t) { return t < 1e1000L ? t : 1e1000L; }
  struct Out { Real y, tol; };
  Out next(Real v) {
    Real tin = 0;
    for (S& q : s) {
      Real const K = 8 * static_cast<Real>(q.a.size() + 2) * eps;
      q.x.push_back(v);
      q.t.push_back(tin);
      Real y = 0, w = v, m = 0;
      // the filter's own inputs and outputs are off by up to t and e; rounding
      // errors are in proportion to them, not to the exact values
      for (size_t i = 0; i < q.b.size(); ++i) { y += q.b[i] * at(q.x, i); m += fabsl(q.b[i]) * (fabsl(at(q.x, i)) + at(q.t, i)); }
      for (size_t i = 1; i < q.a.size(); ++i) {
        Real yi = at(q.y, i - 1), wi = at(q.w, i - 1);
        y -= q.a[i] * yi;
        m += fabsl(q.a[i]) * (fabsl(yi) + at(q.e, i - 1));
        w -= q.a[i] * wi;
      }
      q.y.push_back(y);
      q.w.push_back(w);
      m += fabsl(y) + tin;
      Real md = 0; // effect of deviating coefficients
      if (dev > 0) {
        for (size_t i = 0; i < q.b.size(); ++i) md += q.sb * fabsl(at(q.x, i));
        for (size_t i = 0; i < q.a.size(); ++i) md += q.sa * (fabsl(at(q.y, i)) + (i ? at(q.e, i - 1) : 0)); // the filter's outputs deviate, too
        md *= dev;
        q.peak = std::max(q.peak, fabsl(y) + fabsl(at(q.x, 0)));
        md += q.peak * 1e-22L; // what `responses` cut off
      }
      Real mw = 0, mb = 0;
      for (size_t i = 0; i < q.a.size(); ++i) mw += fabsl(q.a[i]) * (fabsl(at(q.w, i)) + (i ? at(q.e2, i - 1) : 0));
      q.d1.push_back(K * m + md + 8 * tiny);
      q.d2.push_back(K * (mw + fabsl(v) + tin) + 8 * tiny);
      // transposed states carry errors made up to `order` steps earlier
      Real back1 = 0;
      for (size_t i = 0; i < q.a.size(); ++i) back1 += conv_at(q.g, q.d1, i);
      Real e1 = back1;
      q.e2.push_back(bound(conv(q.g, q.d2)));
      for (size_t i = 0; i < q.b.size(); ++i) mb += fabsl(q.b[i]) * (fabsl(at(q.w, i)) + at(q.e2, i));
      Real e2 = K * mb;
      for (size_t i = 0; i < q.b.size(); ++i) e2 += fabsl(q.b[i]) * at(q.e2, i);
      Real tout = bound(conv(q.hh, q.t) + 4 * std::max(e1, e2));
      q.e.push_back(tout);
      v = y;
      tin = tout;
    }
    return {v, tin};
  }
  static Real conv_at(std::vector<Real> const& k, std::vector<Real> const& v, size_t back) {
    Real r = 0;
    if (v.size() <= back) return 0;
    size_t n = std::min(k.size(), v.size() - back);
    for (size_t i = 0; i < n; ++i) r += k[i] * v[v.size() - 1 - back - i];
    return r;
  }
};

#if PROP(S01)
// ------------------------------------------------------------------- S01
struct Inst {
  Box* box;
  Zone z;
  std::vector<u64> in, out;
};
void run_s01() {
  run_reset();
  uint32_t nd = range(1, 3);
  std::vector<Box*> designs;
  std::vector<Zone> dz(nd);
  for (uint32_t i = 0; i < nd; ++i) {
    Spec s = draw_spec_up(12);
    trace_spec(s);
    designs.push_back(build(s, dz[i]));
  }
  uint32_t gaps[] = {4, 15, 60, 0};
  sim::set_preempt_max_gap(gaps[draw(4)]);
  sim::watch(9, nullptr, ~size_t(0) / 2);
  sim::set_observer([](sim::MemEvent const&) { sim::preempt_point(); });
  int nt = static_cast<int>(range(2, 4));
  std::vector<std::vector<Inst>> all(static_cast<size_t>(nt));
  for (int t = 0; t < nt; ++t) {
    uint32_t ops = range(3, 18);
    sim::spawn([&all, &designs, t, ops] {
      auto& mine = all[static_cast<size_t>(t)];
      std::vector<Stream> str;
      for (uint32_t k = 0; k < ops; ++k) {
        sim::Span sp;
        STAT("ops");
        uint32_t op = draw(8);
        if (mine.empty() || (op == 0 && mine.size() < 5)) {
          Box* b = designs[draw(static_cast<uint32_t>(designs.size()))];
          Inst x{b, zone(b->isize(), b->ialign(), 32), {}, {}};
          soil(x.z);
          b->make(x.z.p, draw(2));
          str.push_back(Stream::make(b->fk));
          mine.push_back(std::move(x));
          TRACE("task %d: new instance %zu", t, mine.size() - 1);
          continue;
        }
        size_t i = draw(static_cast<uint32_t>(mine.size()));
        if (op <= 4) {
          uint32_t n = range(1, 12);
          TRACE("task %d: instance %zu takes %u samples", t, i, n);
          for (uint32_t q = 0; q < n; ++q) {
            u64 x = str[i].next(), y = mine[i].box->feed(mine[i].z.p, x);
            mine[i].in.push_back(x);
            mine[i].out.push_back(y);
            ev(y);
          }
          if (draw(2)) sim::yield();
        } else if (op == 5 && mine.size() < 5) { // copy
          Inst& o = mine[i];
          bool mv = draw(3) == 2;
          Inst x{o.box, zone(o.box->isize(), o.box->ialign(), 32), o.in, o.out};
          soil(x.z);
          TRACE("task %d: instance %zu is a %s of %zu", t, mine.size(), mv ? "moved copy" : "copy", i);
          STAT("probe.copied_mid_stream");
          o.box->copy(x.z.p, o.z.p, mv);
          Stream s2 = Stream::make(o.box->fk); // original and copy now get different inputs
          bool same_input = draw(2);
          str.push_back(same_input ? str[i] : s2);
          mine.push_back(std::move(x));
          if (mv) { // the source is unspecified: gone
            mine[i].box->destroy(mine[i].z.p);
            mine.erase(mine.begin() + static_cast<std::ptrdiff_t>(i));
            str.erase(str.begin() + static_cast<std::ptrdiff_t>(i));
          }
        } else if (op == 6 && mine.size() >= 2) { // assign
          size_t j = draw(static_cast<uint32_t>(mine.size()));
          if (mine[i].box != mine[j].box) continue;
          STAT("probe.assigned_mid_stream");
          TRACE("task %d: instance %zu is assigned instance %zu", t, i, j);
          mine[i].box->assign(mine[i].z.p, mine[j].z.p, false);
          if (i != j) { mine[i].in = mine[j].in; mine[i].out = mine[j].out; }
        } else if (op == 7) {
          sim::sleep_until(sim::now + range(1, 20));
          STAT("fault.stalled_task");
        }
      }
    }, "feeder");
  }
  std::vector<std::vector<unsigned char>> img;
  for (auto const& z : dz) img.emplace_back(z.p, z.p + z.n);
  sim::run_tasks(400000);
  sim::unwatch_all();
  for (size_t i = 0; i < dz.size(); ++i)
    CHECK(!memcmp(img[i].data(), dz[i].p, dz[i].n), "design-written", "running instances changed their design");
  ev(sim::sched_hash());
  size_t k = 0;
  for (auto& v : all)
    for (Inst& x : v) { // the same stream, alone
      Zone z = zone(x.box->isize(), x.box->ialign(), 32);
      soil(z);
      x.box->make(z.p, false);
      for (size_t n = 0; n < x.in.size(); ++n) {
        u64 y = x.box->feed(z.p, x.in[n]);
        CHECK(y == x.out[n], "isolation", "sample %zu of instance %zu (%s) differs from the same stream fed to an instance alone", n, k, fk_name[x.box->fk]);
      }
      x.box->destroy(z.p);
      CHECK(x.z.redzones_ok() && z.redzones_ok(), "outside", "memory beside an instance was written");
      x.box->destroy(x.z.p);
      sim::cover_state(sim::mix(x.in.size(), x.box->isize()));
      ++k;
    }
}
#endif

#if PROP(S02)
// ------------------------------------------------------------------- S02
void run_s02() {
  run_reset();
  Spec s = draw_spec_up(12);
  trace_spec(s);
  Zone dz;
  Box* b = build(s, dz);
  auto const eq = b->equation();
  uint32_t rounds = range(1, 3);
  Zone z = zone(b->isize(), b->ialign(), 64);
  if (s.fk == RING) STAT("exact_streams"); else if (s.fk == FLOAT) STAT("float_streams"); else STAT("double_streams");
  for (uint32_t r = 0; r < rounds; ++r) { // a new instance in the memory of the previous one
    sim::Span sp;
    if (r == 0 || draw(2)) soil(z);
    b->make(z.p, draw(2));
    Stream str = Stream::make(s.fk);
    uint32_t len = range(1, draw(4) == 3 ? 400 : 60);
    u64 h = 0;
    if (s.fk == RING) {
      if (coin(1000)) { // a long time passes
        len += 66000;
        STAT("probe.long_streams");
      }
      RingRef ref(eq);
      for (uint32_t n = 0; n < len; ++n) {
        u64 x = str.next(), y = b->feed(z.p, x), want = ref.next(x);
        TRACE("x[%u]=%llx y=%llx", n, (unsigned long long)x, (unsigned long long)y);
        CHECK(y == want, "equation", "sample %u: output %016llx, the difference equation gives %016llx (order %d, %s)", n,
              (unsigned long long)y, (unsigned long long)want, s.order, s.sos ? "sections" : "polynomial");
        h = sim::mix(h, y);
      }
    } else {
      RealRef ref(s.fk, eq);
      if (!ref.ok) { STAT("skipped.ill_conditioned"); b->destroy(z.p); continue; }
      for (uint32_t n = 0; n < len; ++n) {
        u64 x = str.next(), y = b->feed(z.p, x);
        auto want = ref.next(real_of(s.fk, x));
        TRACE("x[%u]=%Lg y=%Lg (exact %Lg, tolerance %Lg)", n, real_of(s.fk, x), real_of(s.fk, y), want.y, want.tol);
        CHECK(fabsl(real_of(s.fk, y) - want.y) <= want.tol, "equation", "sample %u: output %.12Lg, the difference equation gives %.12Lg (tolerance %.3Lg; order %d, %s)", n,
              real_of(s.fk, y), want.y, want.tol, s.order, s.sos ? "sections" : "polynomial");
        if (n && want.tol < fabsl(want.y) * 1e-3L) STAT("probe.tight_samples");
        else STAT("probe.loose_samples");
        h = sim::mix(h, y);
      }
    }
    ev(h);
    for (uint32_t i = 0; i < 10; ++i) ev(i);
    CHECK(z.redzones_ok(), "outside", "memory beside an instance was written");
    b->destroy(z.p);
    sim::cover_state(sim::mix(sim::mix(static_cast<u64>(s.family * 2 + s.hp), static_cast<u64>(s.order)), sim::mix(s.fk * 4 + s.sos * 2 + s.distribute, str.shape)));
  }
}
#endif

#if PROP(S03)
// ------------------------------------------------------------------- S03
void run_s03() {
  run_reset();
  Spec s = draw_spec(12);
  if (s.fk == RING) s.fk = DOUBLE;
  trace_spec(s);
  Zone dz;
  Box* b = build(s, dz);
  auto const eq = b->equation();
  RealRef ra(s.fk, eq), rb(s.fk, eq);
  if (!ra.ok) { STAT("skipped.unstable_or_slow"); return; }
  Zone za = zone(b->isize(), b->ialign(), 64), zb = zone(b->isize(), b->ialign(), 64);
  b->make(za.p, false);
  b->make(zb.p, false);
  Stream str = Stream::make(s.fk);
  // common start
  uint32_t pre = draw(60);
  std::vector<u64> h;
  for (uint32_t n = 0; n < pre; ++n) h.push_back(str.next());
  uint32_t win = range(1, 40);
  std::vector<u64> w;
  for (uint32_t n = 0; n < win; ++n) w.push_back(str.next());
  std::vector<u64> d = w; // the disturbed window
  uint32_t nf = range(1, 4);
  Real const burst = s.fk == FLOAT ? 1e9L : 1e18L;
  for (uint32_t i = 0; i < nf; ++i) {
    sim::Span sp;
    size_t at = d.empty() ? 0 : draw(static_cast<uint32_t>(d.size()));
    switch (draw(6)) {
    case 0: if (!d.empty()) d.erase(d.begin() + static_cast<std::ptrdiff_t>(at)); STAT("fault.sample_lost"); break;
    case 1: if (!d.empty()) d.insert(d.begin() + static_cast<std::ptrdiff_t>(at), d[at]); STAT("fault.sample_duplicated"); break;
    case 2: if (at + 1 < d.size()) std::swap(d[at], d[at + 1]); STAT("fault.samples_swapped"); break;
    case 3:
      if (!d.empty()) { // one bit flips; results that are no number are not samples
        u64 v = d[at] ^ (u64(1) << draw(s.fk == FLOAT ? 32 : 64));
        Real rv = real_of(s.fk, v);
        if (std::isfinite(rv) && fabsl(rv) <= burst) d[at] = v;
        STAT("fault.bit_flip");
      }
      break;
    case 4: for (size_t k = at; k < d.size() && k < at + 5; ++k) d[k] = bits_of(s.fk, burst * (draw(2) ? 1 : -1)); STAT("fault.burst"); break;
    default: for (size_t k = at; k < d.size(); ++k) d[k] = 0; STAT("fault.dropout"); break;
    }
  }
  auto feed = [&](Zone const& z, RealRef& r, u64 x, Real& y, Real& ry, Real& tol) {
    y = real_of(s.fk, b->feed(z.p, x));
    auto o = r.next(real_of(s.fk, x));
    ry = o.y;
    tol = o.tol;
  };
  Real ya, yb, xa, xb, ta, tb;
  for (u64 x : h) { feed(za, ra, x, ya, xa, ta); feed(zb, rb, x, yb, xb, tb); }
  for (u64 x : w) feed(za, ra, x, ya, xa, ta);
  Real worst = 0;
  for (u64 x : d) { feed(zb, rb, x, yb, xb, tb); worst = std::max(worst, fabsl(yb)); }
  // the same samples again: the outputs must come together as the poles say
  uint32_t len = range(20, 500);
  bool forgotten = false;
  u64 hash = 0;
  for (uint32_t n = 0; n < len; ++n) {
    u64 x = str.next();
    feed(za, ra, x, ya, xa, ta);
    feed(zb, rb, x, yb, xb, tb);
    Real allowed = fabsl(xa - xb) + ta + tb;
    TRACE("common sample %u: undisturbed %Lg, disturbed %Lg, allowed difference %Lg", n, ya, yb, allowed);
    CHECK(fabsl(ya - yb) <= allowed, "not-forgotten", "%u samples after the disturbance the outputs still differ by %.6Lg; the poles allow %.6Lg (order %d, %s)", n + 1,
          fabsl(ya - yb), allowed, s.order, s.sos ? "sections" : "polynomial");
    if (allowed < worst * 1e-6L) forgotten = true;
    hash = sim::mix(hash, bits_of(DOUBLE, ya) ^ bits_of(DOUBLE, yb) * 3);
  }
  if (forgotten) STAT("probe.disturbance_decayed_to_1e-6");
  ev(hash);
  for (uint32_t i = 0; i < 10; ++i) ev(i, len);
  sim::cover_state(sim::mix(sim::mix(static_cast<u64>(s.family * 2 + s.hp), static_cast<u64>(s.order)), s.fk * 4 + s.sos * 2 + forgotten));
}
#endif

#if PROP(S04)
// ------------------------------------------------------------------- S04
void run_s04() {
  run_reset();
  Spec s = draw_spec(10);
  s.fk = s.order <= 4 && draw(3) == 2 ? FLOAT : DOUBLE;
  s.f = s.fs * (0.06 + 0.38 * (draw(1000) / 1000.0));
  Spec p = s;
  s.sos = true;
  p.sos = false;
  trace_spec(s);
  Zone d1, d2;
  Box *bs = build(s, d1), *bp = build(p, d2);
  auto const es = bs->equation(), ep = bp->equation();
  RealRef rs(s.fk, es), rp(p.fk, ep);
  if (!rs.ok || !rp.ok) { STAT("skipped.ill_conditioned"); return; }
  // how far rounding of the coefficients can move the output
  Real ca = 1, cb = 1;
  for (auto const& q : rs.s) { ca *= q.sa; cb *= q.sb; }
  Real const eps = rs.eps, K = 200 * eps * static_cast<Real>(s.order + 1);
  Real da = K * ca * static_cast<Real>(s.order + 1), db = K * cb * static_cast<Real>(s.order + 1);
  Real ga = 0, hp = 0;
  for (Real v : rp.s[0].g) ga += v;
  for (Real v : rp.s[0].hh) hp += v;
  if (ga * da > 0.5L) { STAT("skipped.ill_conditioned"); return; }
  Zone zs = zone(bs->isize(), bs->ialign(), 64), zp = zone(bp->isize(), bp->ialign(), 64);
  bs->make(zs.p, draw(2));
  bp->make(zp.p, draw(2));
  Stream str = Stream::make(s.fk);
  uint32_t len = range(1, 200);
  std::vector<u64> in, os, op;
  for (uint32_t n = 0; n < len; ++n) in.push_back(str.next());
  // each stream on its own task, interrupted and resumed independently
  uint32_t gaps[] = {6, 40, 300, 0};
  sim::set_preempt_max_gap(gaps[draw(4)]);
  sim::watch(9, nullptr, ~size_t(0) / 2);
  sim::set_observer([](sim::MemEvent const&) { sim::preempt_point(); });
  auto task = [&in](Box* b, Zone z, std::vector<u64>* out) {
    for (u64 x : in) {
      out->push_back(b->feed(z.p, x));
      if (draw(30) == 29) { STAT("fault.stalled_task"); sim::sleep_until(sim::now + range(1, 9)); }
    }
  };
  sim::spawn([&] { task(bs, zs, &os); }, "sections");
  sim::spawn([&] { task(bp, zp, &op); }, "polynomial");
  sim::run_tasks(400000);
  sim::unwatch_all();
  Real xm = 0, ym = 0;
  u64 hash = 0;
  for (uint32_t n = 0; n < len; ++n) {
    Real x = real_of(s.fk, in[n]), ys = real_of(s.fk, os[n]), yp = real_of(s.fk, op[n]);
    auto a = rs.next(x), c = rp.next(x);
    xm = std::max(xm, fabsl(x));
    ym = std::max(std::max(ym, fabsl(a.y)), fabsl(c.y));
    Real tol = a.tol + c.tol + 2 * ga * (da * ym + db * xm);
    TRACE("x[%u]=%Lg sections %Lg polynomial %Lg (tolerance %Lg)", n, x, ys, yp, tol);
    CHECK(fabsl(ys - yp) <= tol, "forms-differ", "sample %u: sections give %.12Lg, polynomial gives %.12Lg (tolerance %.3Lg; %s %s order %d)", n, ys, yp, tol,
          family_name[s.family], s.hp ? "highpass" : "lowpass", s.order);
    if (tol < 1e-3L * hp * xm) STAT("probe.tight_samples");
    else STAT("probe.loose_samples");
    hash = sim::mix(hash, os[n]);
  }
  ev(hash);
  ev(sim::sched_hash());
  for (uint32_t i = 0; i < 10; ++i) ev(i, len);
  sim::cover_state(sim::mix(sim::mix(static_cast<u64>(s.family * 2 + s.hp), static_cast<u64>(s.order)), s.fk * 4 + s.distribute));
}
#endif
#if PROP(S05)
#include "design.h"
#endif
#endif // PART == 0
} // namespace

#ifdef ONLY_A01
#if PART == 0
namespace { bool const component = h::add_component("filters", run_s02); }
#endif
#elif PART == 0
namespace sim {
const Harness harnesses[] = {
#if PROP(S01)
    {"S01", run_s01, "instances"},
#elif PROP(S02)
    {"S02", run_s02, "difference equation"},
#elif PROP(S03)
    {"S03", run_s03, "disturbances"},
#elif PROP(S04)
    {"S04", run_s04, "forms"},
#elif PROP(S05)
    {"S05", run_s05, "specifications"},
#endif
};
const size_t n_harnesses = sizeof harnesses / sizeof harnesses[0];
} // namespace sim
#endif
