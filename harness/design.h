// S05: a filter, run, does what its specification says. The textbook design of
// each family, in extended precision and independent of the library; included
// by filter.cpp.
using Cx = std::complex<Real>;
using Wide = __float128; // for the roots of the Bessel polynomials
struct CxW { Wide re, im; };
inline CxW operator+(CxW a, CxW b) { return {a.re + b.re, a.im + b.im}; }
inline CxW operator-(CxW a, CxW b) { return {a.re - b.re, a.im - b.im}; }
inline CxW operator*(CxW a, CxW b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
inline CxW operator*(CxW a, Real b) { return {a.re * b, a.im * b}; }
inline CxW operator/(CxW a, CxW b) {
  Wide d = b.re * b.re + b.im * b.im;
  return {(a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d};
}
// The roots z_i of the reverse Bessel polynomial y of order n: from
// s y'' - 2(s+n) y' + 2n y = 0 follows sum_(j != i) 1/(z_i - z_j) = 1 + n/z_i,
// which determines them and is well conditioned.  The step Newton's method
// makes from approximate roots, that is, how far they are off.
inline std::vector<Cx> bessel_step(std::vector<Cx> const& z) {
  size_t const n = z.size();
  std::vector<std::vector<Cx>> m(n, std::vector<Cx>(n + 1));
  for (size_t i = 0; i < n; ++i) {
    Cx sum = 0, sq = 0;
    for (size_t j = 0; j < n; ++j)
      if (j != i) {
        Cx const r = Cx(1) / (z[i] - z[j]);
        sum += r;
        sq += r * r;
        m[i][j] = r * r;
      }
    m[i][i] = static_cast<Real>(n) / (z[i] * z[i]) - sq;
    m[i][n] = Cx(1) + static_cast<Real>(n) / z[i] - sum;
  }
  for (size_t k = 0; k < n; ++k) { // solve
    size_t best = k;
    for (size_t i = k; i < n; ++i)
      if (std::abs(m[i][k]) > std::abs(m[best][k])) best = i;
    std::swap(m[k], m[best]);
    for (size_t i = k + 1; i < n; ++i) {
      Cx const f = m[i][k] / m[k][k];
      for (size_t j = k; j <= n; ++j) m[i][j] -= f * m[k][j];
    }
  }
  std::vector<Cx> d(n);
  for (size_t k = n; k-- > 0;) {
    Cx v = m[k][n];
    for (size_t j = k + 1; j < n; ++j) v -= m[k][j] * d[j];
    d[k] = v / m[k][k];
  }
  return d;
}
// the n-th root of the product of the roots, (2n-1)!!
inline Real bessel_scale(size_t n) {
  Wide scale = 1;
  for (int it = 0; it < 4; ++it) {
    Wide f = 1;
    if (it == 0) {
      Real t = 0;
      for (size_t k = 1; k <= n; ++k) t += logl(static_cast<Real>(2 * k - 1));
      scale = expl(t / static_cast<Real>(n));
    }
    for (size_t k = 1; k <= n; ++k) f *= scale / static_cast<Wide>(2 * k - 1);
    scale -= scale * (f - 1) / (static_cast<Wide>(n) * f);
  }
  return static_cast<Real>(scale);
}
// poles of the Bessel filter whose poles' product is 1 (for orders to 50)
inline std::vector<Cx> const& bessel_roots(size_t n) {
  static std::vector<Cx> memo[kOrders];
  if (!memo[n].empty()) return memo[n];
  Real const scale = bessel_scale(n);
  std::vector<CxW> u(n);
  for (size_t i = 0; i < n; ++i) {
    Real const ang = 3.14159265358979323846264L * (0.5L + (static_cast<Real>(i) + 0.5L) / static_cast<Real>(n));
    u[i] = {scale * cosl(ang), scale * (sinl(ang) + 1e-3L)};
  }
  for (int it = 0; it < 300; ++it) { // Aberth, theta_k = (2k-1) theta_(k-1) + s^2 theta_(k-2)
    Wide worst = 0;
    for (size_t i = 0; i < n; ++i) {
      CxW const s = u[i];
      CxW a{1, 0}, b{s.re + 1, s.im}, da{0, 0}, db{1, 0};
      for (size_t k = 2; k <= n; ++k) {
        CxW const f{static_cast<Wide>(2 * k - 1), 0}, ss = s * s;
        CxW const c = f * b + ss * a, dc = f * db + s * a + s * a + ss * da;
        a = b; b = c; da = db; db = dc;
      }
      CxW sum{0, 0};
      for (size_t j = 0; j < n; ++j)
        if (j != i) sum = sum + CxW{1, 0} / (s - u[j]);
      CxW const q = b / db, st = q / (CxW{1, 0} - q * sum);
      u[i] = s - st;
      Wide const m = (st.re * st.re + st.im * st.im) / (static_cast<Wide>(scale) * scale);
      if (m > worst) worst = m;
    }
    if (worst < static_cast<Wide>(1e-14L)) break;
  }
  std::vector<Cx> r;
  for (auto const& q : u) r.emplace_back(static_cast<Real>(q.re), static_cast<Real>(q.im));
  for (int it = 0; it < 5; ++it) {
    std::vector<Cx> const d = bessel_step(r);
    for (size_t i = 0; i < n; ++i) r[i] += d[i];
  }
  Real left = 0;
  std::vector<Cx> const d = bessel_step(r);
  for (size_t i = 0; i < n; ++i) left = std::max(left, std::abs(d[i]) / scale);
  std::sort(r.begin(), r.end(), [](Cx const& x, Cx const& y) { return x.imag() < y.imag(); });
  for (size_t i = 0; i < n; ++i)
    if (left > 1e-16L || std::abs(r[i] - std::conj(r[n - 1 - i])) > 1e-15L * scale) sim::harness_error("no Bessel poles of order %zu (%Lg)", n, left);
  for (auto& q : r) q /= scale;
  if (n % 2) r[n / 2].imag(0);
  return memo[n] = r;
}
using Sections = std::vector<std::pair<std::vector<Real>, std::vector<Real>>>;
struct Ideal {
  Spec s;
  Real edge, omega; // edge as a fraction of the sample rate; its analog frequency
  Real eps = 0, top = 1; // ripple factor; gain at the reference frequency
  Sections sections;
  std::vector<Cx> p; // analog poles, ordered by imaginary part: conjugates face each other
  std::vector<Cx> z; // likewise; empty: all at infinity
  explicit Ideal(Spec const& sp, bool analog_only = false) : s(sp) {
    Real const pi = 3.14159265358979323846264338327950288L;
    edge = s.design_in_float ? static_cast<Real>(static_cast<float>(s.f)) / static_cast<Real>(static_cast<float>(s.fs)) : static_cast<Real>(s.f) / static_cast<Real>(s.fs);
    omega = tanl(pi * edge);
    size_t const n = static_cast<size_t>(s.order);
    Real mu = 0;
    if (s.family == 1) eps = sqrtl(powl(10, static_cast<Real>(s.ripple) / 10) - 1);
    if (s.family == 2) eps = 1 / sqrtl(powl(10, static_cast<Real>(s.ripple) / 10) - 1);
    if (eps > 0) mu = asinhl(1 / eps) / static_cast<Real>(n);
    if (s.family == 1 && n % 2 == 0) top = 1 / sqrtl(1 + eps * eps);
    if (s.family == 3) { if (!analog_only) p = bessel_roots(n); }
    else
      for (size_t k = 0; k < n; ++k) {
        Real const t = pi * static_cast<Real>(2 * static_cast<long>(k) + 1 - static_cast<long>(n)) / static_cast<Real>(2 * n); // -pi/2 .. pi/2
        bool const mid = 2 * k + 1 == n;
        Cx q = s.family == 0 ? Cx(-cosl(t), mid ? 0 : sinl(t)) : Cx(-sinhl(mu) * cosl(t), mid ? 0 : coshl(mu) * sinl(t));
        if (s.family == 2) {
          q = mid ? Cx(1 / q.real(), 0) : std::conj(Cx(1) / q); // keep the order
          if (!mid) z.push_back(Cx(0, 1 / sinl(t)));
          else z.push_back(Cx(0, 0)); // stands for infinity
        }
        p.push_back(q);
      }
    if (analog_only) {
      if (s.family == 2 && n % 2) z.erase(z.begin() + static_cast<std::ptrdiff_t>(n / 2));
      return;
    }
    Real const at = s.hp ? -1 : 1; // reference frequency: 0 or half the sample rate
    for (size_t k = 0; k < (n + 1) / 2; ++k) {
      Real g;
      if (2 * k + 1 == n) { // the real pole
        Real const q = digital(p[k]).real();
        std::vector<Real> b{1, at}, a{1, -q};
        g = (1 + at * a[1]) / (1 + at * b[1]);
        if (k == 0) g *= top;
        sections.push_back({{g * b[0], g * b[1]}, a});
        continue;
      }
      Cx const q = digital(p[k]);
      Real b1 = 2 * at, b2 = 1;
      if (s.family == 2) { // zeros on the unit circle
        Cx const w = digital(z[k]);
        b1 = -2 * w.real() / std::abs(w);
      }
      Real const a1 = -2 * q.real(), a2 = std::norm(q);
      g = (1 + at * a1 + a2) / (1 + at * b1 + b2);
      if (k == 0) g *= top;
      sections.push_back({{g, g * b1, g * b2}, {1, a1, a2}});
    }
  }
  Cx digital(Cx v) const {
    Cx const w = s.hp ? omega / v : omega * v;
    return (Cx(1) + w) / (Cx(1) - w);
  }
  Sections polynomial() const {
    std::vector<Real> b{1}, a{1};
    auto mul = [](std::vector<Real> const& x, std::vector<Real> const& y) {
      std::vector<Real> r(x.size() + y.size() - 1);
      for (size_t i = 0; i < x.size(); ++i)
        for (size_t j = 0; j < y.size(); ++j) r[i + j] += x[i] * y[j];
      return r;
    };
    for (auto const& q : sections) { b = mul(b, q.first); a = mul(a, q.second); }
    return {{b, a}};
  }
  // gain at frequency f (fraction of the sample rate): of the sections, and by the family's formula
  Real gain(Real f) const {
    Cx const zi = std::polar(Real(1), -2 * 3.14159265358979323846264338327950288L * f);
    Cx h = 1;
    for (auto const& q : sections) {
      Cx nu = 0, de = 0;
      for (size_t i = q.first.size(); i-- > 0;) nu = nu * zi + q.first[i];
      for (size_t i = q.second.size(); i-- > 0;) de = de * zi + q.second[i];
      h *= nu / de;
    }
    return std::abs(h);
  }
  Real formula(Real f) const {
    Real const t = tanl(3.14159265358979323846264338327950288L * f);
    Real const w = s.hp ? omega / t : t / omega;
    size_t const n = static_cast<size_t>(s.order);
    auto cheb = [&](Real x) { return x <= 1 ? cosl(static_cast<Real>(n) * acosl(x)) : coshl(static_cast<Real>(n) * acoshl(x)); };
    switch (s.family) {
    case 0: return 1 / sqrtl(1 + powl(w, static_cast<Real>(2 * n)));
    case 1: { Real c = eps * cheb(w); return 1 / sqrtl(1 + c * c); }
    case 2: { Real c = eps * cheb(1 / w); return fabsl(c) / sqrtl(1 + c * c); }
    default: {
      Cx h = 1;
      for (auto const& q : bessel_roots(n)) h *= -q / (Cx(0, w) - q);
      return std::abs(h);
    }
    }
  }
};

// what the generator plays: one after the other, without a pause
struct Tone {
  uint32_t what = 0;
  Real f = 0, amp = 1, phase = 0;
};
// A specification is where designs start: its poles, zeros and gain are the
// textbook's (this reaches orders whose filters take too long to compile).
void run_analog() {
  Spec s;
  s.family = draw(2) ? 3 : static_cast<int>(draw(3));
  do s.order = static_cast<int>(range(1, 100)); while (!(s.family == 3 ? g_bessel : g_analog)[s.order]);
  s.ripple = s.family == 1 ? 0.01 + draw(600) * 0.01 : 10 + draw(900) * 0.1;
  TRACE("specification: %s, order %d, ripple %g", family_name[s.family], s.order, s.ripple);
  STAT("probe.specification");
  Analog a;
  (s.family == 3 ? g_bessel : g_analog)[s.order](s, a);
  Ideal const id(s, true);
  size_t const n = static_cast<size_t>(s.order);
  CHECK(a.p.size() == n && a.z.size() == (s.family == 2 ? n - n % 2 : 0), "specification", "a %s specification of order %zu has %zu poles and %zu zeros", family_name[s.family], n, a.p.size(), a.z.size());
  uint64_t h = 0;
  if (s.family == 3) {
    std::vector<Cx> u = a.p;
    Real const scale = bessel_scale(n);
    for (auto& q : u) q *= scale;
    std::vector<Cx> const off = bessel_step(u);
    for (size_t i = 0; i < n; ++i) {
      Real const d = std::abs(off[i]) / std::abs(u[i]);
      CHECK(d <= 1e-13L, "specification", "a bessel of order %zu has a pole at (%.17Lg, %.17Lg), which is not one of the textbook's poles", n, a.p[i].real(), a.p[i].imag());
    }
  } else
  for (auto const& list : {std::make_pair(&a.p, &id.p), std::make_pair(&a.z, &id.z)})
    for (Cx const& q : *list.first) { // every one near one of the textbook's, and those all different ones
      size_t at = 0;
      for (size_t i = 1; i < list.second->size(); ++i)
        if (std::abs((*list.second)[i] - q) < std::abs((*list.second)[at] - q)) at = i;
      Cx const w = (*list.second)[at];
      // the reciprocals of small numbers, and angles close to a right one, are what rounding spoils most
      Real const tol = 1e-13L * std::abs(w) * (1 + (list.first == &a.z ? std::abs(w) : 0) + static_cast<Real>(s.ripple));
      CHECK(std::abs(w - q) <= tol, "specification", "a %s of order %zu has a %s at (%.17Lg, %.17Lg), should be (%.17Lg, %.17Lg)", family_name[s.family], n,
            list.first == &a.p ? "pole" : "zero", q.real(), q.imag(), w.real(), w.imag());
      h = sim::mix(h, at);
    }
  auto distinct = [](std::vector<Cx> const& v) {
    for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = 0; j < i; ++j)
        if (std::abs(v[i] - v[j]) < 1e-7L * std::abs(v[i])) return false;
    return true;
  };
  CHECK(distinct(a.p) && distinct(a.z), "specification", "a %s of order %zu has a pole or zero twice", family_name[s.family], n);
  // gain at frequency zero
  Cx g = a.gain;
  for (Cx const& q : a.z) g *= -q;
  for (Cx const& q : a.p) g /= -q;
  CHECK(std::abs(g - id.top) <= 1e-12L * static_cast<Real>(n + 1) * (1 + static_cast<Real>(s.ripple)), "specification", "a %s of order %zu has gain %.17Lg at frequency zero, should be %.17Lg", family_name[s.family], n, g.real(), id.top);
  ev(h, n, static_cast<uint64_t>(s.family));
  for (uint32_t i = 0; i < 10; ++i) ev(i);
  sim::cover_state(sim::mix(static_cast<u64>(s.family) + 77, n));
}
void run_s05() {
  run_reset();
#ifndef REDUCED
  if (draw(12) == 11) return run_analog();
#endif
  Spec s;
  s.family = static_cast<int>(draw(4));
  if (draw(6) == 5) {
    static const int high[] = {19, 21, 22, 23, 24, 31, 32, 40, 41};
    s.order = high[draw(9)];
  } else
    s.order = static_cast<int>(range(1, 20));
  s.hp = draw(2);
  s.sos = s.order > 12 || draw(3) != 0;
  s.distribute = draw(2);
  s.fk = draw(4) == 3 && s.order != 19 && s.order <= 20 ? FLOAT : DOUBLE;
  s.design_in_float = (s.order == 2 || s.order == 3 || s.order == 4 || s.order == 6) && draw(6) == 5;
  static const double rates[] = {1000, 1, 48000, 2, 44100, 12.5, 8000, 0.1, 1e6};
  s.fs = rates[draw(9)];
  static const double lo[] = {0.05, 0.03, 0.02, 0.2, 0.3}, hi[] = {0.45, 0.1, 0.05, 0.3, 0.495};
  uint32_t const band = draw(5);
  s.f = s.fs * (lo[band] + (hi[band] - lo[band]) * (draw(1000) / 1000.0));
  s.ripple = s.family == 1 ? 0.01 + draw(600) * 0.01 : 10 + draw(900) * 0.1;
  trace_spec(s);
  if (s.design_in_float) TRACE("designed in single precision");
  Ideal const id(s);
  for (int i = 0; i < 3; ++i) { // the reference is what the books say
    Real const f = 0.01L + 0.48L * static_cast<Real>(draw(1000)) / 1000;
    Real const g = id.gain(f), w = id.formula(f);
    if (fabsl(g - w) > 1e-9L * (w + 1e-6L)) sim::harness_error("reference design has gain %Lg at %Lg, should have %Lg (family %d order %d edge %Lg)", g, f, w, s.family, s.order, id.edge);
  }
  Zone dz;
  Box* b = build(s, dz);
  Real const de = s.design_in_float || s.fk == FLOAT ? std::numeric_limits<float>::epsilon() : std::numeric_limits<double>::epsilon();
  RealRef ref(s.fk, s.sos ? id.sections : id.polynomial(), de * (s.design_in_float ? 400 : s.fk == FLOAT ? 8 : 100));
  if (!ref.ok) { STAT("skipped.rings_too_long"); return; }
  for (auto const& q : ref.s) { // rounding the coefficients must not change the filter beyond recognition
    Real g = 0;
    for (Real v : q.g) g += v;
    if (g * ref.dev * q.sa * static_cast<Real>(q.a.size()) > 0.02L) ref.ok = false;
  }
  if (!ref.ok) { STAT("skipped.ill_conditioned"); return; }
  if (s.fk == FLOAT) STAT("float_streams"); else STAT("double_streams");
  Zone z = zone(b->isize(), b->ialign(), 64);
  soil(z);
  b->make(z.p, draw(2));
  uint32_t const tones = range(1, 4);
  Real peak = 0;
  u64 h = 0, n = 0;
  bool tight = false;
  for (uint32_t t = 0; t < tones; ++t) {
    sim::Span sp;
    Tone q;
    q.what = draw(8);
    static const char* const names[] = {"constant", "tone at the edge", "alternation", "tone in the pass band", "tone in the stop band", "noise", "impulse", "burst"};
    q.amp = draw(3) == 2 ? 1000 : 1;
    Real const inside = s.hp ? id.edge + (0.5L - id.edge) * static_cast<Real>(1 + draw(99)) / 100 : id.edge * static_cast<Real>(1 + draw(99)) / 100;
    Real const beyond = s.hp ? id.edge * static_cast<Real>(1 + draw(99)) / 100 : id.edge + (0.5L - id.edge) * static_cast<Real>(1 + draw(99)) / 100;
    q.f = q.what == 0 ? 0 : q.what == 2 ? 0.5L : q.what == 3 ? inside : q.what == 4 ? beyond : id.edge;
    q.phase = q.what == 0 || q.what == 2 ? 0.25L : static_cast<Real>(draw(100)) / 100;
    uint32_t const len = range(1, draw(4) == 3 ? 300 : 80);
    if (q.what == 7) STAT("fault.burst");
    TRACE("%s, frequency %Lg, for %u samples", names[q.what], q.f, len);
    for (uint32_t i = 0; i < len; ++i, ++n) {
      Real v;
      switch (q.what) {
      case 5: v = (static_cast<Real>(draw(2001)) - 1000) / 1000; break;
      case 6: v = i == 0; break;
      case 7: v = i < 3 ? 1e6L : 0; break;
      default: v = sinl(2 * 3.14159265358979323846264338327950288L * (q.f * static_cast<Real>(i) + q.phase));
      }
      u64 const x = bits_of(s.fk, q.amp * v), y = b->feed(z.p, x);
      auto const want = ref.next(real_of(s.fk, x));
      Real const got = real_of(s.fk, y);
      peak = std::max(peak, fabsl(want.y));
      TRACE("x[%llu]=%Lg y=%Lg (specified %Lg, tolerance %Lg)", (unsigned long long)n, real_of(s.fk, x), got, want.y, want.tol);
      CHECK(fabsl(got - want.y) <= want.tol, "specification", "sample %llu (%s at %Lg of the sample rate): output %.12Lg, a %s %s of order %d with edge %Lg gives %.12Lg (tolerance %.3Lg, %s)",
            (unsigned long long)n, names[q.what], q.f, got, family_name[s.family], s.hp ? "highpass" : "lowpass", s.order, id.edge, want.y, want.tol, s.sos ? "sections" : "polynomial");
      if (want.tol < peak * 1e-4L) { STAT("probe.tight_samples"); tight = true; }
      else STAT("probe.loose_samples");
      h = sim::mix(h, y);
    }
    ev(h);
  }
  for (uint32_t i = 0; i < 10; ++i) ev(i);
  CHECK(z.redzones_ok(), "outside", "memory beside an instance was written");
  b->destroy(z.p);
  sim::cover_state(sim::mix(sim::mix(static_cast<u64>(s.family * 2 + s.hp), static_cast<u64>(s.order)), sim::mix(s.fk * 4 + s.sos * 2 + s.distribute, tight + 2 * band)));
}
