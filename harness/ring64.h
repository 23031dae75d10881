// Exact filter arithmetic: a sample type and the reference equation.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>

namespace flt {
using u64 = uint64_t;

// Exact sample type: integers modulo 2^64.  Whatever algebraically correct
// structure the filter has, its output is exactly that of the equation.
struct Z64 {
  u64 v = 0;
  constexpr Z64() = default;
  static u64 code(double d) {
    if (d == 0) return 0;
    bool neg = d < 0;
    if (neg) d = -d;
    u64 r;
    if (d == 1) r = 1;
    else {
      u64 b;
      memcpy(&b, &d, 8);
      b *= 0x9e3779b97f4a7c15ull;
      r = (b ^ (b >> 29)) * 0xbf58476d1ce4e5b9ull;
    }
    return neg ? 0 - r : r;
  }
  Z64(double d) : v(code(d)) {}
  constexpr Z64(int i) : v(static_cast<u64>(static_cast<int64_t>(i))) {}
  static Z64 raw(u64 x) { Z64 z; z.v = x; return z; }
  friend Z64 operator+(Z64 a, Z64 b) { return raw(a.v + b.v); }
  friend Z64 operator-(Z64 a, Z64 b) { return raw(a.v - b.v); }
  friend Z64 operator*(Z64 a, Z64 b) { return raw(a.v * b.v); }
  friend Z64 operator-(Z64 a) { return raw(0 - a.v); }
  friend Z64 operator+(Z64 a) { return a; }
  Z64& operator+=(Z64 b) { v += b.v; return *this; }
  Z64& operator-=(Z64 b) { v -= b.v; return *this; }
  Z64& operator*=(Z64 b) { v *= b.v; return *this; }
  friend bool operator==(Z64 a, Z64 b) { return a.v == b.v; }
  friend bool operator!=(Z64 a, Z64 b) { return a.v != b.v; }
  // for code that looks at its samples, as if they were numbers
  friend bool operator<(Z64 a, Z64 b) { return static_cast<int64_t>(a.v) < static_cast<int64_t>(b.v); }
  friend bool operator>(Z64 a, Z64 b) { return b < a; }
  friend bool operator<=(Z64 a, Z64 b) { return !(b < a); }
  friend bool operator>=(Z64 a, Z64 b) { return !(a < b); }
};

struct Sec { std::vector<u64> b, a; }; // one difference equation; a[0] counts as 1
// Exact: sections applied one after the other, modulo 2^64.
struct RingRef {
  struct S { std::vector<u64> b, a, x, y; };
  std::vector<S> s;
  explicit RingRef(std::vector<Sec> const& e) {
    for (auto const& q : e) s.push_back({q.b, q.a, std::vector<u64>(q.b.size()), std::vector<u64>(q.a.size())});
  }
  u64 next(u64 v) {
    for (S& q : s) {
      q.x.insert(q.x.begin(), v);
      q.x.pop_back();
      u64 y = 0;
      for (size_t i = 0; i < q.b.size(); ++i) y += q.b[i] * q.x[i];
      for (size_t i = 1; i < q.a.size(); ++i) y -= q.a[i] * q.y[i - 1];
      q.y.insert(q.y.begin(), y);
      q.y.pop_back();
      v = y;
    }
    return v;
  }
};
} // namespace flt
