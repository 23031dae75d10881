// Shared pieces of the harnesses: simulated memory, element types, op names.
#pragma once
#include "../sim/sim.h"

#include <algorithm>
#include <array>
#include <cstdio>
#include <cstring>
#include <deque>
#include <exception>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

extern "C" bool sim_memcpy_descending;

// -DONLY -DONLY_C01=1: build the harness of that property only
#ifdef ONLY
#define PROP_CAT(a, b) a##b
#define PROP(x) PROP_CAT(ONLY_, x)
#else
#define PROP(x) 1
#endif


namespace h {

// A01 runs the harnesses of all components in one program
struct Component { const char* name; void (*run)(); };
inline Component g_components[16];
inline int g_ncomponents = 0;
inline bool add_component(const char* name, void (*run)()) {
  g_components[g_ncomponents++] = {name, run};
  return true;
}

using sim::coin;
using sim::draw;
using sim::ev;
using sim::Observe;
using sim::range;
using sim::Unobserve;

// ------------------------------------------------------- simulated memory
// A fixed piece of memory the run lays its storage out in: always at the same
// address, always with the same (poison) contents at the start of a run.
constexpr size_t kArena = 1u << 20;
alignas(4096) inline unsigned char g_arena[kArena];
inline size_t g_arena_used = 0;
inline unsigned char poison(size_t i) { return static_cast<unsigned char>(0xA5 ^ (i * 37) ^ (i >> 8) * 11); }
inline void arena_reset() { g_arena_used = 0; }
// n bytes with a red zone of `rz` bytes on either side
struct Zone {
  unsigned char* p = nullptr;
  size_t n = 0, rz = 0;
  size_t off() const { return static_cast<size_t>(p - g_arena); }
  bool redzones_ok() const {
    for (size_t i = off() - rz; i < off(); ++i)
      if (g_arena[i] != poison(i)) return false;
    for (size_t i = off() + n; i < off() + n + rz; ++i)
      if (g_arena[i] != poison(i)) return false;
    return true;
  }
};
inline Zone zone(size_t n, size_t align = 64, size_t rz = 256) {
  size_t start = (g_arena_used + rz + align - 1) / align * align;
  if (start + n + rz > kArena) sim::harness_error("arena exhausted");
  for (size_t i = g_arena_used; i < start + n + rz; ++i) g_arena[i] = poison(i);
  g_arena_used = start + n + rz;
  Zone z;
  z.p = g_arena + start;
  z.n = n;
  z.rz = rz;
  return z;
}

// --------------------------------------------------------- fault: throwing
struct Fault { // the exception user code throws
  uint64_t token;
};
inline uint64_t g_throw_in = 0;    // n > 0: the n-th construction from now throws
inline uint64_t g_throw_token = 0; // identity of the thrown exception
inline bool g_thrown = false;
inline void maybe_throw() {
  if (g_throw_in && --g_throw_in == 0) {
    g_thrown = true;
    STAT("fault.ctor_throw");
    Unobserve u;
    throw Fault{g_throw_token};
  }
}

// ---------------------------------------------------- element life tracking
struct Life {
  static inline bool strict = false;      // report life-cycle errors
  static inline unsigned char* lo = nullptr; // storage under management
  static inline unsigned char* hi = nullptr;
  static inline std::vector<void const*> live; // objects alive (any address)
  static inline uint64_t ctors, dtors, copies, moves, storage_ctors, storage_dtors;
  static void reset() {
    live.clear();
    ctors = dtors = copies = moves = storage_ctors = storage_dtors = 0;
    strict = false;
    lo = hi = nullptr;
  }
  static bool in_storage(void const* p) { return p >= lo && p < hi; }
  static bool alive(void const* p) {
    for (auto q : live)
      if (q == p) return true;
    return false;
  }
  static void born(void const* p) {
    Unobserve u;
    ++ctors;
    if (in_storage(p)) ++storage_ctors;
    if (strict && alive(p)) sim::violate("lifetime", "constructed an element on top of a live one");
    live.push_back(p);
  }
  static void died(void const* p) {
    Unobserve u;
    ++dtors;
    if (in_storage(p)) ++storage_dtors;
    for (size_t i = 0; i < live.size(); ++i)
      if (live[i] == p) {
        live[i] = live.back();
        live.pop_back();
        return;
      }
    if (strict) sim::violate("lifetime", "destroyed something that is not a live element");
  }
  static void used(void const* p) {
    if (!strict) return;
    Unobserve u;
    if (!alive(p)) sim::violate("lifetime", "copied or moved from something that is not a live element");
  }
  static size_t live_in_storage() {
    size_t n = 0;
    for (auto p : live) n += in_storage(p);
    return n;
  }
};

// ------------------------------------------------------------ element types
template <size_t N> struct Bytes { // trivial, odd sizes
  unsigned char b[N];
};
constexpr uint64_t kMovedFrom = 0xdeadbeefcafef00dull;

enum class How : uint8_t { value, copy, move, lref, clref, rref };
struct Arg { uint64_t v; };

// Non-trivial element with every operation recorded.
template <bool Copy, bool Move, size_t Pad, size_t Align>
struct alignas(Align) Tracked {
  uint64_t v;
  How how;
  unsigned char pad[Pad];
  explicit Tracked(uint64_t x) : v(x), how(How::value) { maybe_throw(); fill(); Life::born(this); }
  Tracked(Arg& a, int) : v(a.v), how(How::lref) { maybe_throw(); fill(); Life::born(this); }
  Tracked(Arg const& a, int) : v(a.v), how(How::clref) { maybe_throw(); fill(); Life::born(this); }
  Tracked(Arg&& a, int) : v(a.v), how(How::rref) { maybe_throw(); a.v = kMovedFrom; fill(); Life::born(this); }
  Tracked(Tracked const& o) : v(o.v), how(o.how) {
    static_assert(Copy, "");
    maybe_throw(); Life::used(&o); ++Life::copies; fill(); Life::born(this);
  }
  Tracked(Tracked&& o) : v(o.v), how(o.how) {
    maybe_throw(); Life::used(&o); ++Life::moves; o.v = kMovedFrom; fill(); Life::born(this);
  }
  Tracked& operator=(Tracked const& o) { Life::used(&o); v = o.v; how = o.how; return *this; }
  Tracked& operator=(Tracked&& o) {
    Life::used(&o);
    if (this != &o) { v = o.v; how = o.how; o.v = kMovedFrom; }
    return *this;
  }
  ~Tracked() { Life::died(this); v = 0xdddddddddddddddd; }
  void fill() { for (size_t i = 0; i < Pad; ++i) pad[i] = static_cast<unsigned char>(v + i); }
  bool pad_ok() const { return true; }
};
struct MoveOnly {
  uint64_t v;
  explicit MoveOnly(uint64_t x) : v(x) { maybe_throw(); Life::born(this); }
  MoveOnly(MoveOnly const&) = delete;
  MoveOnly& operator=(MoveOnly const&) = delete;
  MoveOnly(MoveOnly&& o) : v(o.v) { maybe_throw(); Life::used(&o); o.v = kMovedFrom; Life::born(this); }
  MoveOnly& operator=(MoveOnly&& o) { if (this != &o) { v = o.v; o.v = kMovedFrom; } return *this; }
  ~MoveOnly() { Life::died(this); v = 0xdddddddddddddddd; }
#ifndef REDUCED
  // on the heap these come from a pool; a buffer's items do not
  static void* operator new(size_t) { sim::harness_error("an element taken from the pool"); }
  static void operator delete(void*) {}
#endif
};
struct CopyOnly {
  uint64_t v;
  explicit CopyOnly(uint64_t x) : v(x) { maybe_throw(); Life::born(this); }
  CopyOnly(CopyOnly const& o) : v(o.v) { maybe_throw(); Life::used(&o); Life::born(this); }
  CopyOnly& operator=(CopyOnly const& o) { v = o.v; return *this; }
  ~CopyOnly() { Life::died(this); v = 0xdddddddddddddddd; }
};
// Several parts: a failure in a later part must undo the earlier ones.
struct Part {
  uint64_t v;
  explicit Part(uint64_t x) : v(x) { maybe_throw(); Life::born(this); }
  Part(Part const& o) : v(o.v) { maybe_throw(); Life::used(&o); Life::born(this); }
  Part(Part&& o) : v(o.v) { maybe_throw(); Life::used(&o); o.v = kMovedFrom; Life::born(this); }
  Part& operator=(Part const&) = default;
  ~Part() { Life::died(this); v = 0xdddddddddddddddd; }
};
struct Compound {
  Part a, b;
  explicit Compound(uint64_t x) : a(x), b(~x) {}
};
// not "trivial", yet nothing to destroy
struct NoDtor {
  uint64_t v;
  explicit NoDtor(uint64_t x) : v(x) { maybe_throw(); }
  NoDtor(NoDtor const& o) : v(o.v) { maybe_throw(); }
  NoDtor& operator=(NoDtor const&) = default;
};

template <class T> struct El; // make / get / properties of an element type
template <class I, uint64_t Mask> struct IntEl {
  static constexpr bool trivial = true, copyable = true, movable = true, args = false, tracked = false;
  static constexpr uint64_t mask = Mask;
  static constexpr unsigned parts = 0;
  static I make(uint64_t v) { return static_cast<I>(v); }
  static uint64_t get(I const& x) { return static_cast<uint64_t>(x) & Mask; }
};
template <> struct El<uint8_t> : IntEl<uint8_t, 0xff> { static constexpr const char* name = "u8"; };
template <> struct El<uint16_t> : IntEl<uint16_t, 0xffff> { static constexpr const char* name = "u16"; };
template <> struct El<uint32_t> : IntEl<uint32_t, 0xffffffff> { static constexpr const char* name = "u32"; };
template <> struct El<uint64_t> : IntEl<uint64_t, ~uint64_t(0)> { static constexpr const char* name = "u64"; };
template <size_t N> struct El<Bytes<N>> {
  static constexpr bool trivial = true, copyable = true, movable = true, args = false, tracked = false;
  static constexpr uint64_t mask = N >= 8 ? ~uint64_t(0) : (uint64_t(1) << (8 * (N % 8))) - 1;
  static constexpr const char* name = N == 3 ? "bytes3" : N == 24 ? "bytes24" : "bytes100";
  static constexpr unsigned parts = 0;
  static Bytes<N> make(uint64_t v) {
    Bytes<N> r;
    for (size_t i = 0; i < N; ++i) r.b[i] = static_cast<unsigned char>(i < 8 ? v >> (8 * i) : (v * 31 + i * 7) ^ (v >> 13));
    return r;
  }
  static uint64_t get(Bytes<N> const& x) {
    uint64_t v = 0;
    for (size_t i = 0; i < N && i < 8; ++i) v |= static_cast<uint64_t>(x.b[i]) << (8 * i);
    for (size_t i = 8; i < N; ++i)
      if (x.b[i] != static_cast<unsigned char>((v * 31 + i * 7) ^ (v >> 13))) return ~v; // damaged
    return v;
  }
};
template <bool C, bool M, size_t P, size_t A> struct El<Tracked<C, M, P, A>> {
  using T = Tracked<C, M, P, A>;
  static constexpr bool trivial = false, copyable = C, movable = true, args = true, tracked = true;
  static constexpr uint64_t mask = ~uint64_t(0);
  static constexpr const char* name = A > 8 ? "tracked-aligned" : "tracked";
  static constexpr unsigned parts = 1;
  static T make(uint64_t v) { return T(v); }
  static uint64_t get(T const& x) { return x.v; }
};
template <> struct El<MoveOnly> {
  static constexpr bool trivial = false, copyable = false, movable = true, args = false, tracked = true;
  static constexpr uint64_t mask = ~uint64_t(0);
  static constexpr const char* name = "move-only";
  static constexpr unsigned parts = 1;
  static MoveOnly make(uint64_t v) { return MoveOnly(v); }
  static uint64_t get(MoveOnly const& x) { return x.v; }
};
template <> struct El<CopyOnly> {
  static constexpr bool trivial = false, copyable = true, movable = false, args = false, tracked = true;
  static constexpr uint64_t mask = ~uint64_t(0);
  static constexpr const char* name = "copy-only";
  static constexpr unsigned parts = 1;
  static CopyOnly make(uint64_t v) { return CopyOnly(v); }
  static uint64_t get(CopyOnly const& x) { return x.v; }
};
template <> struct El<Compound> {
  static constexpr bool trivial = false, copyable = true, movable = true, args = false, tracked = true;
  static constexpr uint64_t mask = ~uint64_t(0);
  static constexpr const char* name = "compound";
  static constexpr unsigned parts = 2;
  static Compound make(uint64_t v) { return Compound(v); }
  static uint64_t get(Compound const& x) { return x.a.v; }
};
template <> struct El<NoDtor> {
  static constexpr bool trivial = false, copyable = true, movable = false, args = false, tracked = false;
  static constexpr uint64_t mask = ~uint64_t(0);
  static constexpr const char* name = "no-dtor";
  static constexpr unsigned parts = 0;
  static NoDtor make(uint64_t v) { return NoDtor(v); }
  static uint64_t get(NoDtor const& x) { return x.v; }
};
using TrackedCM = Tracked<true, true, 4, 8>;
using TrackedAl = Tracked<true, true, 20, 32>;

inline uint64_t fresh_value() {
  static const uint32_t w[] = {6, 1, 1};
  switch (sim::weighted(w)) {
  case 0: return draw(0xffffffffu) * 0x100000001ull;
  case 1: return draw(3);
  default: return ~uint64_t(0) - draw(3);
  }
}

inline void run_reset() {
  Unobserve u;
  arena_reset();
  Life::reset();
  g_throw_in = 0;
  g_thrown = false;
  sim_memcpy_descending = false;
}
} // namespace h
