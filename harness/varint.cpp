// Varint codec under simulation: V01..V03.
#include "common.h"

#include <embedded/circular_buffer_adapter.h>
#include <embedded/varint.h>

#include <forward_list>
#include <limits>
#include <list>

namespace {
using namespace h;
using embedded::varint;
using u64 = uint64_t;
using u128 = unsigned __int128;
using Bytes8 = std::vector<uint8_t>;

// ----------------------------------------------- independent reference peer
// Written from the documented format only.
[[maybe_unused]] Bytes8 ref_encode_unsigned(u128 v) {
  Bytes8 out;
  do {
    uint8_t g = static_cast<uint8_t>(v % 128);
    v /= 128;
    out.push_back(static_cast<uint8_t>(v ? g + 128 : g));
  } while (v);
  return out;
}
template <class T> u128 fold(T v) { // positives even, negatives odd
  if constexpr (std::is_signed<T>::value) {
    __int128 x = v;
    return x >= 0 ? static_cast<u128>(x) * 2 : static_cast<u128>(-(x + 1)) * 2 + 1;
  } else
    return v;
}
template <class T> T unfold(u128 u) {
  if constexpr (std::is_signed<T>::value) {
    __int128 x = static_cast<__int128>(u / 2);
    return static_cast<T>(u % 2 ? -x - 1 : x);
  } else
    return static_cast<T>(u);
}
template <class T> Bytes8 ref_encode(T v) { return ref_encode_unsigned(fold(v)); }
// parse one encoding at p: length (0: cut off), value, saturating
struct Parsed { size_t len; u128 v; bool huge; bool minimal; };
[[maybe_unused]] Parsed ref_parse(uint8_t const* p, size_t n) {
  Parsed r{0, 0, false, true};
  for (size_t i = 0; i < n; ++i) {
    u128 g = p[i] % 128;
    if (g) {
      if (i * 7 > 120) r.huge = true;
      else r.v += g << (i * 7);
    }
    if (p[i] < 128) {
      r.len = i + 1;
      r.minimal = i == 0 || g != 0;
      return r;
    }
  }
  return r;
}
template <class T> constexpr u128 max_code() { return (static_cast<u128>(1) << (8 * sizeof(T))) - 1; }

// -------------------------------------------------------------- value mixes
template <class T> T draw_value() {
  static const uint32_t w[] = {3, 3, 3, 3, 2};
  using U = typename std::make_unsigned<T>::type;
  switch (sim::weighted(w)) {
  case 0: return static_cast<T>(draw(300));
  case 1: { // around group boundaries
    uint32_t k = draw(8 * sizeof(T) / 7 + 1);
    U b = static_cast<U>(k * 7 >= 8 * sizeof(T) ? U(0) : static_cast<U>(U(1) << (k * 7)));
    return static_cast<T>(static_cast<U>(b + static_cast<U>(draw(5)) - 2));
  }
  case 2: { // around powers of two (sign folding moves the boundaries)
    U b = static_cast<U>(U(1) << draw(8 * sizeof(T)));
    U v = static_cast<U>(b + static_cast<U>(draw(3)) - 1);
    return static_cast<T>(draw(2) ? v : static_cast<U>(U(0) - v));
  }
  case 3: return static_cast<T>(sim::draw64());
  default: {
    static const int d[] = {0, 1, -1};
    U e = static_cast<U>(draw(2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min());
    return static_cast<T>(static_cast<U>(e + static_cast<U>(d[draw(3)])));
  }
  }
}
template <class F> void with_type(uint32_t t, F&& f) {
  switch (t) {
  case 0: f(uint8_t{}); break;
  case 1: f(int8_t{}); break;
  case 2: f(uint16_t{}); break;
  case 3: f(int16_t{}); break;
  case 4: f(uint32_t{}); break;
  case 5: f(int32_t{}); break;
  case 6: f(uint64_t{}); break;
  case 7: f(int64_t{}); break;
  case 8: f((long long){}); break;
  case 9: f((unsigned long long){}); break;
  default: f(char{}); break;
  }
}
constexpr uint32_t kTypes = 11;
const char* const type_name[] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "long long", "unsigned long long", "char"};

// A forward iterator that knows its range: leaving it is a violation.
struct ProbeIt {
  using iterator_category = std::forward_iterator_tag;
  using value_type = uint8_t;
  using difference_type = std::ptrdiff_t;
  using pointer = uint8_t*;
  using reference = uint8_t&;
  uint8_t* p = nullptr;
  uint8_t* lo = nullptr;
  uint8_t* hi = nullptr;
  uint8_t& operator*() const {
    if (p < lo || p >= hi) sim::violate("out-of-range", "dereferenced %lld bytes past the end of the range", (long long)(p - hi));
    return *p;
  }
  ProbeIt& operator++() {
    if (p >= hi) sim::violate("out-of-range", "advanced past the end of the range");
    ++p;
    return *this;
  }
  ProbeIt operator++(int) { ProbeIt t = *this; ++*this; return t; }
  bool operator==(ProbeIt const& o) const { return p == o.p; }
  bool operator!=(ProbeIt const& o) const { return p != o.p; }
};

// ------------------------------------------------------------------- V01
#if PROP(V01)
struct Item { uint32_t type; u64 raw; };
template <class T> T item_value(Item const& i) { return static_cast<T>(i.raw); }

// A forward iterator over memory in three pieces: large, and with a copy
// constructor of its own.
struct ScatterIt {
  using iterator_category = std::forward_iterator_tag;
  using value_type = uint8_t;
  using difference_type = std::ptrdiff_t;
  using pointer = uint8_t*;
  using reference = uint8_t&;
  struct { uint8_t *at, *end; } piece[3] = {};
  uint32_t cur = 0;
  size_t n = 0; // steps taken
  ScatterIt() = default;
  ScatterIt(ScatterIt const& o) : cur(o.cur), n(o.n) { for (int i = 0; i < 3; ++i) piece[i] = o.piece[i]; }
  ScatterIt& operator=(ScatterIt const& o) {
    for (int i = 0; i < 3; ++i) piece[i] = o.piece[i];
    cur = o.cur;
    n = o.n;
    return *this;
  }
  void settle() { while (cur < 2 && piece[cur].at == piece[cur].end) ++cur; }
  uint8_t& operator*() const {
    if (piece[cur].at == piece[cur].end) sim::violate("out-of-range", "dereferenced the end of the range");
    return *piece[cur].at;
  }
  ScatterIt& operator++() {
    if (piece[cur].at == piece[cur].end) sim::violate("out-of-range", "advanced past the end of the range");
    ++piece[cur].at;
    ++n;
    settle();
    return *this;
  }
  ScatterIt operator++(int) { ScatterIt t = *this; ++*this; return t; }
  bool operator==(ScatterIt const& o) const { return n == o.n; }
  bool operator!=(ScatterIt const& o) const { return n != o.n; }
};
struct Scattered { // memory of `size` bytes in three pieces
  uint8_t* mem;
  size_t cut[4];
  Scattered(uint8_t* m, size_t size) : mem(m) {
    cut[0] = 0;
    cut[3] = size;
    cut[1] = draw(static_cast<uint32_t>(size + 1));
    cut[2] = cut[1] + draw(static_cast<uint32_t>(size - cut[1] + 1));
  }
  ScatterIt begin() const {
    ScatterIt r;
    // the pieces lie in reverse order in memory
    for (int i = 0; i < 3; ++i) r.piece[i] = {mem + cut[3] - cut[i + 1], mem + cut[3] - cut[i]};
    r.settle();
    return r;
  }
  ScatterIt end() const {
    ScatterIt r = begin();
    for (auto& x : r.piece) x.at = x.end;
    r.cur = 2;
    r.n = cut[3];
    return r;
  }
};

// append the library's encoding of v to `wire`, by one of its interfaces
template <class T> void lib_encode(T v, Bytes8& wire, uint32_t form) {
  size_t before = wire.size();
  size_t sz;
  { Observe o; sz = varint::size(v); }
  switch (form) {
  case 0: {
    wire.reserve(wire.size() + 16);
    Observe o;
    varint::encode(v, std::back_inserter(wire));
    break;
  }
  case 1: {
    uint8_t b[16];
    memset(b, 0xAA, sizeof b);
    uint8_t* e;
    { Observe o; e = varint::encode(v, b, b + 16); }
    CHECK(e > b && e <= b + 16, "encode", "encode returned a position outside the buffer");
    wire.insert(wire.end(), b, e);
    break;
  }
  case 2: {
    uint8_t b[16];
    memset(b, 0xAA, sizeof b);
    uint8_t* e;
    { Observe o; e = varint::encode(v, static_cast<uint8_t*>(b)); }
    CHECK(e > b && e <= b + 16, "encode", "encode returned a position outside the buffer");
    wire.insert(wire.end(), b, e);
    break;
  }
  case 3: {
    std::list<uint8_t> l(12, 0xAA);
    std::list<uint8_t>::iterator e;
    { Observe o; e = varint::encode(v, l.begin(), l.end()); }
    wire.insert(wire.end(), l.begin(), e);
    break;
  }
  case 4: {
    struct Sink { // a container of the user's
      using value_type = uint8_t;
      std::deque<uint8_t> d;
      void push_back(uint8_t b) { Unobserve u; d.push_back(b); }
    } sink;
    { Observe o; varint::encode(v, std::back_inserter(sink)); }
    auto& d = sink.d;
    wire.insert(wire.end(), d.begin(), d.end());
    break;
  }
  case 5: case 6: { // iterators larger than a few words
    uint8_t mem[12];
    memset(mem, 0xAA, sizeof mem);
    Scattered sc(mem, sizeof mem);
    ScatterIt b = sc.begin(), end = sc.end(), e;
    if (form == 5) { Observe o; e = varint::encode(v, b, end); }
    else { Observe o; e = varint::encode(v, b); }
    for (; b != e; ++b) wire.push_back(*b);
    break;
  }
  case 7: {
    std::deque<uint8_t> d(12, 0xAA);
    auto b = d.begin(), end = d.end(), e = b;
    { Observe o; e = varint::encode(v, b, end); }
    wire.insert(wire.end(), b, e);
    break;
  }
  default: {
    uint8_t mem[13];
    embedded::circular_buffer_adapter<uint8_t> ring(mem, sizeof mem, draw(13), 0);
    for (int i = 0; i < 11; ++i) ring.push_back(0xAA);
    embedded::circular_buffer_adapter<uint8_t>::iterator e;
    { Observe o; e = varint::encode(v, ring.begin(), ring.end()); }
    for (auto it = ring.begin(); it != e; ++it) wire.push_back(*it);
    break;
  }
  }
  CHECK(wire.size() - before == sz, "size", "%zu bytes were encoded, size() says %zu", wire.size() - before, sz);
}

// try to decode a T from the front of the received bytes; consumed count
template <class T> size_t lib_decode(T& v, std::deque<uint8_t> const& in, uint32_t form) {
  switch (form) {
  case 0: { Observe o; auto e = varint::decode(v, in.begin(), in.end()); return static_cast<size_t>(e - in.begin()); }
  case 1: {
    Bytes8 c(in.begin(), in.end());
    uint8_t const* b = c.data();
    Observe o;
    return static_cast<size_t>(varint::decode(v, b, b + c.size()) - b);
  }
  case 2: {
    std::forward_list<uint8_t> c(in.begin(), in.end());
    Observe o;
    auto e = varint::decode(v, c.begin(), c.end());
    return static_cast<size_t>(std::distance(c.begin(), e));
  }
  case 3: {
    Bytes8 c(in.begin(), in.end());
    ProbeIt b{c.data(), c.data(), c.data() + c.size()}, e{c.data() + c.size(), c.data(), c.data() + c.size()};
    Observe o;
    return static_cast<size_t>(varint::decode(v, b, e).p - c.data());
  }
  case 4: {
    Bytes8 mem(in.size() + 1);
    Scattered sc(mem.data(), in.size());
    ScatterIt b = sc.begin(), end = sc.end();
    size_t i = 0;
    for (ScatterIt w = b; w != end; ++w) *w = in[i++];
    Observe o;
    return varint::decode(v, b, end).n;
  }
  default: {
    Bytes8 mem(in.size() + 1);
    embedded::circular_buffer_adapter<uint8_t> ring(mem.data(), mem.size(), draw(static_cast<uint32_t>(mem.size())), 0);
    for (auto b : in) ring.push_back(b);
    Observe o;
    auto e = varint::decode(v, ring.begin(), ring.end());
    return static_cast<size_t>(e - ring.begin());
  }
  }
}

// A stream of values from a sender over a channel to a receiver. Several
// streams run at once and must not take notice of each other.
struct Stream {
  int id = 0;
  uint32_t n = 0;
  bool ref_sender = false;
  std::vector<Item> items;
  Bytes8 sent;                 // all bytes handed to the channel so far
  std::deque<uint8_t> inbox;   // bytes delivered and not yet consumed
  size_t delivered = 0, received = 0;
  bool closed = false;
  struct Chunk { u64 at; size_t upto; };
  std::deque<Chunk> air;
  char wake_rx = 0;

  void put_on_air() {
    size_t base = air.empty() ? delivered : air.back().upto;
    size_t k = range(1, static_cast<uint32_t>(std::min<size_t>(sent.size() - base, 12)));
    u64 at = std::max<u64>(sim::now + draw(20), air.empty() ? 0 : air.back().at);
    air.push_back({at, base + k});
    STAT("fault.fragment");
  }
  bool all_on_air() const { return (air.empty() ? delivered : air.back().upto) == sent.size(); }
  void sender() {
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      uint32_t t = draw(kTypes);
      with_type(t, [&](auto tag) {
        using T = decltype(tag);
        T v = draw_value<T>();
        Bytes8 want = ref_encode(v);
        size_t b = sent.size();
        uint32_t form = draw(9);
        if (ref_sender) sent.insert(sent.end(), want.begin(), want.end());
        else lib_encode(v, sent, form);
        items.push_back({t, static_cast<u64>(v)});
        Bytes8 got(sent.begin() + static_cast<std::ptrdiff_t>(b), sent.end());
        TRACE("stream %d: send %s %lld as %zu bytes", id, type_name[t], (long long)v, got.size());
        ev(static_cast<u64>(v), got.size());
        CHECK(got == want, "format", "%s %lld was not encoded in the documented (shortest) form", type_name[t], (long long)v);
      });
      if (draw(2)) { // flush some of it into the channel, in pieces
        while (!all_on_air()) {
          put_on_air();
          if (draw(2)) break;
        }
        sim::wake(&air);
        if (draw(2)) sim::sleep_until(sim::now + 1 + draw(10));
      }
    }
    while (!all_on_air()) put_on_air();
    closed = true;
    sim::wake(&air);
  }
  void channel() { // delays, keeps order
    for (;;) {
      while (air.empty()) {
        if (closed) { sim::wake(&wake_rx); return; }
        sim::block_on(&air);
      }
      u64 at = air.front().at;
      if (at > sim::now) { STAT("fault.delay"); sim::sleep_until(at); }
      Chunk c = air.front();
      air.pop_front();
      for (; delivered < c.upto; ++delivered) inbox.push_back(sent[delivered]);
      TRACE("  t=%llu stream %d: %zu bytes in the inbox", (unsigned long long)sim::now, id, inbox.size());
      sim::wake(&wake_rx);
    }
  }
  void receiver() { // decode as far as possible, else wait
    size_t starved = ~size_t(0);
    while (received < n) {
      while (received >= items.size() || inbox.empty() || starved == inbox.size()) {
        CHECK(!(closed && air.empty() && delivered == sent.size() && starved == inbox.size() && received < items.size()), "stuck",
              "all bytes have arrived, but value %zu of %u does not decode", received, n);
        if (closed && air.empty() && delivered == sent.size() && inbox.empty())
          sim::violate("lost", "the stream ended after %zu of %u values", received, n);
        sim::block_on(&wake_rx);
      }
      sim::Span s;
      Item it = items[received];
      uint32_t form = draw(6);
      with_type(it.type, [&](auto tag) {
        using T = decltype(tag);
        T v = static_cast<T>(~it.raw);
        std::deque<uint8_t> const here(inbox); // more may arrive meanwhile
        size_t used = lib_decode(v, here, form);
        if (used == 0) {
          Parsed pr;
          Bytes8 c(here.begin(), here.end());
          pr = ref_parse(c.data(), c.size());
          CHECK(pr.len == 0, "rejected", "a complete encoding of %s %lld was rejected", type_name[it.type], (long long)it.raw);
          STAT("probe.incomplete_value_retried");
          starved = here.size();
          return;
        }
        starved = ~size_t(0);
        ev(static_cast<u64>(v), used);
        CHECK(v == static_cast<T>(it.raw), "value", "value %zu (%s) arrived as %lld, sent was %lld", received, type_name[it.type], (long long)v, (long long)static_cast<T>(it.raw));
        CHECK(used == ref_encode(static_cast<T>(it.raw)).size(), "length", "value %zu consumed %zu bytes", received, used);
        inbox.erase(inbox.begin(), inbox.begin() + static_cast<std::ptrdiff_t>(used));
        ++received;
        STAT("ops");
        sim::cover_state(sim::mix(it.type * 16 + used, fold(static_cast<T>(it.raw)) >> (used > 1 ? 7 * (used - 1) : 0)));
      });
    }
  }
};
void on_v01(sim::MemEvent const&) { sim::preempt_point(); }

void run_v01() {
  run_reset();
  static const uint32_t wn[] = {5, 2, 1};
  uint32_t ns = 1 + sim::weighted(wn);
  std::vector<std::unique_ptr<Stream>> st;
  for (uint32_t k = 0; k < ns; ++k) {
    st.emplace_back(new Stream);
    Stream* s = st.back().get();
    s->id = static_cast<int>(k);
    s->n = draw(3) ? range(1, 12) : range(10, ns > 1 ? 24 : 60);
    s->ref_sender = coin(4);
    TRACE("stream %u: %u values, sender is the %s", k, s->n, s->ref_sender ? "reference peer" : "library");
  }
  if (ns > 1) { // encoders and decoders are interrupted in mid-value
    STAT("probe.concurrent_streams");
    static const uint32_t gaps[] = {3, 10, 40, 0};
    sim::set_preempt_max_gap(gaps[draw(4)]);
    sim::watch(9, nullptr, ~size_t(0) / 2);
    sim::set_observer(on_v01);
  }
  for (auto& p : st) {
    Stream* s = p.get();
    sim::spawn([s] { s->sender(); }, "sender");
    sim::spawn([s] { s->channel(); }, "channel");
    sim::spawn([s] { s->receiver(); }, "receiver");
  }
  sim::run_tasks(200000);
  sim::unwatch_all();
  for (auto& p : st) CHECK(p->received == p->n && p->inbox.empty(), "leftover", "%zu bytes left over after the last value", p->inbox.size());
  ev(sim::sched_hash());
}
#endif

// ------------------------------------------------------------------- V02
#if PROP(V02)
struct OutWatch {
  static inline Zone z;
  static inline size_t from, upto; // writable
  static void on(sim::MemEvent const& e) {
    size_t a = e.addr - reinterpret_cast<uintptr_t>(z.p);
    if (e.write && (e.addr < reinterpret_cast<uintptr_t>(z.p) || a < from || a + e.size > upto))
      sim::violate("overrun", "%zu bytes stored at offset %lld, writable are %zu..%zu", e.size, (long long)(e.addr - reinterpret_cast<uintptr_t>(z.p)), from, upto);
  }
};
// an output device that accepts `room` bytes and then is full
struct Device {
  Bytes8 got;
  size_t room = 0;
};
struct DeviceIt {
  Device* d;
  bool at_end;
  size_t pos;
  struct Ref;
#ifdef REDUCED
  using iterator_category = std::forward_iterator_tag;
#else
  using iterator_category = std::output_iterator_tag;
#endif
  using value_type = uint8_t;
  using difference_type = std::ptrdiff_t;
  using pointer = uint8_t*;
  using reference = uint8_t&;
  uint8_t& operator*() const {
    Unobserve u;
    if (pos >= d->room) sim::violate("overrun", "byte %zu written to a device with room for %zu", pos, d->room);
    if (d->got.size() <= pos) d->got.resize(pos + 1);
    return d->got[pos];
  }
  DeviceIt& operator++() { ++pos; return *this; }
  DeviceIt operator++(int) { DeviceIt t = *this; ++pos; return t; }
  bool operator==(DeviceIt const& o) const { return at_end ? o.pos >= d->room || o.at_end : o.at_end ? pos >= d->room : pos == o.pos; }
  bool operator!=(DeviceIt const& o) const { return !(*this == o); }
};
struct FullContainer { // a container that refuses bytes when full
  using value_type = uint8_t;
  using const_reference = uint8_t const&;
  Bytes8 got;
  size_t room;
  void push_back(uint8_t const& b) {
    Unobserve u;
    if (got.size() == room) { STAT("fault.device_full"); g_thrown = true; throw Fault{77}; }
    got.push_back(b);
  }
};

template <class T> void one_v02(uint32_t t) {
  T v = draw_value<T>();
  Bytes8 want = ref_encode(v);
  size_t sz;
  { Observe o; sz = varint::size(v); }
  CHECK(sz == want.size(), "size", "size of %s %lld is announced as %zu, the shortest encoding has %zu bytes", type_name[t], (long long)v, sz, want.size());
  size_t room = draw(13);
  size_t start = draw(6);
  uint32_t form = draw(6);
  bool fits = want.size() <= room;
  TRACE("encode %s %lld (%zu bytes) into room for %zu, form %u", type_name[t], (long long)v, want.size(), room, form);
  ev(static_cast<u64>(v), room, form);
  if (!fits) STAT("fault.no_room");
  arena_reset();
  OutWatch::z = zone(64, 64, 256);
  Zone& z = OutWatch::z;
  uint8_t* b = z.p + start;
  std::vector<unsigned char> img(z.p, z.p + z.n);
  auto check_region = [&](size_t written) {
    for (size_t i = 0; i < z.n; ++i) {
      bool in = i >= start && i < start + written;
      CHECK(in || z.p[i] == img[i], "overrun", "byte at offset %lld relative to the range start changed (room %zu)", (long long)i - (long long)start, room);
    }
    CHECK(z.redzones_ok(), "overrun", "memory around the output was modified");
  };
  auto check_bytes = [&](uint8_t const* p) {
    for (size_t i = 0; i < want.size(); ++i) CHECK(p[i] == want[i], "format", "byte %zu of the encoding of %s %lld is wrong", i, type_name[t], (long long)v);
  };
  auto arm = [&](size_t n) {
    OutWatch::from = start;
    OutWatch::upto = start + n;
    sim::watch(1, z.p - z.rz, z.n + 2 * z.rz);
    sim::set_observer(OutWatch::on);
  };
  switch (form) {
  case 0: case 1: { // bounded, pointer
    arm(fits ? want.size() : room);
    uint8_t* e;
    { Observe o; e = varint::encode(v, b, b + room); }
    sim::unwatch_all();
    if (fits) {
      CHECK(e == b + want.size(), "result", "encode of %zu bytes into room for %zu returned offset %lld", want.size(), room, (long long)(e - b));
      check_bytes(b);
      check_region(want.size());
    } else {
      CHECK(e == b, "result", "encode of %zu bytes into room for %zu returned offset %lld instead of the start", want.size(), room, (long long)(e - b));
      check_region(room);
    }
    break;
  }
  case 2: { // unbounded: exactly size() bytes
    arm(want.size());
    uint8_t* e;
    { Observe o; e = varint::encode(v, b); }
    sim::unwatch_all();
    CHECK(e == b + want.size(), "result", "unbounded encode returned offset %lld of %zu", (long long)(e - b), want.size());
    check_bytes(b);
    check_region(want.size());
    break;
  }
  case 3: { // device
    Device d;
    d.room = room;
    DeviceIt bi{&d, false, 0}, ei{&d, true, 0};
    DeviceIt e = bi;
    { Observe o; e = varint::encode(v, bi, ei); }
    if (fits) {
      CHECK(e.pos == want.size() && d.got.size() == want.size(), "result", "device accepted %zu of %zu bytes, position %zu", d.got.size(), want.size(), e.pos);
      check_bytes(d.got.data());
    } else {
      CHECK(e.pos == 0, "result", "encode to a full device returned position %zu instead of the start", e.pos);
      CHECK(d.got.size() <= room, "overrun", "device got more than it accepts");
    }
    break;
  }
  case 4: { // ring buffer iterators as the range
    uint8_t mem[16];
    embedded::circular_buffer_adapter<uint8_t> ring(mem, sizeof mem, draw(16), 0);
    for (size_t i = 0; i < room; ++i) ring.push_back(static_cast<uint8_t>(0xA0 + i));
    auto rb = ring.begin(), re = ring.end();
    auto e = rb;
    { Observe o; e = varint::encode(v, rb, re); }
    if (fits) {
      CHECK(static_cast<size_t>(e - rb) == want.size(), "result", "encode into ring buffer range");
      for (size_t i = 0; i < room; ++i) CHECK(ring[i] == (i < want.size() ? want[i] : static_cast<uint8_t>(0xA0 + i)), "format", "byte %zu in the ring buffer is wrong", i);
    } else CHECK(e == rb, "result", "encode into a too small ring buffer range did not return the start");
    break;
  }
  default: { // container that refuses
    FullContainer c;
    c.room = room;
    g_thrown = false;
    bool caught = false;
    try { Observe o; varint::encode(v, std::back_inserter(c)); } catch (Fault const&) { caught = true; }
    CHECK(caught == !fits, "swallowed", "container refused byte %zu of %zu, exception %s", room, want.size(), caught ? "arrived" : "did not arrive");
    CHECK(c.got.size() == std::min(room, want.size()), "result", "container got %zu bytes", c.got.size());
    for (size_t i = 0; i < c.got.size(); ++i) CHECK(c.got[i] == want[i], "format", "byte %zu appended is wrong", i);
  }
  }
  STAT("ops");
  sim::cover_state(sim::mix(sim::mix(t, room * 8 + form), static_cast<u64>(fold(v))));
}
void run_v02() {
  run_reset();
  uint32_t n = range(4, 24);
  for (uint32_t i = 0; i < n; ++i) {
    sim::Span s;
    uint32_t t = draw(kTypes);
    with_type(t, [&](auto tag) { one_v02<decltype(tag)>(t); });
  }
}
#endif

// ------------------------------------------------------------------- V03
#if PROP(V03)
struct InWatch {
  static inline Zone z;
  static inline size_t n;     // bytes in the range
  static inline size_t limit; // bytes it has any business reading
  static void on(sim::MemEvent const& e) {
    long long a = static_cast<long long>(e.addr) - static_cast<long long>(reinterpret_cast<uintptr_t>(z.p));
    if (e.write) sim::violate("wrote-input", "decode stored into its input");
    if (a < 0 || static_cast<size_t>(a) + e.size > n) sim::violate("overread", "read of offset %lld in a range of %zu bytes", a, n);
    if (static_cast<size_t>(a) + e.size > limit) sim::violate("overread", "read of offset %lld beyond the encoding, which ends at %zu", a, limit);
  }
};
template <class T> void one_v03(uint32_t t, Bytes8 const& in, size_t off) {
  uint8_t const* raw = in.data() + off;
  size_t n = in.size() - off;
  Parsed pr = ref_parse(raw, n);
  bool fitsT = pr.len && !pr.huge && pr.v <= max_code<T>();
  T v = static_cast<T>(0x5a);
  size_t used;
  uint32_t form = draw(3);
  if (form == 0) {
    arena_reset();
    InWatch::z = zone(in.size(), 64, 256);
    memcpy(InWatch::z.p, raw, n);
    for (size_t i = n; i < in.size(); ++i) InWatch::z.p[i] = 0x7f;
    InWatch::n = n;
    InWatch::limit = pr.len ? pr.len : n;
    sim::watch(1, InWatch::z.p - InWatch::z.rz, InWatch::z.n + 2 * InWatch::z.rz);
    sim::set_observer(InWatch::on);
    uint8_t const* b = InWatch::z.p;
    uint8_t const* e;
    { Observe o; e = varint::decode(v, b, b + n); }
    sim::unwatch_all();
    CHECK(e >= b && e <= b + n, "result", "decode returned a position outside the range");
    used = static_cast<size_t>(e - b);
  } else if (form == 1) {
    Bytes8 c(raw, raw + n);
    ProbeIt b{c.data(), c.data(), c.data() + n}, e{c.data() + n, c.data(), c.data() + n};
    Observe o;
    used = static_cast<size_t>(varint::decode(v, b, e).p - c.data());
  } else {
    std::list<uint8_t> c(raw, raw + n);
    Observe o;
    auto e = varint::decode(v, c.begin(), c.end());
    used = static_cast<size_t>(std::distance(c.begin(), e));
  }
  TRACE("decode %s from %zu bytes %02x %02x %02x ...: %zu consumed", type_name[t], n, n > 0 ? raw[0] : 0, n > 1 ? raw[1] : 0, n > 2 ? raw[2] : 0, used);
  ev(used, used ? static_cast<u64>(v) : 0);
  STAT("ops");
  sim::cover_state(sim::mix(sim::mix(t, pr.len * 4 + fitsT * 2 + pr.minimal), n));
  if (used == 0) {
    if (pr.len && fitsT && pr.minimal)
      sim::violate("rejected", "a shortest encoding of %zu bytes that fits %s was rejected", pr.len, type_name[t]);
    if (pr.len == 0) STAT("probe.cut_off_rejected");
    else if (!fitsT) STAT("probe.too_large_rejected");
    return;
  }
  CHECK(pr.len, "invented", "decode accepted %zu bytes although the encoding does not end within the range", used);
  CHECK(used == pr.len, "length", "decode consumed %zu bytes of an encoding of %zu", used, pr.len);
  CHECK(fitsT, "truncated", "the encoded value does not fit %s, but decode delivered %lld", type_name[t], (long long)v);
  CHECK(v == unfold<T>(pr.v), "value", "decoded %s %lld, encoded was another value", type_name[t], (long long)v);
}
void run_v03() {
  run_reset();
  Bytes8 s;
  uint32_t parts = range(1, 6);
  for (uint32_t i = 0; i < parts; ++i) {
    sim::Span sp;
    static const uint32_t w[] = {4, 2, 2, 2, 1, 2};
    switch (sim::weighted(w)) {
    case 0: with_type(draw(kTypes), [&](auto tag) { auto b = ref_encode(draw_value<decltype(tag)>()); s.insert(s.end(), b.begin(), b.end()); }); break;
    case 1: { uint32_t k = range(1, 14); for (uint32_t q = 0; q < k; ++q) s.push_back(static_cast<uint8_t>(draw(256))); break; }
    case 2: { uint32_t k = range(1, 13); for (uint32_t q = 0; q < k; ++q) s.push_back(static_cast<uint8_t>(0x80 | draw(draw(2) ? 128 : 1))); s.push_back(static_cast<uint8_t>(draw(128))); break; } // long, possibly padded
    case 3: { // one group boundary: maximal value and one more
      u128 m = (static_cast<u128>(1) << (8u << draw(4))) - draw(3);
      auto b = ref_encode_unsigned(m);
      s.insert(s.end(), b.begin(), b.end());
      break;
    }
    case 4: { uint32_t k = range(9, 40); for (uint32_t q = 0; q < k; ++q) s.push_back(static_cast<uint8_t>(draw(2) ? 0xff : 0x80)); break; }
    default: { // bit above the width
      uint32_t bit = draw(72);
      auto b = ref_encode_unsigned((static_cast<u128>(1) << bit) | draw(200));
      s.insert(s.end(), b.begin(), b.end());
    }
    }
  }
  // the damage
  uint32_t nd = draw(4);
  for (uint32_t i = 0; i < nd && !s.empty(); ++i) {
    sim::Span sp;
    size_t at = draw(static_cast<uint32_t>(s.size()));
    switch (draw(6)) {
    case 0: s[at] ^= static_cast<uint8_t>(1u << draw(8)); STAT("fault.bit_flip"); break;
    case 1: s.erase(s.begin() + static_cast<std::ptrdiff_t>(at)); STAT("fault.byte_lost"); break;
    case 2: s.insert(s.begin() + static_cast<std::ptrdiff_t>(at), s[at]); STAT("fault.byte_duplicated"); break;
    case 3: s.resize(at); STAT("fault.truncated"); break;
    case 4: if (at + 1 < s.size()) std::swap(s[at], s[at + 1]); STAT("fault.bytes_swapped"); break;
    default: s[at] = static_cast<uint8_t>(draw(256)); STAT("fault.byte_corrupted"); break;
    }
  }
  uint32_t tries = range(1, 8);
  for (uint32_t i = 0; i < tries; ++i) {
    sim::Span sp;
    size_t off = draw(static_cast<uint32_t>(s.size() + 1));
    size_t keep = s.size();
    Bytes8 view = s;
    if (draw(2)) { keep = off + draw(static_cast<uint32_t>(s.size() - off + 1)); view.resize(keep); STAT("fault.cut_short"); }
    uint32_t t = draw(kTypes);
    with_type(t, [&](auto tag) { one_v03<decltype(tag)>(t, view, off); });
  }
}
#endif
} // namespace

#ifdef ONLY_A01
namespace { bool const component = h::add_component("varint", run_v01); }
#else
namespace sim {
const Harness harnesses[] = {
#if PROP(V01)
    {"V01", run_v01, "stream round trip"},
#elif PROP(V02)
    {"V02", run_v02, "bounded encode"},
#elif PROP(V03)
    {"V03", run_v03, "damaged input"},
#endif
};
const size_t n_harnesses = sizeof harnesses / sizeof harnesses[0];
} // namespace sim
#endif
