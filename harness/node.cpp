// Y01: a sensor node built from the library's parts, under preemption, power
// loss, restarts and a bad link.
//
//   sampler --(function wrappers in a ring, lock_guard)--> main loop
//   main loop --(varint records, ring in persistent memory, lock_guard)--> uplink
//   uplink <--(lossy, duplicating, reordering, delaying link)--> receiver
//
// The ring's bytes and a two-slot checksummed header survive; all else is lost.
#include "common.h"
#include "power.h"
#include "ring64.h"

#include <embedded/circular_buffer_adapter.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include <embedded/varint.h>

#include <iterator>

namespace {
using namespace h;
using flt::RingRef;
using flt::Sec;
using flt::Z64;
using u64 = uint64_t;
using embedded::circular_buffer_adapter;
using embedded::lock_guard;
using embedded::move_wrapper;
using embedded::varint;

// ------------------------------------------------------------ fixed designs
namespace es = embedded::signal;
constexpr es::iirfilter<double> g_iir(1000.0);
const auto d_sos3 = g_iir.lowpass(es::butterworth<3>(), 120.0).sos<Z64>();
const auto d_sos5 = g_iir.highpass(es::chebyshev1<5>(1.0), 90.0).sos<Z64>(es::sos_gain::distribute);
const auto d_poly2 = g_iir.lowpass(es::bessel<2>(), 60.0).poly<Z64>();
const auto d_poly4 = g_iir.highpass(es::chebyshev2<4>(30.0), 200.0).poly<Z64>();
template <size_t N> std::vector<Sec> equation(es::poly_design<Z64, N> const& p) {
  Sec s;
  auto const b = p.b();
  auto const a = p.a();
  for (size_t i = 0; i <= N; ++i) { s.b.push_back(b[i].v); s.a.push_back(a[i].v); }
  return {s};
}
template <size_t N> std::vector<Sec> equation(es::sos_design<Z64, N> const& p) {
  std::vector<Sec> r;
  for (size_t i = 0; i < p.size(); ++i) {
    Sec s;
    auto const b = p.sos()[i].b();
    auto const a = p.sos()[i].a();
    for (size_t k = 0; k < 3; ++k) { s.b.push_back(b[k].v); s.a.push_back(a[k].v); }
    r.push_back(s);
  }
  return r;
}
template <size_t N> auto design() -> typename std::enable_if<N == 0, decltype((d_sos3))>::type { return d_sos3; }
template <size_t N> auto design() -> typename std::enable_if<N == 1, decltype((d_sos5))>::type { return d_sos5; }
template <size_t N> auto design() -> typename std::enable_if<N == 2, decltype((d_poly2))>::type { return d_poly2; }
template <size_t N> auto design() -> typename std::enable_if<N == 3, decltype((d_poly4))>::type { return d_poly4; }

// ------------------------------------------------------------------ records
struct Plain { uint32_t seq, boot, k; int64_t y; };
bool operator==(Plain const& a, Plain const& b) { return a.seq == b.seq && a.boot == b.boot && a.k == b.k && a.y == b.y; }
int g_live = 0; // samples alive in RAM
struct Sample { // moves between the tasks; never copied
  uint32_t k;
  u64 y;
  bool full;
  Sample(uint32_t k, u64 y) : k(k), y(y), full(true) { count(1); }
  Sample(Sample const&) = delete;
  Sample& operator=(Sample const&) = delete;
  Sample(Sample&& o) noexcept : k(o.k), y(o.y), full(o.full) { o.full = false; count(1); }
  ~Sample() { count(-1); full = false; }
  SIM_NOINSTR __attribute__((noinline)) static void count(int d) { g_live += d; }
};

// ------------------------------------------------------- persistent memory
struct Header {
  u64 gen, pos, n, next_seq, boots, sum;
  u64 check() const { return sim::mix(sim::mix(sim::mix(sim::mix(sim::mix(0x51, gen), pos), n), next_seq), boots); }
};
struct Persistent {
  Zone ring, hdr;
  size_t cap;
  Header* slot(u64 g) const { return reinterpret_cast<Header*>(hdr.p) + (g & 1); }
};

// -------------------------------------------------------------- the link
struct Frame { u64 at; bool ack; uint32_t seq; std::vector<uint8_t> bytes; };

// ------------------------------------------------- what must be true (ghost)
struct Ghost {
  std::vector<Plain> log;   // every record ever committed; index = seq
  size_t popped = 0;        // of those, removed from the node after delivery
  size_t delivered = 0;     // received, in order
  enum { NONE, PUSH, POP, BOOT } flight = NONE; // transaction being committed
  Plain cand{};
  u64 boots = 0;
};

struct World {
  Persistent mem;
  Ghost g;
  std::vector<Frame> air;   // in flight; survives the node's power cuts
  uint32_t loss = 0, dup = 0, delay = 1; // faults of the link, per cent / ticks
  u64 salt = 0;
  uint32_t next_reboot = 0;
  // of the current boot
  uint32_t lost_queue = 0, lost_log = 0, committed = 0, samples = 0;
  uint32_t stalls = 0;
  bool spin = false;
};
World* W;
u64 input(u64 boot, uint32_t k) {
  u64 v = sim::mix(sim::mix(W->salt, boot), k);
  return v % 5 == 0 ? 0 : v % 5 == 1 ? v % 300 : v; // some quiet and some small samples
}

void stall(const char* where) {
  if (W->stalls == 0 || draw(8) != 7) return;
  --W->stalls;
  STAT("fault.stalled_task");
  uint32_t d = range(1, 30);
  TRACE("    task %d stalls for %u ticks %s", sim::current_task(), d, where);
  sim::sleep_until(sim::now + d);
}
struct Mutex {
  int owner = -1;
  void lock() {
    Unobserve u;
    sim::preempt_point();
    int const self = sim::current_task();
    if (owner == self && self >= 0) sim::violate("double-lock", "task %d locks a mutex it already holds", self);
    while (owner != -1) {
      STAT("probe.contended_lock");
      if (W->spin) sim::sleep_until(sim::now + 1);
      else sim::block_on(this);
    }
    owner = self;
    stall("holding a mutex");
  }
  void unlock() {
    Unobserve u;
    stall("before unlocking");
    if (owner != sim::current_task()) sim::violate("unlock-not-owner", "task %d unlocks a mutex it does not hold", sim::current_task());
    owner = -1;
    sim::wake(this);
    if (draw(4) == 3) sim::yield();
  }
};
using Guard = lock_guard<Mutex>;
struct Semaphore {
  unsigned n = 0;
  void post() { Unobserve u; ++n; sim::wake(this); }
  bool take_now() { if (n == 0) return false; --n; return true; }
};

// -------------------------------------------------------------------- node
using Event = embedded::function<void(), 64>;
using Calibrate = embedded::function<u64(u64) const, 16>;
using OnAck = embedded::function<void(uint32_t), 16>;

template <size_t D> struct Node {
  using Inst = decltype(design<D>().instance());
  Mutex qm, fm;
  Semaphore events, acks;
  alignas(Event) unsigned char qmem[sizeof(Event) * 5];
  circular_buffer_adapter<Event> queue;
  circular_buffer_adapter<uint8_t> log;
  Inst filter;
  Calibrate calibrate; // shared by all tasks
  OnAck on_ack;
  u64 gen, boots, next_seq;
  u64 boot; // the actual number of this boot, as the world counts
  uint32_t acked = 0;
  bool sampling = true, main_running = true, uplink_running = true;
  uint32_t K, period, timeout;
  bool final_boot;

  Node(size_t qcap, Persistent const& m, Header const& h)
      : queue(reinterpret_cast<Event*>(qmem), qcap),
        log(m.ring.p, m.cap, static_cast<size_t>(h.pos), static_cast<size_t>(h.n)), filter(design<D>().instance()),
        gen(h.gen), boots(h.boots), next_seq(h.next_seq) {}

  // ------------------------------------------------------------ persistence
  void commit(int flight) { // inside the critical section (or alone)
    { Unobserve u; W->g.flight = static_cast<decltype(W->g.flight)>(flight); STAT("commits"); }
    Header volatile* s = W->mem.slot(gen + 1);
    Header h;
    h.gen = gen + 1;
    h.pos = log.raw_index(log.begin());
    h.n = log.size();
    if (h.n == 0) h.pos = 0; // nowhere in particular
    h.next_seq = next_seq;
    h.boots = boots;
    h.sum = h.check();
    s->gen = h.gen; s->pos = h.pos; s->n = h.n; s->next_seq = h.next_seq; s->boots = h.boots; s->sum = h.sum;
    Unobserve u;
    Power::op_end();
    ++gen;
    Ghost& g = W->g;
    if (flight == Ghost::PUSH) {
      g.log.push_back(g.cand);
      ++W->committed;
      TRACE("    record %u committed (boot %u, sample %u), %zu bytes in the log", g.cand.seq, g.cand.boot, g.cand.k, static_cast<size_t>(h.n));
    } else if (flight == Ghost::POP) {
      ++g.popped;
      TRACE("    record removed after delivery, %zu bytes in the log", static_cast<size_t>(h.n));
    }
    g.flight = Ghost::NONE;
  }

  // ----------------------------------------------------------------- sampler
  void sample() {
    for (uint32_t k = 0; k < K; ++k) {
      sim::sleep_until(sim::now + period);
      sim::Span sp;
      u64 const x = input(boot, k);
      bool sent = false;
      {
        Observe o;
        u64 const y = calibrate(filter(Z64::raw(x)).v);
        Event e;
        switch (k % 3) { // different targets of different sizes
        case 0: e = Event([this, s = move_wrapper<Sample>(Sample(k, y))]() mutable { store(*s); }); break;
        case 1: e = [s = move_wrapper<Sample>(Sample(k, y)), this, pad = u64(k)]() mutable { if (pad == s->k) store(*s); }; break;
        default: {
          Sample s(k, y);
          Event f([this, m = move_wrapper<Sample>(std::move(s))] { store(*m); });
          swap(e, f);
        }
        }
        Guard g(qm);
        if (!queue.full()) {
          if (k & 1) queue.push_back(std::move(e));
          else queue.emplace_back(std::move(e));
          sent = true;
        }
      }
      ++W->samples;
      if (sent) events.post();
      else { ++W->lost_queue; STAT("probe.event_queue_full"); TRACE("    sample %u lost: event queue full", k); }
      stall("between samples");
    }
    sampling = false;
    events.post();
  }
  static void swap(Event& a, Event& b) {
    Event t(std::move(a));
    a = std::move(b);
    b = std::move(t);
  }

  // --------------------------------------------------------------- main loop
  void main_loop() {
    for (;;) {
      while (!events.take_now()) sim::block_on(&events);
      Observe o;
      Event e;
      {
        Guard g(qm);
        if (!queue.empty()) { e = std::move(queue.front()); queue.pop_front(); }
      }
      if (e) e();
      else { Unobserve u; if (!sampling) break; sim::violate("event-lost", "an event was posted, but the queue is empty"); }
    }
    main_running = false;
    acks.post();
  }
  void store(Sample const& s) { // an event handler
    CHECK(s.full, "event", "the sample of an event is gone when it is handled");
    u64 const raw = calibrate(s.y); // its own inverse
    int64_t const y = static_cast<int64_t>(raw);
    uint32_t const b = static_cast<uint32_t>(boot);
    Guard g(fm);
    uint32_t const seq = static_cast<uint32_t>(next_seq);
    size_t const need = varint::size(seq) + varint::size(b) + varint::size(s.k) + varint::size(y);
    if (need > log.remaining()) {
      Unobserve u;
      ++W->lost_log;
      STAT("probe.log_full");
      TRACE("    sample %u lost: log full", s.k);
      return;
    }
    { Unobserve u; W->g.cand = {seq, b, s.k, y}; }
    switch (s.k % 4) {
    case 0: {
      uint8_t tmp[32];
      uint8_t* p = varint::encode(seq, tmp, tmp + sizeof tmp);
      p = varint::encode(b, p, tmp + sizeof tmp);
      p = varint::encode(s.k, p, tmp + sizeof tmp);
      p = varint::encode(y, p, tmp + sizeof tmp);
      log.copy_in_back(tmp, static_cast<size_t>(p - tmp));
      break;
    }
    case 1: {
      auto out = std::back_inserter(log);
      varint::encode(seq, out);
      varint::encode(b, out);
      varint::encode(s.k, out);
      varint::encode(y, out);
      break;
    }
    case 2: { // room first, then in place
      size_t const at = log.size();
      for (size_t i = 0; i < need; ++i) log.push_back(0xff);
      auto p = varint::encode(seq, log.begin() + static_cast<std::ptrdiff_t>(at), log.end());
      p = varint::encode(b, p, log.end());
      p = varint::encode(s.k, p, log.end());
      p = varint::encode(y, p, log.end());
      break;
    }
    default: {
      uint8_t tmp[32];
      uint8_t* p = varint::encode(y, varint::encode(s.k, varint::encode(b, varint::encode(seq, tmp))));
      for (uint8_t* q = tmp; q != p; ++q) log.emplace_back(*q);
    }
    }
    ++next_seq;
    commit(Ghost::PUSH);
  }

  // ------------------------------------------------------------------ uplink
  bool peek(Plain& r, std::vector<uint8_t>& bytes) { // the oldest record
    uint8_t tmp[64];
    size_t len;
    {
      Guard g(fm);
      if (log.empty()) return false;
      auto it = decode(log.cbegin(), log.cend(), r);
      CHECK(it != log.cbegin(), "unreadable", "the oldest record in the log cannot be decoded");
      len = static_cast<size_t>(it - log.cbegin());
      CHECK(len <= sizeof tmp, "unreadable", "the oldest record in the log takes %zu bytes", len);
      if (r.seq & 1) log.copy_out(log.cbegin(), it, tmp);
      else { size_t i = 0; for (auto p = log.begin(); i < len; ++p, ++i) tmp[i] = *p; }
    }
    Unobserve u;
    bytes.assign(tmp, tmp + len);
    return true;
  }
  template <class It> static It decode(It const b, It const e, Plain& r) {
    It i = varint::decode(r.seq, b, e);
    if (i == b) return b;
    It j = varint::decode(r.boot, i, e);
    if (j == i) return b;
    i = varint::decode(r.k, j, e);
    if (i == j) return b;
    j = varint::decode(r.y, i, e);
    return j == i ? b : j;
  }
  void uplink() {
    u64 idle = 0;
    for (;;) {
      Plain r;
      std::vector<uint8_t> bytes;
      bool const over = !main_running; // looked at first: nothing is logged any more
      bool some;
      { Observe o; some = peek(r, bytes); }
      if (!some) {
        if (over) break;
        sim::sleep_until(sim::now + range(1, 6));
        continue;
      }
      Ghost const& g = W->g;
      CHECK(g.popped < g.log.size() && r == g.log[g.popped], "wrong-record",
            "the oldest record in the log is %u (boot %u, sample %u, value %lld), expected record %zu", r.seq, r.boot, r.k, (long long)r.y, g.popped);
      if (!final_boot && over && ++idle > 3) break; // orderly shutdown with records left
      transmit(Frame{0, false, r.seq, bytes});
      u64 const until = sim::now + timeout;
      while (sim::now < until && acked <= r.seq) {
        if (acks.take_now()) continue;
        sim::sleep_until(sim::now + 2);
      }
      if (acked <= r.seq) { STAT("probe.retransmission"); continue; }
      remove(r, bytes.size());
    }
    uplink_running = false;
  }
  void remove(Plain const& r, size_t len) {
    Observe o;
    Guard g(fm);
    switch (r.k % 3) {
    case 0: log.pop_front(len); break;
    case 1: for (size_t i = 0; i < len; ++i) log.pop_front(); break;
    default: { uint8_t tmp[64]; log.copy_out_front(tmp, len); }
    }
    commit(Ghost::POP);
  }
  // -------------------------------------------------- link, receiver (world)
  static void transmit(Frame const& f) {
    Unobserve u;
    int copies = 1;
    if (draw(100) < W->loss) { copies = 0; STAT("fault.message_lost"); }
    else if (draw(100) < W->dup) { copies = 2; STAT("fault.message_duplicated"); }
    for (int i = 0; i < copies; ++i) {
      Frame c = f;
      c.at = sim::now + 1 + draw(W->delay);
      if (!W->air.empty() && c.at < W->air.back().at) STAT("fault.message_reordered");
      if (c.at > sim::now + 20) STAT("fault.message_delayed");
      W->air.push_back(std::move(c));
    }
  }
  void receive(Frame const& f) {
    Ghost& g = W->g;
    Plain r{};
    uint8_t buf[64];
    uint8_t const* end;
    std::copy(f.bytes.begin(), f.bytes.end(), buf);
    { Observe o; end = decode(static_cast<uint8_t const*>(buf), static_cast<uint8_t const*>(buf) + f.bytes.size(), r); }
    CHECK(end == buf + f.bytes.size(), "damaged", "the receiver cannot decode message %u (%zu bytes)", f.seq, f.bytes.size());
    CHECK(r.seq <= g.delivered, "gap", "the receiver gets record %u when %zu is next", r.seq, g.delivered);
    if (r.seq == g.delivered) {
      CHECK(r.seq < g.log.size() && r == g.log[r.seq], "damaged", "the receiver gets record %u (boot %u, sample %u, value %lld), which was not committed like that",
            r.seq, r.boot, r.k, (long long)r.y);
      ++g.delivered;
      STAT("records_delivered");
      ev(0xd0, r.seq, static_cast<u64>(r.y));
      TRACE("    record %u received (boot %u, sample %u)", r.seq, r.boot, r.k);
    } else STAT("probe.duplicate_delivery");
    transmit(Frame{0, true, r.seq, {}});
  }
  void world() {
    while (uplink_running) {
      size_t best = W->air.size();
      for (size_t i = 0; i < W->air.size(); ++i)
        if (W->air[i].at <= sim::now && (best == W->air.size() || W->air[i].at < W->air[best].at)) best = i;
      if (best == W->air.size()) { sim::sleep_until(sim::now + 1); continue; }
      Frame f = std::move(W->air[best]);
      W->air.erase(W->air.begin() + static_cast<std::ptrdiff_t>(best));
      if (f.ack) { Observe o; on_ack(f.seq); }
      else receive(f);
    }
  }

  // ------------------------------------------------------------------- boot
  // what the restarted node finds must be what was committed
  void verify_log(Ghost& g) {
    std::vector<Plain> got;
    {
      Observe o;
      auto it = log.cbegin();
      while (it != log.cend()) {
        Plain r;
        auto n = decode(it, log.cend(), r);
        CHECK(n != it, "unreadable", "after restart record %zu of the log cannot be decoded", got.size());
        it = n;
        Unobserve u;
        got.push_back(r);
        CHECK(got.size() <= 1000, "unreadable", "after restart the log has no end");
      }
    }
    auto matches = [&](size_t popped, std::vector<Plain> const& all) {
      return got.size() == all.size() - popped && std::equal(got.begin(), got.end(), all.begin() + static_cast<std::ptrdiff_t>(popped));
    };
    std::vector<Plain> with = g.log;
    with.push_back(g.cand);
    if (g.flight == Ghost::PUSH && next_seq == with.size() && matches(g.popped, with)) { g.log = with; STAT("probe.commit_in_doubt_done"); }
    else if (g.flight == Ghost::POP && matches(g.popped + 1, g.log)) { ++g.popped; STAT("probe.commit_in_doubt_done"); }
    else
      CHECK(matches(g.popped, g.log), "recovery", "after restart the log holds %zu records%s%s, expected the %zu committed from number %zu on", got.size(),
            got.empty() ? "" : " from number ", got.empty() ? "" : std::to_string(got[0].seq).c_str(), g.log.size() - g.popped, g.popped);
    CHECK(next_seq == g.log.size(), "recovery", "after restart the next record number is %llu, expected %zu", (unsigned long long)next_seq, g.log.size());
    g.flight = Ghost::NONE;
    ev(0xb0, got.size(), g.popped);
  }
  // what is committed in this boot must be what was sampled
  static void verify_samples(u64 boot, size_t from, bool clean) {
    Ghost const& g = W->g;
    RingRef ref(equation(design<D>()));
    uint32_t k = 0;
    for (size_t i = from; i < g.log.size(); ++i) {
      Plain const& r = g.log[i];
      CHECK(r.boot == static_cast<uint32_t>(boot), "boot", "record %u carries boot %u instead of %llu", r.seq, r.boot, (unsigned long long)boot);
      CHECK(r.seq == i, "sequence", "record %zu carries number %u", i, r.seq);
      CHECK(r.k >= k, "order", "sample %u was logged after sample %u", r.k, k - 1);
      u64 y = 0;
      for (; k <= r.k; ++k) y = ref.next(input(boot, k));
      CHECK(r.y == static_cast<int64_t>(y), "value", "sample %u of boot %llu was logged as %lld, the filter's equation gives %lld", r.k, (unsigned long long)boot, (long long)r.y, (long long)y);
    }
    if (clean)
      CHECK(W->committed + W->lost_queue + W->lost_log == W->samples, "lost", "%u samples, but %u records, %u found the queue full and %u the log full",
            W->samples, W->committed, W->lost_queue, W->lost_log);
  }
};

template <size_t D> struct Y {
  using N = Node<D>;
  alignas(64) static inline unsigned char ram[sizeof(N)];
  static void run() {
    run_reset();
    World w;
    W = &w;
    Persistent& m = w.mem;
    m.cap = range(24, draw(3) ? 64 : 220);
    m.ring = zone(m.cap, 64, 128);
    m.hdr = zone(2 * sizeof(Header), 64, 128);
    Header h{};
    h.pos = draw(static_cast<uint32_t>(m.cap));
    h.sum = h.check();
    *m.slot(0) = h;
    memset(m.slot(1), 0x5a, sizeof(Header));
    w.salt = draw(0x7fffffff);
    uint32_t boots = range(0, 4);
    for (uint32_t b = 0; b <= boots; ++b)
      if (!boot(b == boots)) continue;
    Ghost const& g = w.g;
    CHECK(g.delivered == g.log.size(), "undelivered", "%zu of %zu committed records were delivered", g.delivered, g.log.size());
    CHECK(g.popped == g.log.size(), "undelivered", "%zu of %zu delivered records were removed", g.popped, g.log.size());
    CHECK(m.ring.redzones_ok() && m.hdr.redzones_ok(), "outside", "memory beside the persistent storage was written");
    STAT_N("records_committed", g.log.size());
    ev(sim::sched_hash());
    sim::cover_state(sim::mix(sim::mix(m.cap, g.log.size()), m.slot(0)->pos));
    sim::cover_sched(sim::sched_hash());
  }
  static bool boot(bool final) {
    sim::Span sp;
    World& w = *W;
    Persistent& m = w.mem;
    Ghost& g = w.g;
    // faults of this boot
    w.loss = final ? 0 : draw(3) ? draw(60) : 100;
    w.dup = draw(40);
    w.delay = final ? 10 : range(1, 60);
    w.stalls = draw(final ? 3 : 12);
    w.spin = draw(4) == 3;
    if (final) // the link has recovered; what is still in the air arrives
      for (Frame& f : w.air) f.at = std::min(f.at, sim::now + 10);
    w.lost_queue = w.lost_log = w.committed = w.samples = 0;
    uint32_t const cut = final ? 0 : draw(4); // 0: none, 1: at a store, 2: at a time, 3: at a memory access
    Power::reset();
    s_accesses = ~u64(0);
    u64 cut_at = 0;
    if (cut == 1) { Power::cut_in = draw(draw(3) ? 60 : 300); Power::torn = draw(2) != 0; }
    if (cut == 2) cut_at = sim::now + draw(300);
    if (cut == 3) s_accesses = draw(draw(2) ? 3000 : 20000);
    // the newest header with a good checksum
    Header h{};
    bool ok0 = m.slot(0)->sum == m.slot(0)->check(), ok1 = m.slot(1)->sum == m.slot(1)->check();
    if (!ok0 && !ok1) sim::violate("recovery", "both commit headers are damaged");
    h = !ok1 || (ok0 && m.slot(0)->gen > m.slot(1)->gen) ? *m.slot(0) : *m.slot(1);
    size_t const from_before = g.log.size();
    size_t from = from_before;
    memset(ram, 0xA5, sizeof ram);
    g_live = 0;
    bool in_tasks = false;
    N* n = nullptr;
    size_t const qcap = range(1, 5);
    uint32_t K = range(1, draw(3) ? 12 : 40), period = range(1, 12), timeout = range(5, 60);
    u64 const key = draw(2) ? w.salt * 0x9e3779b97f4a7c15ull : 0;
    u64 const started = sim::now;
    ++g.boots;
    TRACE("boot %llu at %llu: log of %llu bytes at %llu, capacity %zu, %u samples, cut %u", (unsigned long long)g.boots, (unsigned long long)sim::now,
          (unsigned long long)h.n, (unsigned long long)h.pos, m.cap, K, cut);
    uint32_t gaps[] = {5, 20, 80, 400, 0};
    sim::set_preempt_max_gap(gaps[draw(5)]);
    sim::watch(9, nullptr, ~size_t(0) / 2);
    sim::set_observer(on_access);
    s_lo0 = reinterpret_cast<uintptr_t>(m.ring.p); s_hi0 = s_lo0 + m.ring.n;
    s_lo1 = reinterpret_cast<uintptr_t>(m.hdr.p); s_hi1 = s_lo1 + m.hdr.n;
    sim::spawn([&] {
      { Observe o; n = new (ram) N(qcap, m, h); }
      n->K = K; n->period = period; n->timeout = timeout; n->final_boot = final;
      n->boot = g.boots;
      n->acked = static_cast<uint32_t>(g.popped);
      n->verify_log(g);
      from = g.log.size();
      n->acked = 0;
      {
        Observe o;
        n->calibrate = [key](u64 v) { return v ^ key; };
        n->on_ack = [n](uint32_t s) { if (s + 1 > n->acked) n->acked = s + 1; n->acks.post(); };
        ++n->boots;
        n->commit(Ghost::BOOT);
      }
      in_tasks = true;
      sim::spawn([n] { n->sample(); }, "sampler");
      sim::spawn([n] { n->main_loop(); }, "main");
      sim::spawn([n] { n->uplink(); }, "uplink");
      sim::spawn([n] { n->world(); }, "world");
      if (cut == 2) sim::spawn([cut_at] {
        sim::sleep_until(cut_at);
        if (!s_running) return;
        STAT("fault.power_cut_at_time");
        TRACE("  power lost");
        sim::power_cut();
      }, "power");
    }, "boot");
    s_running = true;
    bool const whole = sim::run_tasks_until_cut(2000000);
    s_running = false;
    sim::unwatch_all();
    Power::reset();
    STAT("boots");
    N::verify_samples(g.boots, from, whole);
    if (whole) {
      if (final) {
        u64 const bound = started + u64(K) * period + 3000 + 300 * (g.log.size() + 1);
        CHECK(sim::now <= bound, "slow", "after the faults stopped everything was delivered only at %llu, the bound is %llu", (unsigned long long)sim::now, (unsigned long long)bound);
      }
      Observe o;
      n->~N();
      Unobserve u;
      CHECK(g_live == 0, "leak", "%d samples are still alive after all events were handled", g_live);
    }
    return whole;
  }
  static inline u64 s_accesses;
  static inline bool s_running = false;
  static inline uintptr_t s_lo0, s_hi0, s_lo1, s_hi1;
  static void on_access(sim::MemEvent const& e) {
    if (Power::pending) Power::settle();
    if (e.write && ((e.addr >= s_lo0 && e.addr < s_hi0) || (e.addr >= s_lo1 && e.addr < s_hi1))) {
      Power::on_access(e);
      if (Power::pending) return; // the store itself comes first
    }
    if (s_accesses-- == 0) {
      STAT("fault.power_cut_anywhere");
      TRACE("  power lost");
      sim::power_cut();
    }
    sim::preempt_point();
  }
};
void run_y01() {
  switch (draw(4)) {
  case 0: Y<0>::run(); break;
  case 1: Y<1>::run(); break;
  case 2: Y<2>::run(); break;
  default: Y<3>::run(); break;
  }
}
} // namespace

namespace sim {
const Harness harnesses[] = {{"Y01", run_y01, "sensor node"}};
const size_t n_harnesses = 1;
} // namespace sim
