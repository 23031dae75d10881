// Circular buffer adapter under simulation: C01..C07, M01.
#include "common.h"
#include "power.h"

#ifdef LIB_NOEXC // as in builds without exceptions, which the harness cannot do without
#include <embedded/config.h>
#undef LIBEMB_HAS_EXCEPTIONS
#define LIBEMB_HAS_EXCEPTIONS 0
#endif
#include <embedded/circular_buffer_adapter.h>

#include <iterator>
#include <map>
#include <sys/mman.h>

inline void (*g_type_run[16])();

namespace {
using namespace h;
using embedded::circular_buffer_adapter;

enum Op : uint32_t {
  PUSH_BACK_C, PUSH_BACK_M, EMPLACE_BACK, PUSH_FRONT_C, PUSH_FRONT_M, EMPLACE_FRONT,
  POP_FRONT, POP_BACK, POP_FRONT_N, POP_BACK_N, CLEAR,
  IN_FRONT, IN_BACK, OUT_FRONT, OUT_BACK, IN_RANGE, OUT_RANGE,
  WRITE, ALGO, READOPT, MOVE_ADAPTER, OBSERVE, NOPS
};
const char* const op_name[] = {"push_back(const&)", "push_back(&&)", "emplace_back", "push_front(const&)", "push_front(&&)",
  "emplace_front", "pop_front", "pop_back", "pop_front(n)", "pop_back(n)", "clear", "copy_in_front", "copy_in_back",
  "copy_out_front", "copy_out_back", "copy_in(range)", "copy_out(range)", "write element", "algorithm", "re-adopt", "move adapter", "observe"};

struct Plan {
  Op op = OBSERVE;
  size_t n = 0;    // element count
  size_t at = 0;   // position (range ops, writes)
  uint32_t how = 0; // variant of the op
  size_t from = 0; // 1 + position of the buffer's own elements a block is copied from
  std::vector<uint64_t> v;
};
inline bool adds(Op o) { return o <= EMPLACE_FRONT || o == IN_FRONT || o == IN_BACK; }
inline bool adds_front(Op o) { return (o >= PUSH_FRONT_C && o <= EMPLACE_FRONT) || o == IN_FRONT; }
inline bool removes(Op o) { return (o >= POP_FRONT && o <= CLEAR) || o == OUT_FRONT || o == OUT_BACK; }

// Operation mixes ("workloads"): which end grows, which end shrinks, bulk...
struct Mix { uint32_t w[NOPS]; };
const Mix mixes[] = {
    // pbC pbM eB pfC pfM eF popF popB pFn pBn clr inF inB outF outB inR outR wr algo adopt move obs
    {{4, 2, 2, 4, 2, 2, 4, 4, 2, 2, 1, 2, 2, 2, 2, 1, 1, 2, 1, 2, 1, 1}},       // everything
    {{6, 2, 2, 0, 0, 0, 6, 0, 2, 0, 0, 0, 3, 3, 0, 1, 1, 1, 0, 2, 1, 1}},       // FIFO
    {{0, 0, 0, 6, 2, 2, 0, 6, 0, 2, 0, 3, 0, 0, 3, 1, 1, 1, 0, 2, 1, 1}},       // reverse FIFO
    {{4, 1, 1, 0, 0, 0, 0, 4, 0, 1, 1, 0, 2, 0, 2, 1, 1, 1, 1, 2, 1, 1}},       // stack at the back
    {{0, 0, 0, 4, 1, 1, 4, 0, 1, 0, 1, 2, 0, 2, 0, 1, 1, 1, 1, 2, 1, 1}},       // stack at the front
    {{1, 0, 0, 1, 0, 0, 1, 1, 3, 3, 0, 6, 6, 6, 6, 3, 3, 1, 0, 2, 1, 1}},       // bulk
    {{6, 2, 2, 6, 2, 2, 1, 1, 0, 0, 0, 3, 3, 0, 0, 1, 1, 1, 1, 2, 1, 1}},       // kept full
    {{2, 1, 1, 2, 1, 1, 4, 4, 2, 2, 1, 1, 1, 2, 2, 0, 0, 1, 0, 2, 1, 1}},       // kept almost empty
};

template <class T> struct World {
  using A = circular_buffer_adapter<T>;
  using E = El<T>;
  Zone st, src, dst, az;
  T* data = nullptr;
  A* a = nullptr;
  size_t cap = 0;
  std::deque<uint64_t> m;
  size_t first = 0; // slot of the front element; meaningless while m is empty
  Mix mix;
  bool allow_adopt = true, allow_move = true, tricky_alias = true;
  uint64_t ops = 0;

  Zone other{}, scratch{};
  size_t slot(size_t i) const { return (first + i) % cap; }
  T* src_buf() { return reinterpret_cast<T*>(src.p); }
  T* dst_buf() { return reinterpret_cast<T*>(dst.p); }

  void setup(size_t c) {
    cap = c;
    st = zone(cap * sizeof(T), 64, 256);
    data = reinterpret_cast<T*>(st.p);
    src = zone(cap * sizeof(T), 64, 256);
    dst = zone(cap * sizeof(T), 64, 256);
    az = zone(sizeof(A), 64, 64);
    Life::lo = st.p;
    Life::hi = st.p + st.n;
    mix = mixes[draw(sizeof mixes / sizeof mixes[0])];
    if (!E::trivial)
      for (int o : {IN_FRONT, IN_BACK, OUT_FRONT, OUT_BACK, IN_RANGE, OUT_RANGE}) mix.w[o] = 0;
    if (!E::copyable) mix.w[PUSH_BACK_C] = mix.w[PUSH_FRONT_C] = 0;
  }
  // a default-constructed adapter is an empty ring without room
  void blank(A const& t) {
    bool ok = t.size() == 0 && t.capacity() == 0 && t.remaining() == 0 && t.empty() && t.full() &&
              t.begin() == t.end() && t.cbegin() == t.cend() && t.rbegin() == t.rend() && t.crbegin() == t.crend();
    CHECK(ok, "contents", "a default-constructed adapter is not empty and without room");
  }
  // create the adapter over storage already holding `n` elements from `pos`
  void adopt(size_t pos, size_t n, uint32_t form) {
    Observe o;
    switch (form % 4) {
    case 0:
      if (n == 0 && pos == 0) { a = new (az.p) A(data, cap); break; }
      a = new (az.p) A(data, cap, pos, n);
      break;
    case 1: a = new (az.p) A(data, data + cap, data + pos, n); break;
    case 2:
      if (n == 0 && pos == 0) { a = new (az.p) A(data, data + cap); break; }
      a = new (az.p) A(data, data + cap, data + pos, n);
      break;
    default: { // default-construct, then move-assign
      a = new (az.p) A();
      blank(*a);
      A tmp(data, cap, pos, n);
      *a = std::move(tmp);
    }
    }
  }
  void create() { // initial adapter: empty or over pre-existing elements
    size_t pos = draw(3) == 0 ? range(0, cap) : 0;
    size_t n = 0;
    if (coin(3)) {
      n = range(0, cap);
      uint64_t s = g_throw_in;
      g_throw_in = 0;
      for (size_t i = 0; i < n; ++i) {
        uint64_t v = fresh_value() & E::mask;
        ::new (data + (pos + i) % cap) T(E::make(v));
        m.push_back(v);
      }
      g_throw_in = s;
      if (n) STAT("probe.adopted_existing_elements");
    }
    first = pos % cap;
    if (pos == cap) STAT("probe.start_at_end");
    uint32_t form = draw(4);
    TRACE("create<%s> capacity %zu, start %zu, %zu existing elements, form %u", E::name, cap, pos, n, form);
    adopt(pos, n, form);
    ev(cap, pos, n);
  }
  void drop() {
    Observe o;
    a->~A();
    a = nullptr;
  }
  // dispose of everything (so element objects do not outlive the run)
  void finish() {
    if (!a) return;
    g_throw_in = 0;
    { Observe o; a->clear(); }
    m.clear();
    drop();
  }

  size_t pick_n(size_t max, size_t edge) {
    if (max == 0) return 0;
    static const uint32_t w[] = {4, 3, 2, 3, 2};
    size_t n;
    switch (sim::weighted(w)) {
    case 0: n = range(0, static_cast<uint32_t>(std::min<size_t>(max, 4))); break;
    case 1: n = range(0, static_cast<uint32_t>(max)); break;
    case 2: n = max; break;
    case 4: { // near a multiple of a power of two
      n = size_t(4) << draw(13);
      while (n > max) n >>= 1;
      if (n) n *= range(1, static_cast<uint32_t>(std::min<size_t>(max / n, 20)));
      n += draw(5) == 0;
      n -= n && draw(5) == 0;
      break;
    }
    default: n = edge + draw(3); n = n ? n - 1 : 0;
    }
    return std::min(n, max);
  }
  Plan plan() {
    Plan p;
    p.op = static_cast<Op>(sim::weighted(mix.w, NOPS));
    size_t sz = m.size(), room = cap - sz;
    if ((p.op == READOPT && !allow_adopt) || (p.op == MOVE_ADAPTER && !allow_move)) p.op = OBSERVE;
    if (adds(p.op) && p.op <= EMPLACE_FRONT && room == 0) p.op = draw(2) ? POP_BACK : POP_FRONT;
    if ((p.op == POP_FRONT || p.op == POP_BACK || p.op == WRITE || p.op == ALGO) && sz == 0) p.op = OBSERVE;
    size_t f = sz ? first : 0;
    size_t to_end_front = cap - f;                      // elements before the run wraps
    size_t back = sz ? (first + sz) % cap : 0;
    switch (p.op) {
    case POP_FRONT: case POP_BACK: p.n = 1; break;
    case POP_FRONT_N: case OUT_FRONT: p.n = pick_n(sz, to_end_front); break;
    case POP_BACK_N: case OUT_BACK: p.n = pick_n(sz, back); break;
    case CLEAR: p.n = sz; break;
    case IN_BACK: p.n = pick_n(room, cap - back); break;
    case IN_FRONT: p.n = pick_n(room, f); break;
    case IN_RANGE: case OUT_RANGE:
      p.at = draw(static_cast<uint32_t>(sz + 1));
      p.n = pick_n(sz - p.at, to_end_front > p.at ? to_end_front - p.at : 0);
      p.how = draw(4);
      break;
    case WRITE: p.at = draw(static_cast<uint32_t>(sz)); p.n = 1; p.how = draw(6); break;
    case ALGO: p.at = draw(static_cast<uint32_t>(sz)); p.n = draw(static_cast<uint32_t>(sz - p.at + 1)); p.how = draw(4); break;
    case READOPT: p.how = draw(4); break;
    case MOVE_ADAPTER: p.how = draw(6); break;
    case OBSERVE: p.how = draw(80); p.at = sz ? draw(static_cast<uint32_t>(sz)) : 0; break;
    default: p.n = 1; p.how = draw(8); break;
    }
    if (adds(p.op) || p.op == IN_RANGE || p.op == WRITE)
      for (size_t i = 0; i < p.n; ++i)
        {
        uint64_t const h = (i + m.size() + 1) * 0x9E3779B97F4A7C15u;
        p.v.push_back((p.n > 64 ? h ^ h >> 32 : fresh_value()) & E::mask);
      }
    if ((p.op == IN_FRONT || p.op == IN_BACK || p.op == IN_RANGE) && p.n && sz && draw(5) == 1) {
      // the block is a copy of some of the buffer's own elements (in one piece, and none of those overwritten)
      size_t i = draw(static_cast<uint32_t>(sz)), run = std::min(sz - i, cap - slot(i));
      if (p.op == IN_RANGE && i < p.at) run = std::min(run, p.at - i);
      if (p.n > run) {
        p.n = run;
        p.v.resize(run);
      }
      if (p.op != IN_RANGE || i + p.n <= p.at || i >= p.at + p.n) {
        p.from = i + 1;
        std::copy_n(m.begin() + static_cast<std::ptrdiff_t>(i), p.n, p.v.begin());
        STAT("probe.copy_in_of_own_elements");
      }
    }
    if (p.op == POP_FRONT_N && p.n > to_end_front) STAT("probe.wrapped_pop");
    if (p.op == IN_BACK && p.n > cap - back) STAT("probe.wrapped_copy_in");
    if (p.op == IN_FRONT && p.n > f) STAT("probe.wrapped_copy_in");
    if ((p.op == OUT_FRONT && p.n > to_end_front) || (p.op == OUT_BACK && p.n > back)) STAT("probe.wrapped_copy_out");
    return p;
  }

  // --- run one planned operation on the real adapter (may throw Fault)
  std::vector<uint64_t> out; // what copy_out delivered
  T* emplaced = nullptr;
  bool emplaced_own = false;    // emplaced a copy of an own element
  size_t moved_own = ~size_t(0); // pushed an own element by moving from it
  void exec(Plan const& p) {
    emplaced = nullptr;
    emplaced_own = false;
    moved_own = ~size_t(0);
    switch (p.op) {
    case PUSH_BACK_C: case PUSH_FRONT_C:
      if constexpr (E::copyable) {
        if (tricky_alias && p.how >= 6 && !m.empty()) { // push a copy of one of its own elements
          T const& ref = p.how == 6 ? (*a)[m.size() / 2] : a->back();
          Observe o;
          if (p.op == PUSH_BACK_C) a->push_back(ref); else a->push_front(ref);
          break;
        }
        uint64_t t = g_throw_in;
        g_throw_in = 0;
        T const x(E::make(p.v[0]));
        g_throw_in = t;
        Observe o;
        if (p.op == PUSH_BACK_C) a->push_back(x); else a->push_front(x);
      }
      break;
    case PUSH_BACK_M: case PUSH_FRONT_M: {
      if (tricky_alias && p.how == 7 && !m.empty() && g_throw_in == 0) { // move one of its own elements to an end
        moved_own = m.size() / 2;
        T& ref = data[slot(moved_own)];
        Observe o;
        if (p.op == PUSH_BACK_M) a->push_back(std::move(ref)); else a->push_front(std::move(ref));
        break;
      }
      uint64_t t = g_throw_in;
      g_throw_in = 0;
      T x(E::make(p.v[0]));
      g_throw_in = t;
      Observe o;
      if (p.op == PUSH_BACK_M) a->push_back(std::move(x)); else a->push_front(std::move(x));
      break;
    }
    case EMPLACE_BACK: case EMPLACE_FRONT:
      if constexpr (E::copyable)
        if (tricky_alias && p.how == 7 && !m.empty()) {
          emplaced_own = true;
          T const& ref = data[slot(m.size() / 2)];
          Observe o;
          emplaced = p.op == EMPLACE_BACK ? &a->emplace_back(ref) : &a->emplace_front(ref);
          break;
        }
      if constexpr (E::args) {
        Arg l{p.v[0]};
        Arg const c{p.v[0]};
        Observe o;
        T* r = nullptr;
        bool b = p.op == EMPLACE_BACK;
        int k = 7;
        switch (p.how % 4) {
        case 0: r = b ? &a->emplace_back(p.v[0]) : &a->emplace_front(p.v[0]); break;
        case 1: r = b ? &a->emplace_back(l, k) : &a->emplace_front(l, k); break;
        case 2: r = b ? &a->emplace_back(c, 3) : &a->emplace_front(c, 3); break;
        default: r = b ? &a->emplace_back(Arg{p.v[0]}, 5) : &a->emplace_front(Arg{p.v[0]}, 5); break;
        }
        emplaced = r;
      } else if constexpr (E::trivial) {
        T x = E::make(p.v[0]);
        Observe o;
        emplaced = p.op == EMPLACE_BACK ? &a->emplace_back(x) : &a->emplace_front(x);
      } else {
        uint64_t v = p.v[0];
        Observe o;
        emplaced = p.op == EMPLACE_BACK ? &a->emplace_back(v) : &a->emplace_front(v);
      }
      break;
    case POP_FRONT: { Observe o; a->pop_front(); break; }
    case POP_BACK: { Observe o; a->pop_back(); break; }
    case POP_FRONT_N: { Observe o; a->pop_front(p.n); break; }
    case POP_BACK_N: { Observe o; a->pop_back(p.n); break; }
    case CLEAR: { Observe o; a->clear(); break; }
    case IN_FRONT: case IN_BACK: case IN_RANGE:
      if constexpr (E::trivial) {
        for (size_t i = 0; i < p.n; ++i) ::new (src_buf() + i) T(E::make(p.v[i]));
        T const* s = p.from ? data + slot(p.from - 1) : src_buf();
        Observe o;
        if (p.op == IN_FRONT) a->copy_in_front(s, p.n);
        else if (p.op == IN_BACK) a->copy_in_back(s, p.n);
        else if (p.n || p.how) {
          auto b = a->begin() + static_cast<std::ptrdiff_t>(p.at);
          auto e = b + static_cast<std::ptrdiff_t>(p.n);
          if (p.n) a->copy_in(b, e, s);
        }
      }
      break;
    case OUT_FRONT: case OUT_BACK: case OUT_RANGE:
      if constexpr (E::trivial) {
        T* d = dst_buf();
        {
          Observe o;
          if (p.op == OUT_FRONT) a->copy_out_front(d, p.n);
          else if (p.op == OUT_BACK) a->copy_out_back(d, p.n);
          else if (p.n) {
            auto b = a->begin() + static_cast<std::ptrdiff_t>(p.at);
            if (p.how & 1) {
              auto cb = a->cbegin() + static_cast<std::ptrdiff_t>(p.at);
              a->copy_out(cb, cb + static_cast<std::ptrdiff_t>(p.n), d);
            } else {
              a->copy_out(b, b + static_cast<std::ptrdiff_t>(p.n), d);
            }
          }
        }
        out.clear();
        for (size_t i = 0; i < p.n; ++i) out.push_back(E::get(d[i]));
      }
      break;
    case WRITE: {
      uint64_t t = g_throw_in;
      g_throw_in = 0;
      T x(E::make(p.v[0]));
      std::ptrdiff_t d = static_cast<std::ptrdiff_t>(p.at);
      {
        Observe o;
        switch (p.how) {
        case 0: (*a)[p.at] = std::move(x); break;
        case 1: a->at(p.at) = std::move(x); break;
        case 2: *(a->begin() + d) = std::move(x); break;
        case 3: *(a->end() - static_cast<std::ptrdiff_t>(m.size() - p.at)) = std::move(x); break;
        case 4: (p.at == 0 ? a->front() : (*a)[p.at]) = std::move(x); break;
        default: (p.at + 1 == m.size() ? a->back() : *(a->rbegin() + static_cast<std::ptrdiff_t>(m.size() - 1 - p.at))) = std::move(x); break;
        }
      }
      g_throw_in = t;
      break;
    }
    case ALGO: {
      uint64_t t = g_throw_in;
      g_throw_in = 0;
      {
        auto b = a->begin() + static_cast<std::ptrdiff_t>(p.at);
        auto e = b + static_cast<std::ptrdiff_t>(p.n);
        auto less = [](T const& x, T const& y) { return E::get(x) < E::get(y); };
        // scratch memory the standard algorithms take is not the library's
        sim::UserHeap user_heap;
        Observe o;
        if (p.how == 0) std::reverse(b, e);
        else if (p.how == 1) std::rotate(b, b + static_cast<std::ptrdiff_t>(p.n / 2), e);
        else if (p.how == 2) std::sort(b, e, less);
        else std::stable_partition(b, e, [](T const& x) { return E::get(x) & 1; });
      }
      g_throw_in = t;
      break;
    }
    case READOPT: {
      size_t pos, n;
      {
        Observe o;
        pos = a->raw_index(a->begin());
        n = a->size();
      }
      CHECK(pos < cap, "position", "raw index of begin() is %zu with capacity %zu", pos, cap);
      drop();
      adopt(pos, n, p.how);
      break;
    }
    case MOVE_ADAPTER: {
      if (p.how == 0) {
        Observe o;
        A tmp(std::move(*a));
        a->~A();
        a = new (az.p) A(std::move(tmp));
      } else if (p.how == 1) {
        Observe o;
        A tmp;
        blank(tmp);
        tmp = std::move(*a);
        a->~A();
        a = new (az.p) A(data, cap);
        *a = std::move(tmp);
      } else if (p.how == 2) {
        Observe o;
        A& self = *a;
        *a = std::move(self);
      } else if (p.how == 3) { // onto a second view of the same elements
        Observe o;
        A tmp(data, cap, a->raw_index(a->begin()), a->size());
        tmp = std::move(*a);
        a->~A();
        a = new (az.p) A(std::move(tmp));
      } else
        through_other(p.how);
      break;
    }
    case OBSERVE: observe(p); break;
    default: break;
    }
  }
  // Move the adapter through one that views other elements in other storage;
  // those elements are none of its business.
  void through_other(uint32_t how) {
    static constexpr size_t kOther = 3;
    uint64_t t = g_throw_in;
    g_throw_in = 0;
    if (!other.p) other = zone(kOther * sizeof(T), 64, 64);
    T* od = reinterpret_cast<T*>(other.p);
    size_t const pos = draw(kOther), n = draw(kOther + 1);
    uint64_t v[kOther] = {};
    for (size_t i = 0; i < n; ++i) {
      v[i] = (0x5a5a + i * 77 + ops) & E::mask;
      ::new (od + (pos + i) % kOther) T(E::make(v[i]));
    }
    TRACE("   by way of an adapter over %zu other elements", n);
    {
      Observe o;
      A tmp(od, kOther, pos, n);
      if (how == 4) {
        tmp = std::move(*a);
        a->~A();
        a = new (az.p) A(std::move(tmp));
      } else {
        std::swap(tmp, *a);
        bool ok = a->size() == n && tmp.size() == m.size();
        CHECK(ok, "contents", "swapped adapters did not exchange their sizes");
        *a = std::move(tmp);
      }
    }
    for (size_t i = 0; i < n; ++i) {
      T& x = od[(pos + i) % kOther];
      CHECK(!E::tracked || Life::alive(&x), "lifetime", "moving another adapter destroyed element %zu", i);
      CHECK(E::get(x) == v[i], "contents", "moving another adapter changed element %zu", i);
      x.~T();
    }
    g_throw_in = t;
  }
  // read-only use of the whole observer interface
  uint64_t observe(Plan const& p) {
    uint64_t s = 0;
#ifndef REDUCED
    if (p.how >= 64) {
      view();
      return s;
    }
#endif
    Observe o;
    A const& c = *a;
    s += c.size() + c.empty() + c.full() + c.capacity() + c.remaining();
    if (!m.empty()) {
      s += E::get(c.front()) + E::get(c.back()) + E::get(c[p.at]) + E::get(c.at(p.at));
      if (p.how & 1) for (auto it = c.begin(); it != c.end(); ++it) s += E::get(*it);
      if (p.how & 2) for (auto it = c.rbegin(); it != c.rend(); it++) s += E::get(*it);
      if (p.how & 4) for (auto it = c.cbegin(); it != c.cend(); it++) s += E::get(*it);
      if (p.how & 8) for (auto it = c.crbegin(); it != c.crend(); ++it) s += E::get(*it);
      if (p.how & 16) s += static_cast<uint64_t>(c.end() - c.begin()) + c.raw_index(c.begin()) + c.raw_index(c.end());
      if (p.how & 32) for (size_t i = c.size(); i-- > 0;) s += E::get(*(c.begin() + static_cast<std::ptrdiff_t>(i)));
    } else {
      s += c.begin() == c.end();
      s += c.cbegin() == c.cend();
      s += c.rbegin() == c.rend();
      s += c.raw_index(c.begin());
    }
    return s;
  }

  // A second adapter over the same elements that can only read them, as for
  // elements in read-only memory. What it takes out stays in the storage.
  bool judge_views = false;
  void view() {
    using V = circular_buffer_adapter<T const>;
    size_t const n = m.size();
    size_t pos;
    { Observe o; pos = a->raw_index(a->begin()); }
    T const* const d = data;
    uint32_t const form = draw(3), what = draw(10);
    size_t const k = draw(static_cast<uint32_t>(n + 1));
    TRACE("   read-only view (form %u), use %u, %zu", form, what, k);
    STAT("probe.read_only_view");
    std::vector<uint64_t> got;
    got.reserve(n);
    std::vector<uint64_t> want(m.begin(), m.end());
    auto add = [&](T const& x) {
      Unobserve u;
      if (got.size() <= n) got.push_back(E::get(x));
    };
    using Buf = typename std::conditional<E::trivial, T, char>::type;
    std::vector<Buf> buf(k);
    auto const front = [&](size_t c) { return want.begin() + static_cast<std::ptrdiff_t>(c); };
    bool ok;
    {
      Observe o;
      V v = form == 0 ? V(d, cap, pos, n) : form == 1 ? V(d, d + cap, d + pos, n) : V();
      if (form == 2) {
        V t(d, d + cap, d + pos, n);
        v = std::move(t);
      }
      V const& c = v;
      ok = c.size() == n && c.empty() == (n == 0) && c.full() == (n == cap) && c.capacity() == cap && c.remaining() == cap - n;
      if (n) ok = ok && E::get(c.front()) == m.front() && E::get(c.back()) == m.back() && c.raw_index(c.begin()) == pos;
      if constexpr (E::trivial) {
        auto const dk = static_cast<std::ptrdiff_t>(k);
        switch (what) {
        case 0: v.copy_out_front(buf.data(), k); break;
        case 1: v.copy_out_back(buf.data(), k); break;
        case 2: v.copy_out(v.begin(), v.begin() + dk, buf.data()); break;
        case 3: v.copy_out(v.cend() - dk, v.cend(), buf.data()); break;
        case 4: v.pop_front(k); break;
        case 5: v.pop_back(k); break;
        case 6: for (size_t i = 0; i < k; ++i) i % 3 ? v.pop_front() : v.pop_back(); break;
        default: break;
        }
        Unobserve u;
        switch (what) {
        case 0: case 2: got.assign(k, 0); for (size_t i = 0; i < k; ++i) got[i] = E::get(buf[i]); break;
        case 1: case 3: got.assign(k, 0); for (size_t i = 0; i < k; ++i) got[i] = E::get(buf[i]); break;
        default: break;
        }
        if (what < 4) {
          for (size_t i = 0; i < k; ++i) ok = ok && got[i] == (what % 2 ? want[n - k + i] : want[i]);
          got.clear();
        }
        if (what == 0 || what == 4) want.erase(want.begin(), front(k));
        else if (what == 1 || what == 5) want.erase(front(n - k), want.end());
        else if (what == 6) {
          size_t const b = (k + 2) / 3;
          want.erase(front(n - b), want.end());
          want.erase(want.begin(), front(k - b));
        }
      }
      switch (what % 5) {
      case 0: for (auto const& x : c) add(x); break;
      case 1: for (size_t i = 0; i < c.size(); ++i) add(c[i]); break;
      case 2: for (auto it = c.cbegin(); it != c.cend(); it++) add(*it); break;
      case 3: for (auto it = c.rbegin(); it != c.rend(); ++it) add(*it); std::reverse(got.begin(), got.end()); break;
      default: for (size_t i = 0; i < c.size(); ++i) add(*(c.begin() + static_cast<std::ptrdiff_t>(i))); break;
      }
    }
    if (judge_views) CHECK(ok && got == want, "contents", "a read-only view of the elements reads differently (use %u of %zu)", what, k);
    ev(got.size());
  }

  // --- the reference model of the same operation
  std::vector<uint64_t> model_out;
  void apply(Plan const& p) {
    model_out.clear();
    size_t const n = p.n;
    bool was_empty = m.empty();
    switch (p.op) {
    case PUSH_BACK_C: case PUSH_BACK_M: case EMPLACE_BACK:
    case PUSH_FRONT_C: case PUSH_FRONT_M: case EMPLACE_FRONT: {
      uint64_t v = p.v[0];
      if ((p.op == PUSH_BACK_C || p.op == PUSH_FRONT_C) && tricky_alias && p.how >= 6 && !m.empty())
        v = p.how == 6 ? m[m.size() / 2] : m.back();
      if (emplaced_own) v = m[m.size() / 2];
      if (moved_own < m.size()) {
        v = m[moved_own];
        if constexpr (!E::trivial && E::movable) m[moved_own] = kMovedFrom;
      }
      if (adds_front(p.op)) {
        m.push_front(v);
        first = (first + cap - 1) % cap;
      } else m.push_back(v);
      break;
    }
    case POP_FRONT: case POP_FRONT_N:
      m.erase(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(n));
      first = (first + n) % cap;
      break;
    case POP_BACK: case POP_BACK_N: m.erase(m.end() - static_cast<std::ptrdiff_t>(n), m.end()); break;
    case CLEAR: m.clear(); break;
    case IN_FRONT:
      m.insert(m.begin(), p.v.begin(), p.v.end());
      first = (first + cap - n % cap) % cap;
      break;
    case IN_BACK: m.insert(m.end(), p.v.begin(), p.v.end()); break;
    case OUT_FRONT:
      model_out.assign(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(n));
      m.erase(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(n));
      first = (first + n) % cap;
      break;
    case OUT_BACK:
      model_out.assign(m.end() - static_cast<std::ptrdiff_t>(n), m.end());
      m.erase(m.end() - static_cast<std::ptrdiff_t>(n), m.end());
      break;
    case IN_RANGE: std::copy(p.v.begin(), p.v.end(), m.begin() + static_cast<std::ptrdiff_t>(p.at)); break;
    case OUT_RANGE:
      model_out.assign(m.begin() + static_cast<std::ptrdiff_t>(p.at), m.begin() + static_cast<std::ptrdiff_t>(p.at + n));
      break;
    case WRITE: m[p.at] = p.v[0]; break;
    case ALGO: {
      auto b = m.begin() + static_cast<std::ptrdiff_t>(p.at), e = b + static_cast<std::ptrdiff_t>(n);
      if (p.how == 0) std::reverse(b, e);
      else if (p.how == 1) std::rotate(b, b + static_cast<std::ptrdiff_t>(n / 2), e);
      else if (p.how == 2) std::sort(b, e);
      else std::stable_partition(b, e, [](uint64_t x) { return x & 1; });
      break;
    }
    default: break;
    }
    if (was_empty && !m.empty()) locate();
    ++ops;
  }
  // where the front element really lives
  void locate() {
    T* f;
    { Observe o; f = &a->front(); }
    uintptr_t d = reinterpret_cast<uintptr_t>(f) - reinterpret_cast<uintptr_t>(data);
    if (reinterpret_cast<uintptr_t>(f) < reinterpret_cast<uintptr_t>(data) || d >= cap * sizeof(T) || d % sizeof(T))
      sim::violate("outside-storage", "front() of a non-empty buffer is not a slot of its storage");
    first = d / sizeof(T);
  }
  void note(Plan const& p) {
    STAT("ops");
    ev(p.op, p.n, p.at);
    TRACE("%s n=%zu at=%zu how=%u%s  (size %zu/%zu, front slot %zu)", op_name[p.op], p.n, p.at, p.how, g_throw_in ? " [constructor will throw]" : "", m.size(), cap, first);
    sim::cover_state(sim::mix(sim::mix(sim::mix(cap, m.empty() ? 0 : first), m.size()), p.op * 64 + std::min<size_t>(p.n, 63)));
  }

  // --- does the buffer read as the model says?
  void verify(const char* kind, const char* when) {
    size_t n = m.size();
    size_t rs, rc, rr;
    bool re, rf;
    {
      Observe o;
      A const& c = *a;
      rs = c.size(); rc = c.capacity(); rr = c.remaining(); re = c.empty(); rf = c.full();
    }
    CHECK(rs == n && rc == cap && rr == cap - n && re == (n == 0) && rf == (n == cap), kind,
          "%s: size %zu capacity %zu remaining %zu empty %d full %d; expected %zu elements of %zu", when, rs, rc, rr, re, rf, n, cap);
    ev(rs);
    if (!n) {
      Observe o;
      bool ok = a->begin() == a->end() && a->cbegin() == a->cend() && a->rbegin() == a->rend();
      CHECK(ok, kind, "%s: empty buffer with begin() != end()", when);
      return;
    }
    std::vector<uint64_t> got;
    got.reserve(n);
    uint32_t how = n > 256 ? draw(12) : draw(8);
    uint64_t fr, bk;
    {
      Observe o;
      fr = E::get(a->front());
      bk = E::get(a->back());
    }
    CHECK(fr == m.front() && bk == m.back(), kind, "%s: front %llx back %llx, expected %llx %llx", when, (unsigned long long)fr,
          (unsigned long long)bk, (unsigned long long)m.front(), (unsigned long long)m.back());
    auto add = [&](T const& x) {
      Unobserve u;
      if (got.size() > n) sim::violate(kind, "%s: iteration visits more than the %zu elements", when, n);
      got.push_back(E::get(x));
    };
    {
      Observe o;
      A const& c = *a;
      switch (how) {
      default:
      case 0: for (size_t i = 0; i < n; ++i) add(c[i]); break;
      case 1: for (auto it = c.begin(); it != c.end(); ++it) add(*it); break;
      case 2: for (auto it = c.rbegin(); it != c.rend(); ++it) add(*it); break;
      case 3: for (auto it = c.cbegin(); it != c.cend(); it++) add(*it); break;
      case 4: for (size_t i = 0; i < n; ++i) add(c.at(i)); break;
      case 5: for (size_t i = 0; i < n; ++i) add(c.begin()[static_cast<std::ptrdiff_t>(i)]); break;
      case 6: for (auto it = c.crbegin(); it != c.crend(); it++) add(*it); break;
      case 7: for (size_t i = 0; i < n; ++i) add(*(c.end() - static_cast<std::ptrdiff_t>(n - i))); break;
      case 8: for (auto const& x : c) add(x); break;
      }
    }
    if (how == 2 || how == 6) std::reverse(got.begin(), got.end());
    CHECK(got.size() == n, kind, "%s: iteration visits %zu of %zu elements", when, got.size(), n);
    for (size_t i = 0; i < n; ++i)
      CHECK(got[i] == m[i], kind, "%s: element %zu of %zu is %llx, expected %llx (read form %u)", when, i, n, (unsigned long long)got[i],
            (unsigned long long)m[i], how);
    ev(got[n / 2]);
  }
  void verify_emplaced(Plan const& p, const char* kind) {
    if (!emplaced) return;
    T* e;
    { Observe o; e = p.op == EMPLACE_BACK ? &a->back() : &a->front(); }
    CHECK(e == emplaced, kind, "%s did not return the new element", op_name[p.op]);
  }
  void verify_out(Plan const& p, const char* kind) {
    if (p.op != OUT_FRONT && p.op != OUT_BACK && p.op != OUT_RANGE) return;
    for (size_t i = 0; i < p.n; ++i)
      CHECK(out[i] == model_out[i], kind, "%s: item %zu of %zu copied out is %llx, expected %llx", op_name[p.op], i, p.n,
            (unsigned long long)out[i], (unsigned long long)model_out[i]);
  }
};

template <class T> size_t pick_capacity(bool big_ok) {
  static const uint32_t w[] = {10, 2, 4, 2, 1};
  switch (sim::weighted(w)) {
  case 0: return range(2, 9);
  case 1: return 1;
  case 2: return range(10, 33);
  case 3: return range(34, 140);
  default:
    if (big_ok && sizeof(T) == 1) return coin(3) ? range(65000, 66000) : range(250, 600);
    if (big_ok && sizeof(T) == 2) return coin(4) ? range(32700, 33000) : range(250, 600);
    if (big_ok && sizeof(T) <= 8) return range(250, 600);
    return range(2, 9);
  }
}

// ---------------------------------------------------------- huge storages
// Capacities around and beyond 2^31 and 2^32 items: the storage is a sparse
// mapping of which a run touches a few pages; the model is the map of the
// slots written plus position and size.
struct HugeMap {
  static constexpr size_t bytes = size_t(20) << 30;
  static inline unsigned char* p = nullptr;
  static inline bool tried = false;
  static bool get() {
    if (!tried) {
      tried = true;
      void* q = mmap(reinterpret_cast<void*>(size_t(0x10) << 40), bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (q != MAP_FAILED) {
        p = static_cast<unsigned char*>(q);
        madvise(p, bytes, MADV_NOHUGEPAGE);
      }
    }
    if (p) madvise(p, bytes, MADV_DONTNEED);
    return p != nullptr;
  }
};
template <class T> struct Huge {
  using A = circular_buffer_adapter<T>;
  using E = El<T>;
  using D = std::ptrdiff_t;
  static constexpr bool ok = E::trivial && sizeof(T) <= 8;
  T* data = nullptr;
  size_t cap = 0, first = 0, size = 0;
  std::map<size_t, uint64_t> m; // slots written; all others read as zero
  A a;
  Zone buf;
  bool linear = false; // removing n trivial elements takes n steps
  uint64_t at_slot(size_t s) const { auto i = m.find(s); return i == m.end() ? 0 : i->second; }
  size_t slot(size_t i) const { return first + i < cap ? first + i : first + i - cap; }
  // a count or index in [0, max], preferably near an interesting one
  size_t near(size_t max) const {
    size_t const c[] = {0, size_t(1) << 31, size_t(1) << 32, size_t(1) << 30, size_t(1) << 16, size / 2, cap - (first < cap ? first : 0), max, cap / 2,
                        cap - (size_t(1) << 31), size_t(1) << 33, size};
    size_t x = c[draw(sizeof c / sizeof c[0])];
    uint32_t d = draw(9); // -4 .. 4
    x = d >= 5 ? x + (d - 4) : x - d;
    if (x > max) x = max - (x % (max < 5 ? max + 1 : 5));
    return x;
  }
  void locate() {
    uintptr_t d;
    { Observe o; d = reinterpret_cast<uintptr_t>(&a.front()) - reinterpret_cast<uintptr_t>(data); }
    CHECK(d % sizeof(T) == 0 && d / sizeof(T) < cap, "outside-storage", "front() of a non-empty buffer is not a slot of its storage");
    first = d / sizeof(T);
  }
  // one body each, for the measurement to be about the code that is run
  [[gnu::noinline, gnu::noclone]] void pop_n(bool front, size_t c) {
    Observe o;
    if (front) a.pop_front(c);
    else a.pop_back(c);
  }
  [[gnu::noinline, gnu::noclone]] void clear() {
    Observe o;
    a.clear();
  }
  void removal_cost() {
    static T few[900];
    a = A(few, 900, 600, 900);
    for (int i = 0; i < 3; ++i) {
      uint64_t const before = sim::steps();
      if (i < 2) pop_n(i == 0, 300);
      else clear();
      linear = linear || sim::steps() - before > 250;
    }
  }
  void adopt(size_t pos, size_t n, uint32_t form) {
    Observe o;
    if (form == 0) a = A(data, cap, pos, n);
    else a = A(data, data + cap, data + pos, n);
  }
  static void run(char what) {
    Huge h;
    h.go(what);
  }
  void go(char what) {
    const char* const k = what == '1' ? "contents" : what == '5' ? "iterator" : "bulk";
    data = reinterpret_cast<T*>(HugeMap::p);
    STAT("probe.huge_storage");
    buf = zone(64 * sizeof(T), 64, 64);
    removal_cost();
    static const size_t big[] = {size_t(1) << 31, size_t(1) << 32, size_t(1) << 33, (size_t(1) << 32) + (size_t(1) << 31), size_t(1) << 30, size_t(3) << 30};
    cap = big[draw(6)] + draw(9) - 4;
    if (cap > HugeMap::bytes / sizeof(T)) cap = HugeMap::bytes / sizeof(T) - draw(5);
    first = near(cap);
    size = near(cap);
    TRACE("create<%s> huge capacity %zu, start %zu, %zu existing elements", E::name, cap, first, size);
    adopt(first, size, draw(2));
    if (first == cap) first = 0;
    verify(what, k, "creation");
    uint32_t n = range(3, 30);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      STAT("ops");
      size_t const room = cap - size;
      static const uint32_t w[] = {4, 4, 3, 3, 3, 3, 1, 4, 4, 4, 4, 3, 3, 2, 2};
      uint32_t op = sim::weighted(w);
      bool const was_empty = size == 0;
      ev(op, size, first);
      switch (op) {
      case 0: case 1: { // push or emplace
        if (!room) break;
        uint64_t v = fresh_value() & E::mask;
        T x = E::make(v);
        uint32_t how = draw(3);
        TRACE("%s %s at size %zu, front slot %zu", how == 0 ? "emplace" : "push", op ? "front" : "back", size, first);
        {
          Observe o;
          if (op == 0) { if (how == 0) a.emplace_back(x); else if (how == 1) a.push_back(x); else a.push_back(std::move(x)); }
          else { if (how == 0) a.emplace_front(x); else if (how == 1) a.push_front(x); else a.push_front(std::move(x)); }
        }
        ++size;
        if (was_empty) locate();
        else if (op == 1) first = first ? first - 1 : cap - 1;
        m[slot(op == 0 ? size - 1 : 0)] = v;
        break;
      }
      case 2: case 3: // pop
        if (!size) break;
        TRACE("pop %s at size %zu, front slot %zu", op == 2 ? "front" : "back", size, first);
        { Observe o; if (op == 2) a.pop_front(); else a.pop_back(); }
        if (op == 2) first = slot(1);
        --size;
        break;
      case 4: case 5: { // pop n
        size_t c = near(size);
        if (linear) c = std::min<size_t>(c, 64);
        TRACE("pop_%s(%zu) at size %zu, front slot %zu", op == 4 ? "front" : "back", c, size, first);
        pop_n(op == 4, c);
        if (op == 4) first = slot(c == cap ? 0 : c);
        size -= c;
        break;
      }
      case 6:
        if (linear && size > 64) break;
        TRACE("clear");
        clear();
        size = 0;
        break;
      case 7: case 8: { // copy in
        size_t c = std::min<size_t>(draw(24), room);
        std::vector<uint64_t> v(c);
        T* src = reinterpret_cast<T*>(buf.p);
        for (size_t j = 0; j < c; ++j) {
          v[j] = fresh_value() & E::mask;
          ::new (src + j) T(E::make(v[j]));
        }
        TRACE("copy_in_%s(%zu) at size %zu, front slot %zu", op == 7 ? "back" : "front", c, size, first);
        { Observe o; if (op == 7) a.copy_in_back(src, c); else a.copy_in_front(src, c); }
        size += c;
        if (was_empty) { if (c) locate(); }
        else if (op == 8) first = first >= c ? first - c : first + cap - c;
        for (size_t j = 0; j < c; ++j) m[slot(op == 7 ? size - c + j : j)] = v[j];
        break;
      }
      case 9: case 10: { // copy out
        size_t c = std::min<size_t>(draw(24), size);
        T* dst = reinterpret_cast<T*>(buf.p);
        TRACE("copy_out_%s(%zu) at size %zu, front slot %zu", op == 9 ? "front" : "back", c, size, first);
        { Observe o; if (op == 9) a.copy_out_front(dst, c); else a.copy_out_back(dst, c); }
        for (size_t j = 0; j < c && what != '5'; ++j) {
          size_t i2 = op == 9 ? j : size - c + j;
          CHECK(E::get(dst[j]) == at_slot(slot(i2)), k, "copy_out delivered another element for number %zu of %zu (capacity %zu)", i2, size, cap);
        }
        if (op == 9) first = slot(c == cap ? 0 : c);
        size -= c;
        break;
      }
      case 11: case 12: { // ranges
        if (!size) break;
        size_t at = near(size), c = std::min<size_t>(draw(24), size - at);
        if (!c) break;
        T* p = reinterpret_cast<T*>(buf.p);
        TRACE("copy %s range %zu..+%zu at size %zu, front slot %zu", op == 11 ? "into" : "out of", at, c, size, first);
        if (op == 11) {
          std::vector<uint64_t> v(c);
          for (size_t j = 0; j < c; ++j) {
            v[j] = fresh_value() & E::mask;
            ::new (p + j) T(E::make(v[j]));
          }
          { Observe o; auto b = a.begin() + static_cast<D>(at); a.copy_in(b, b + static_cast<D>(c), p); }
          for (size_t j = 0; j < c; ++j) m[slot(at + j)] = v[j];
        } else {
          { Observe o; auto b = a.begin() + static_cast<D>(at); a.copy_out(b, b + static_cast<D>(c), p); }
          for (size_t j = 0; j < c && what != '5'; ++j)
            CHECK(E::get(p[j]) == at_slot(slot(at + j)), k, "copy_out(range) delivered another element for number %zu of %zu (capacity %zu)", at + j, size, cap);
        }
        break;
      }
      case 13: { // write
        if (!size) break;
        size_t at = near(size - 1);
        uint64_t v = fresh_value() & E::mask;
        uint32_t how = draw(4);
        T x = E::make(v);
        TRACE("write %zu at size %zu, front slot %zu", at, size, first);
        {
          Observe o;
          switch (how) {
          case 0: a[at] = x; break;
          case 1: a.at(at) = x; break;
          case 2: *(a.begin() + static_cast<D>(at)) = x; break;
          default: a.rbegin()[static_cast<D>(size - 1 - at)] = x;
          }
        }
        m[slot(at)] = v;
        break;
      }
      default: { // drop and re-create
        size_t pos, c;
        uint32_t form = draw(2);
        { Observe o; pos = a.raw_index(a.begin()); c = a.size(); }
        TRACE("re-adopt %zu at %zu", c, pos);
        adopt(pos, c, form);
      }
      }
      verify(what, k, "operation");
    }
  }
  void verify(char what, const char* k, const char* when) {
    size_t rs, rc, rr;
    bool re, rf;
    { Observe o; rs = a.size(); rc = a.capacity(); rr = a.remaining(); re = a.empty(); rf = a.full(); }
    if (what == '1')
      CHECK(rs == size && rc == cap && rr == cap - size && re == (size == 0) && rf == (size == cap), k,
            "after %s: size %zu capacity %zu remaining %zu empty %d full %d; expected %zu elements of %zu", when, rs, rc, rr, re, rf, size, cap);
    if (!size) return;
    size_t bi, ei;
    { Observe o; bi = a.raw_index(a.begin()); ei = a.raw_index(a.end()); }
    if (what != '1')
      CHECK(bi == first && ei == slot(size), k, "after %s: elements lie in slots %zu..%zu, expected %zu..%zu (capacity %zu)", when, bi, ei, first, slot(size), cap);
    for (int j = 0; j < 3; ++j) {
      size_t x = near(size - 1), y = near(size);
      D const dx = static_cast<D>(x), dy = static_cast<D>(y), n = static_cast<D>(size);
      if (what == '5') {
        size_t rx;
        bool arith, order, diff, el, rev;
        {
          Observe o;
          auto b = a.begin();
          auto e = a.end();
          auto i = b + dx;
          auto q = e - (n - dy);
          auto c = a.cbegin();
          c += dx;
          auto z = q;
          z -= dy - dx;
          arith = z == i && c == i && i + (dy - dx) == q && q - (dy - dx) == i;
          order = (i < q) == (x < y) && (i == q) == (x == y) && (c > q) == (x > y) && (q <= c) == (y <= x) && i != e && b <= q && q <= e;
          diff = q - i == dy - dx && i - q == dx - dy && e - b == n && a.cend() - c == n - dx && i - b == dx && c - a.cbegin() == dx;
          el = &*i == data + slot(x) && &i[0] == &*c && (y == size || &i[dy - dx] == data + slot(y)) && (y == size || &b[dy] == &*q);
          auto r = a.rbegin() + (n - 1 - dx);
          rev = &*r == &*i && r.base() - i == 1 && a.rend() - r == dx + 1;
          rx = a.raw_index(c);
        }
        CHECK(arith, "iterator", "arithmetic between positions %zu and %zu of %zu (capacity %zu) is wrong", x, y, size, cap);
        CHECK(order, "iterator", "comparison of positions %zu and %zu of %zu (capacity %zu) is wrong", x, y, size, cap);
        CHECK(diff, "iterator", "distance between positions %zu and %zu of %zu (capacity %zu) is wrong", x, y, size, cap);
        CHECK(el, "iterator", "iterators at %zu and %zu of %zu (capacity %zu) denote other elements", x, y, size, cap);
        CHECK(rev, "iterator", "reverse iterator at %zu of %zu (capacity %zu) is wrong", x, size, cap);
        CHECK(rx == slot(x), "raw-index", "raw index of position %zu of %zu is %zu, expected %zu (capacity %zu)", x, size, rx, slot(x), cap);
      } else {
        uint64_t v[8];
        {
          Observe o;
          v[0] = E::get(a[x]);
          v[1] = E::get(a.at(x));
          v[2] = E::get(*(a.begin() + dx));
          v[3] = E::get(*(a.cend() - (n - dx)));
          v[4] = E::get(a.rbegin()[n - 1 - dx]);
          v[5] = E::get(*std::next(a.crbegin(), n - 1 - dx));
          v[6] = E::get(a.front());
          v[7] = E::get(a.back());
        }
        uint64_t const want = at_slot(slot(x));
        for (int q = 0; q < 6; ++q)
          CHECK(v[q] == want, k, "after %s: element %zu of %zu (capacity %zu) reads %#llx in way %d, expected %#llx", when, x, size, cap, (unsigned long long)v[q], q, (unsigned long long)want);
        CHECK(v[6] == at_slot(first) && v[7] == at_slot(slot(size - 1)), k, "after %s: front or back of %zu elements (capacity %zu) is wrong", when, size, cap);
      }
    }
    ev(size, bi, ei);
  }
};
// one run in a while is about a huge storage
template <class T> bool huge_run(char what) {
  if constexpr (Huge<T>::ok) {
    if (coin(16) && HugeMap::get()) {
      Huge<T>::run(what);
      return true;
    }
  }
  return false;
}

// Element types are spread over the parts (translation units) of the harness;
// each part enters its runners into one table.
enum Filter { ANY, TRIVIAL, TRACKED };
template <template <class> class F, Filter K, class T> void enter(uint32_t slot) {
  if constexpr (!((K == TRIVIAL && !El<T>::trivial) || (K == TRACKED && !El<T>::tracked))) g_type_run[slot] = &F<T>::run;
}
template <template <class> class F, Filter K> bool enter_part() {
#if PART == 0
  enter<F, K, uint32_t>(0);
  enter<F, K, TrackedCM>(1);
  enter<F, K, Bytes<24>>(2);
#elif PART == 1
  enter<F, K, uint8_t>(3);
#ifndef REDUCED
  enter<F, K, MoveOnly>(4);
#endif
  enter<F, K, Bytes<3>>(5);
#elif PART == 2
  enter<F, K, uint64_t>(6);
  enter<F, K, Compound>(7);
#ifndef REDUCED
  enter<F, K, TrackedAl>(8);
  enter<F, K, NoDtor>(9);
#endif
#else
  enter<F, K, uint16_t>(10);
#ifndef REDUCED
  enter<F, K, CopyOnly>(11);
#endif
  enter<F, K, Bytes<100>>(12);
#endif
  return true;
}
[[maybe_unused]] void any_type() {
  void (*ok[16])();
  uint32_t n = 0;
  for (auto f : g_type_run)
    if (f) ok[n++] = f;
  ok[draw(n)]();
}

uint32_t pick_ops(size_t cap) {
  if (cap > 1000) return range(4, 16);
  static const uint32_t w[] = {3, 4, 2};
  uint32_t k = sim::weighted(w);
  uint32_t n = k == 0 ? range(1, 12) : k == 1 ? range(10, 60) : range(60, 200);
  return cap > 100 ? std::min(n, 60u) : n;
}

// ------------------------------------------------------------------- C01
#if PROP(C01)
template <class T> struct C01 {
  static void run() {
    if (huge_run<T>('1')) return;
    World<T> w;
    w.judge_views = true;
    w.setup(pick_capacity<T>(true));
    w.create();
    w.verify("contents", "after creation");
    uint32_t n = pick_ops(w.cap);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      Plan p = w.plan();
      w.note(p);
      w.exec(p);
      w.apply(p);
      w.verify_out(p, "contents");
      w.verify_emplaced(p, "contents");
      if (w.cap <= 140 || i + 1 == n || coin(4)) w.verify("contents", op_name[p.op]);
      if (w.cap <= 33 && i == n / 2 && coin(400)) haul(w);
    }
    w.finish();
  }
  // a long time passes: tens of thousands of elements go through the buffer
  static void haul(World<T>& w) {
    STAT("probe.long_haul");
    uint32_t const n = range(65000, 67000), way = draw(3);
    TRACE("%u elements pass through, way %u, at size %zu of %zu", n, way, w.m.size(), w.cap);
    for (uint32_t i = 0; i < n; ++i) {
      bool const back = way == 2 ? (i * 0x9E3779B9u >> 30) != 0 : way == 0;
      uint64_t const v = (i * 0x9E3779B97F4A7C15u >> 20) & E::mask;
      if (w.m.size() == w.cap) {
        uint64_t got;
        { Observe o; got = E::get(back ? w.a->front() : w.a->back()); if (back) w.a->pop_front(); else w.a->pop_back(); }
        CHECK(got == (back ? w.m.front() : w.m.back()), "contents", "element %u of many: %llx came out, expected %llx", i, (unsigned long long)got,
              (unsigned long long)(back ? w.m.front() : w.m.back()));
        if (back) { w.m.pop_front(); w.first = w.slot(1); } else w.m.pop_back();
      }
      bool const was_empty = w.m.empty();
      T x = E::make(v);
      { Observe o; if (back) w.a->push_back(std::move(x)); else w.a->push_front(std::move(x)); }
      if (back) w.m.push_back(v); else { w.m.push_front(v); w.first = (w.first + w.cap - 1) % w.cap; }
      if (was_empty) w.locate();
    }
    w.verify("contents", "many operations");
  }
  using E = El<T>;
};
[[maybe_unused]] void run_c01() { run_reset(); any_type(); }
bool const entered = enter_part<C01, ANY>();
#endif

// ------------------------------------------------------------------- C02
// Failing constructors and rejected accesses leave no trace.
#if PROP(C02)
template <class T> struct C02 {
  static void run() {
    World<T> w;
    w.tricky_alias = true;
    w.setup(pick_capacity<T>(false));
    w.create();
    Life::strict = El<T>::tracked;
    uint32_t n = pick_ops(w.cap);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      if (coin(5)) { // out of range access
        STAT("fault.out_of_range");
        size_t sz = w.m.size();
        size_t const cand[] = {sz, sz + 1, w.cap, w.cap + sz, ~size_t(0), ~size_t(0) - sz, size_t(1) << 63, (size_t(1) << 32) + (sz ? sz - 1 : 0),
                               size_t(0) - 1 - draw(8), sz + draw(1000), (size_t(1) << 16) + draw(4), (size_t(1) << 8) * w.cap + sz};
        size_t idx = cand[draw(sizeof cand / sizeof cand[0])];
        if (idx < sz) continue;
        TRACE("at(%zu) with %zu elements", idx, sz);
        bool threw = false;
        try {
          Observe o;
          (void)w.a->at(idx);
        } catch (std::out_of_range const&) { threw = true; }
        CHECK(threw, "no-exception", "at(%zu) on a buffer of %zu elements returned", idx, sz);
        w.verify("changed", "after rejected at()");
        continue;
      }
      Plan p = w.plan();
      bool inject = adds(p.op) && p.op <= EMPLACE_FRONT && !El<T>::trivial && coin(2);
      size_t const live0 = Life::live.size();
      if (inject) {
        // which construction fails (parts of a compound element count)
        g_throw_in = 1 + draw(El<T>::parts > 1 ? El<T>::parts : 1);
        g_throw_token = draw(0xffffffffu) + 1;
        g_thrown = false;
      }
      w.note(p);
      bool caught = false;
      try {
        w.exec(p);
      } catch (Fault const& f) {
        caught = true;
        CHECK(g_thrown && f.token == g_throw_token, "wrong-exception", "another exception than the constructor's came out of %s", op_name[p.op]);
      } catch (...) {
        sim::violate("wrong-exception", "unexpected exception out of %s", op_name[p.op]);
      }
      if (g_thrown) CHECK(caught, "swallowed", "%s swallowed the constructor's exception", op_name[p.op]);
      if (caught) {
        CHECK(Life::live.size() == live0, "leak", "%s failed and changed the number of live objects from %zu to %zu", op_name[p.op], live0,
              Life::live.size());
        w.verify("changed", "after failed construction");
        STAT("probe.failed_push");
        if (!w.m.empty()) {
          size_t f = w.first;
          w.locate();
          CHECK(w.first == f, "changed", "failed %s moved the front from slot %zu to %zu", op_name[p.op], f, w.first);
        }
      } else {
        w.apply(p);
        if (p.op != OBSERVE) w.verify("changed", "after failures and later operations");
      }
      g_throw_in = 0;
      g_thrown = false;
    }
    w.finish();
    CHECK(Life::live.empty() || !El<T>::tracked, "leak", "%zu elements left alive at the end", Life::live.size());
  }
};
[[maybe_unused]] void run_c02() { run_reset(); any_type(); }
bool const entered = enter_part<C02, ANY>();
#endif

// ------------------------------------------------------------------- C03
#if PROP(C03)
template <class T> struct C03 {
  static void run() {
    World<T> w;
    w.setup(pick_capacity<T>(false));
    Life::strict = true;
    w.create();
    check(w, "creation");
    uint32_t n = pick_ops(w.cap);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      Plan p = w.plan();
      bool inject = adds(p.op) && coin(8);
      if (inject) { g_throw_in = 1 + draw(El<T>::parts); g_throw_token = 1; g_thrown = false; }
      w.note(p);
      size_t const outside0 = Life::live.size() - Life::live_in_storage();
      uint64_t const sc = Life::storage_ctors, sd = Life::storage_dtors;
      bool caught = false;
      try { w.exec(p); } catch (Fault const&) { caught = true; }
      g_throw_in = 0;
      if (!caught) w.apply(p);
      size_t const outside1 = Life::live.size() - Life::live_in_storage();
      CHECK(outside0 == outside1, "lifetime", "%s left %zu temporaries, before %zu", op_name[p.op], outside1, outside0);
      if (p.op == OBSERVE || p.op == READOPT || p.op == MOVE_ADAPTER)
        CHECK(sc == Life::storage_ctors && sd == Life::storage_dtors, "lifetime", "%s created or destroyed elements", op_name[p.op]);
      if (!caught && adds(p.op)) {
        // exactly one element more, from exactly the given arguments
        if constexpr (El<T>::args) {
          How got = (adds_front(p.op) ? w.a->front() : w.a->back()).how;
          if ((p.op == EMPLACE_BACK || p.op == EMPLACE_FRONT) && !w.emplaced_own) {
            static const How want[] = {How::value, How::lref, How::clref, How::rref};
            CHECK(got == want[p.how % 4], "forwarding", "%s passed its arguments on as another kind of reference", op_name[p.op]);
          }
        }
      }
      check(w, op_name[p.op]);
      if (w.emplaced && !caught) {
        w.verify_emplaced(p, "lifetime");
      }
    }
    w.drop(); // destroying the adapter must not touch the elements
    CHECK(Life::live_in_storage() == w.m.size() * El<T>::parts, "lifetime", "destroying the adapter changed the number of live elements");
    for (size_t i = 0; i < w.m.size(); ++i) w.data[w.slot(i)].~T();
    CHECK(Life::live.empty(), "lifetime", "%zu objects still alive at the end", Life::live.size());
  }
  static void check(World<T>& w, const char* when) {
    // alive in the storage: exactly the model's elements, at their slots
    CHECK(Life::live_in_storage() == w.m.size() * El<T>::parts, "lifetime", "after %s %zu element objects are alive in the storage, expected %zu", when,
          Life::live_in_storage(), w.m.size() * El<T>::parts);
    for (size_t i = 0; i < w.m.size(); ++i) {
      T const* p = w.data + w.slot(i);
      CHECK(Life::alive(p), "lifetime", "after %s slot %zu holds no live element", when, w.slot(i));
      CHECK(El<T>::get(*p) == w.m[i], "lifetime", "after %s slot %zu holds the wrong element (%llx, expected %llx)", when, w.slot(i),
            (unsigned long long)El<T>::get(*p), (unsigned long long)w.m[i]);
    }
    ev(Life::live.size());
  }
};
#if PART == 0
// Removals of hundreds and tens of thousands of elements at once: which slots
// hold a live element is kept in a map of its own.
struct Mite {
  uint8_t v;
  static constexpr size_t most = 70100;
  static inline Mite* lo = nullptr;
  static inline size_t n = 0, count = 0; // slots; live elements in them
  static inline long others = 0;         // live objects elsewhere
  static inline char alive[most];
  SIM_NOINSTR __attribute__((noinline)) static void born(Mite const* p) {
    if (p < lo || p >= lo + n) { ++others; return; }
    if (alive[p - lo]) sim::violate("lifetime", "constructed an element on top of a live one");
    alive[p - lo] = 1;
    ++count;
  }
  SIM_NOINSTR __attribute__((noinline)) static void died(Mite const* p) {
    if (p < lo || p >= lo + n) { --others; return; }
    if (!alive[p - lo]) sim::violate("lifetime", "destroyed something that is not a live element");
    alive[p - lo] = 0;
    --count;
  }
  explicit Mite(uint8_t x) : v(x) { born(this); }
  Mite(Mite const& o) : v(o.v) { born(this); }
  ~Mite() { died(this); }
};
struct Crowd {
  using A = circular_buffer_adapter<Mite>;
  size_t cap, first, size;
  alignas(A) unsigned char room[sizeof(A)];
  A* a = nullptr;
  static size_t near(size_t max) {
    static const size_t c[] = {256, 512, 65536, 32768, 128, 1024, 2, 0};
    uint32_t k = draw(12);
    size_t x = k < 8 ? c[k] + draw(5) - 2 : k < 10 ? max - draw(3) : draw(static_cast<uint32_t>(max) + 1);
    return x > max ? max - x % (max < 3 ? max + 1 : 3) : x;
  }
  void check(const char* when) {
    size_t wrong = 0, at = 0, rs;
    for (size_t i = 0; i < cap; ++i) {
      size_t const s = first + i < cap ? first + i : first + i - cap;
      if ((Mite::alive[s] != 0) != (i < size)) { if (!wrong++) at = s; }
    }
    CHECK(wrong == 0 && Mite::count == size && Mite::others == 0, "lifetime",
          "after %s %zu element objects are alive in the storage and %ld elsewhere, expected %zu and none; %zu slots are wrong, the first %zu", when,
          Mite::count, Mite::others, size, wrong, at);
    { Observe o; rs = a->size(); }
    CHECK(rs == size, "lifetime", "after %s the buffer has %zu elements, expected %zu", when, rs, size);
    ev(size, first);
  }
  void adopt(size_t pos) {
    Observe o;
    a = new (room) A(Mite::lo, cap, pos, size);
  }
  void run() {
    static unsigned char mem[Mite::most];
    STAT("probe.crowd");
    cap = coin(8) ? range(65530, 70000) : coin(3) ? range(600, 2100) : range(250, 600);
    Mite::lo = reinterpret_cast<Mite*>(mem);
    Mite::n = cap;
    Mite::others = 0;
    memset(Mite::alive, 0, sizeof Mite::alive);
    first = range(0, static_cast<uint32_t>(cap - 1));
    size = near(cap);
    for (size_t i = 0; i < size; ++i) Mite::alive[first + i < cap ? first + i : first + i - cap] = 1;
    Mite::count = size;
    TRACE("create capacity %zu, start %zu, %zu existing elements", cap, first, size);
    adopt(first);
    check("creation");
    uint32_t n = range(1, 8);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span sp;
      STAT("ops");
      uint32_t op = draw(7);
      switch (op) {
      case 0: case 1: { // add some
        size_t c = std::min<size_t>(near(cap - size), 300);
        TRACE("push_%s %zu times at size %zu", op ? "front" : "back", c, size);
        if (!c) continue;
        bool const was_empty = size == 0;
        size_t const before = first;
        for (size_t k = 0; k < c; ++k) {
          Observe o;
          if (op == 0) { if (k & 1) a->push_back(Mite(1)); else a->emplace_back(static_cast<uint8_t>(2)); }
          else { if (k & 1) a->push_front(Mite(3)); else a->emplace_front(static_cast<uint8_t>(4)); }
        }
        size += c;
        if (was_empty) { Observe o; first = static_cast<size_t>(&a->front() - Mite::lo) % cap; }
        else if (op) first = before >= c ? before - c : before + cap - c;
        break;
      }
      case 2: case 3: case 4: case 5: { // remove some
        size_t c = near(size);
        TRACE("pop_%s(%zu) at size %zu, front slot %zu", op & 1 ? "front" : "back", c, size, first);
        { Observe o; if (op & 1) a->pop_front(c); else a->pop_back(c); }
        if (op & 1) first = (first + c) % cap;
        size -= c;
        break;
      }
      default:
        if (coin(2)) {
          TRACE("clear at size %zu", size);
          { Observe o; a->clear(); }
          size = 0;
        } else {
          size_t pos;
          { Observe o; pos = a->raw_index(a->begin()); a->~A(); }
          TRACE("re-create at %zu", pos);
          adopt(pos);
        }
      }
      check("the operation");
    }
    Observe o;
    a->~A();
  }
};
[[maybe_unused]] void run_c03() {
  run_reset();
  if (coin(64)) { Crowd c; c.run(); }
  else any_type();
}
#endif
bool const entered = enter_part<C03, TRACKED>();
#endif

// ------------------------------------------------------- power loss (C04)
// The storage survives; the adapter object and everything else in RAM is gone.

#if PROP(C04)
template <class T> struct C04 {
  using E = El<T>;
  static void run() {
    World<T> w;
    w.setup(pick_capacity<T>(true));
    sim_memcpy_descending = draw(2) != 0;
    w.create();
    struct { size_t pos, n; std::vector<uint64_t> v; } saved;
    std::vector<char> refilled(w.cap, 0);
    Plan cur;
    bool in_op = false;
    auto save = [&] {
      { Observe o; saved.pos = w.a->raw_index(w.a->begin()); saved.n = w.a->size(); }
      saved.v.assign(w.m.begin(), w.m.end());
      std::fill(refilled.begin(), refilled.end(), 0);
      TRACE("save position %zu, %zu elements", saved.pos, saved.n);
      ev(saved.pos, saved.n);
    };
    save();
    uint32_t boots = range(1, 5);
    for (uint32_t b = 0; b < boots; ++b) {
      uint32_t n = std::min(pick_ops(w.cap), 80u);
      uint32_t per_op = 3 + draw(8);
      bool ok = sim::run_abandonable([&] {
        sim::watch(1, w.st.p, w.st.n);
        sim::set_observer(Power::on_access);
        for (uint32_t i = 0; i < n; ++i) {
          sim::Span s;
          Power::reset();
          if (coin(6)) save();
          cur = w.plan();
          if (cur.op == ALGO) cur.op = OBSERVE;
          if (draw(per_op) == 1) { // power will fail around this operation
            uint32_t est = static_cast<uint32_t>(std::min<size_t>(cur.n, 64) * 2 + 2);
            Power::cut_in = draw(est);
            Power::torn = draw(2) != 0;
          }
          w.note(cur);
          in_op = true;
          w.exec(cur);
          Power::op_end();
          mark(w, cur, refilled);
          w.apply(cur);
          if (was_empty_add) { // slots known only now
            for (size_t k = 0; k < cur.n; ++k) refilled[w.slot(k)] = 1;
          }
          in_op = false;
          if (Power::cut_in >= 0 && draw(2)) {
            STAT("fault.power_cut_between_operations");
            TRACE("  power lost between operations");
            sim::power_cut();
          }
        }
      });
      sim::unwatch_all();
      Power::reset();
      if (ok && draw(2)) { // orderly restart
        save();
        in_op = false;
        w.drop();
      }
      // --- restart: adopt what was saved
      STAT("fault.restart");
      size_t unknown = 0; // in-flight additions to an empty buffer: slots unknown
      std::vector<char> over = refilled;
      if (in_op) {
        if (adds(cur.op)) {
          if (w.m.empty()) unknown = cur.n;
          else for (size_t k = 0; k < cur.n; ++k)
            over[adds_front(cur.op) ? (w.first + w.cap - 1 - k % w.cap) % w.cap : (w.first + w.m.size() + k) % w.cap] = 1;
        } else if (cur.op == IN_RANGE || cur.op == WRITE) {
          for (size_t k = 0; k < cur.n; ++k) over[w.slot(cur.at + k)] = 1;
        }
      }
      uint32_t form = draw(4);
      TRACE("restart: adopt position %zu, %zu elements (form %u)", saved.pos, saved.n, form);
      w.adopt(saved.pos, saved.n, form);
      std::vector<uint64_t> got;
      size_t rs;
      {
        Observe o;
        rs = w.a->size();
        if (draw(2)) for (size_t i = 0; i < saved.n; ++i) { uint64_t v = E::get((*w.a)[i]); Unobserve u; got.push_back(v); }
        else for (auto it = w.a->begin(); it != w.a->end(); ++it) {
          uint64_t v = E::get(*it);
          Unobserve u;
          if (got.size() >= saved.n) break;
          got.push_back(v);
        }
      }
      CHECK(rs == saved.n && got.size() == saved.n, "recovery", "adopted %zu elements, buffer has %zu and yields %zu", saved.n, rs, got.size());
      size_t bad_lo = w.cap, bad_n = 0;
      std::vector<char> bad(w.cap, 0);
      for (size_t i = 0; i < saved.n; ++i) {
        size_t s = (saved.pos + i) % w.cap;
        if (over[s] || got[i] == saved.v[i]) continue;
        CHECK(unknown > 0, "recovery", "after power loss element %zu of the %zu saved reads %llx instead of %llx, though its slot %zu was not reused", i, saved.n,
              (unsigned long long)got[i], (unsigned long long)saved.v[i], s);
        bad[s] = 1;
        ++bad_n;
        if (bad_lo == w.cap) bad_lo = s;
      }
      if (bad_n) { // must fit a contiguous run of `unknown` slots
        bool fits = unknown >= w.cap;
        size_t c = 0; // damaged slots in the window of `unknown` slots from s0
        for (size_t k = 0; k < unknown && k < w.cap; ++k) c += bad[k];
        for (size_t s0 = 0; s0 < w.cap && !fits; ++s0) {
          fits = c == bad_n;
          c = c - bad[s0] + bad[(s0 + unknown) % w.cap];
        }
        CHECK(fits, "recovery", "after power loss %zu saved elements are damaged, more than the %zu slots the interrupted operation used", bad_n, unknown);
      }
      w.m.assign(got.begin(), got.end());
      w.first = saved.pos % w.cap;
      ev(saved.n, in_op ? cur.op : 99);
      in_op = false;
      for (auto& r : refilled) r = 0;
      saved.v = got;
    }
    w.finish();
  }
  static inline bool was_empty_add = false;
  static void mark(World<T>& w, Plan const& p, std::vector<char>& refilled) {
    was_empty_add = false;
    if (adds(p.op)) {
      if (w.m.empty()) { was_empty_add = p.n > 0; return; }
      for (size_t k = 0; k < p.n; ++k)
        refilled[adds_front(p.op) ? (w.first + w.cap - 1 - k % w.cap) % w.cap : (w.first + w.m.size() + k) % w.cap] = 1;
    } else if (p.op == IN_RANGE || p.op == WRITE) {
      for (size_t k = 0; k < p.n; ++k) refilled[w.slot(p.at + k)] = 1;
    }
  }
};
[[maybe_unused]] void run_c04() { run_reset(); Power::reset(); any_type(); }
bool const entered = enter_part<C04, TRIVIAL>();
#endif

// ------------------------------------------------------------------- C05
#if PROP(C05)
template <class T> struct C05 {
  using E = El<T>;
  using A = circular_buffer_adapter<T>;
  using It = typename A::iterator;
  using CIt = typename A::const_iterator;
  struct Handle { uint64_t uid; T* p; It it; CIt cit; };
  static void run() {
    if (huge_run<T>('5')) return;
    World<T> w;
    w.allow_adopt = w.allow_move = false;
    w.setup(pick_capacity<T>(false));
    w.mix.w[ALGO] = 0;
    w.create();
    std::deque<uint64_t> uid; // identity of each element
    uint64_t next = 1;
    for (size_t i = 0; i < w.m.size(); ++i) uid.push_back(next++);
    std::vector<Handle> hs;
    uint32_t n = pick_ops(w.cap);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      Plan p = w.plan();
      w.note(p);
      w.exec(p);
      w.apply(p);
      if (adds(p.op)) {
        for (size_t k = 0; k < p.n; ++k) adds_front(p.op) ? uid.push_front(next++) : uid.push_back(next++);
      } else if (removes(p.op)) {
        bool front = p.op == POP_FRONT || p.op == POP_FRONT_N || p.op == OUT_FRONT || p.op == CLEAR;
        for (size_t k = 0; k < p.n; ++k) front ? uid.pop_front() : uid.pop_back();
      }
      // forget handles of removed elements
      hs.erase(std::remove_if(hs.begin(), hs.end(), [&](Handle const& q) { return std::find(uid.begin(), uid.end(), q.uid) == uid.end(); }), hs.end());
      for (auto& q : hs) {
        size_t pos = static_cast<size_t>(std::find(uid.begin(), uid.end(), q.uid) - uid.begin());
        check_handle(w, q, pos);
      }
      if (!w.m.empty() && hs.size() < 12 && draw(2)) {
        size_t pos = draw(static_cast<uint32_t>(w.m.size()));
        Handle q;
        q.uid = uid[pos];
        q.p = &(*w.a)[pos];
        if (w.emplaced && draw(2)) { // the reference an emplace returned
          pos = p.op == EMPLACE_BACK ? w.m.size() - 1 : 0;
          q.uid = uid[pos];
          q.p = w.emplaced;
        }
        q.it = w.a->begin() + static_cast<std::ptrdiff_t>(pos);
        q.cit = w.a->cbegin() + static_cast<std::ptrdiff_t>(pos);
        TRACE("take handles on element %zu", pos);
        check_handle(w, q, pos);
        hs.push_back(q);
      }
      if (draw(3) == 0) laws(w);
    }
    w.finish();
  }
  static void check_handle(World<T>& w, Handle const& q, size_t pos) {
    std::ptrdiff_t d = static_cast<std::ptrdiff_t>(pos);
    CHECK(E::get(*q.p) == w.m[pos], "reference", "reference to element %zu now reads %llx, expected %llx", pos, (unsigned long long)E::get(*q.p), (unsigned long long)w.m[pos]);
    Observe o;
    bool ok = &*q.it == q.p && &*q.cit == q.p && &(*w.a)[pos] == q.p && q.it.operator->() == q.p;
    bool ok2 = q.it - w.a->begin() == d && q.cit - w.a->cbegin() == d && w.a->end() - q.it == static_cast<std::ptrdiff_t>(w.m.size()) - d;
    bool ok3 = w.a->begin() + d == q.it && w.a->cbegin() + d == q.cit && q.cit == q.it && q.it == q.cit && !(q.it != q.cit);
    size_t ri = w.a->raw_index(q.it), rc = w.a->raw_index(q.cit);
    Unobserve u;
    CHECK(ok, "iterator", "an iterator or index no longer denotes element %zu", pos);
    CHECK(ok2, "iterator", "distance of the iterator on element %zu is wrong", pos);
    CHECK(ok3, "iterator", "iterator on element %zu does not equal begin() + %zu", pos, pos);
    size_t sl = static_cast<size_t>(q.p - w.data);
    CHECK(ri == sl && rc == sl, "raw-index", "raw index of element %zu is %zu/%zu, it lives in slot %zu", pos, ri, rc, sl);
    CHECK(sl == w.slot(pos), "raw-index", "element %zu lives in slot %zu, expected %zu", pos, sl, w.slot(pos));
  }
  template <class I> static I nth(World<T> const& w, I b, I e, size_t pos, uint32_t form) {
    std::ptrdiff_t d = static_cast<std::ptrdiff_t>(pos), n = static_cast<std::ptrdiff_t>(w.m.size());
    switch (form) {
    case 0: return b + d;
    case 1: return e - (n - d);
    case 2: { I r = b; for (size_t i = 0; i < pos; ++i) ++r; return r; }
    case 3: { I r = e; for (size_t i = pos; i < w.m.size(); ++i) --r; return r; }
    case 4: { I r = b; for (size_t i = 0; i < pos; ++i) r++; return r; }
    case 5: { I r = e; for (size_t i = pos; i < w.m.size(); ++i) r--; return r; }
    case 6: { I r; r = b; r += d; return r; }
    case 7: { I r(e); r -= n - d; return r; }
    case 8: return e + (d - n);
    case 9: return b - (-d);
    default: return d + b;
    }
  }
  static void laws(World<T>& w) {
    size_t n = w.m.size();
    size_t i = draw(static_cast<uint32_t>(n + 1)), j = draw(static_cast<uint32_t>(n + 1));
    uint32_t fi = draw(11), fj = draw(11), which = draw(3);
    if (n == 0) { fi = 0; fj = 2; }
    #ifndef REDUCED
    bool const read_only = draw(4) == 1;
#else
    bool const read_only = false;
#endif
    TRACE("iterator laws at %zu, %zu of %zu (forms %u, %u)%s", i, j, n, fi, fj, read_only ? " in a read-only view" : "");
    if (!read_only) return laws_of(w, *w.a, i, j, fi, fj, which);
#ifndef REDUCED
    Observe o;
    T const* d = w.data;
    circular_buffer_adapter<T const> v(d, w.cap, w.a->raw_index(w.a->begin()), n);
    Unobserve u;
    laws_of(w, v, i, j, fi, fj, which);
#endif
  }
  template <class B> static void laws_of(World<T>& w, B& b, size_t i, size_t j, uint32_t fi, uint32_t fj, uint32_t which) {
    using BI = typename B::iterator;
    using BC = typename B::const_iterator;
    Observe o;
    if (which == 0) pair_laws(w, b, nth<BI>(w, b.begin(), b.end(), i, fi), nth<BI>(w, b.begin(), b.end(), j, fj), i, j);
    else if (which == 1) pair_laws(w, b, nth<BC>(w, b.cbegin(), b.cend(), i, fi), nth<BC>(w, b.cbegin(), b.cend(), j, fj), i, j);
    else pair_laws(w, b, nth<BI>(w, b.begin(), b.end(), i, fi), nth<BC>(w, b.cbegin(), b.cend(), j, fj), i, j);
  }
  template <class B, class I, class J> static void pair_laws(World<T>& w, B& b, I x, J y, size_t i, size_t j) {
    size_t n = w.m.size();
    std::ptrdiff_t di = static_cast<std::ptrdiff_t>(i), dj = static_cast<std::ptrdiff_t>(j);
    bool cmp = (x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j);
    bool dist = true, el = true, sub = true, rest = true;
    if constexpr (std::is_same<I, J>::value) dist = x - y == di - dj && y - x == dj - di && x + (y - x) == y && std::distance(x, y) == dj - di;
    if (i < n) {
      el = E::get(*x) == w.m[i] && reinterpret_cast<void const*>(&*x) == w.data + w.slot(i);
      if (j < n) sub = &x[dj - di] == &*y;
      I z = x;
      auto old = z++;
      rest = old == x && z - x == 1;
      auto old2 = z--;
      rest = rest && z == x && old2 - x == 1;
    }
    { typename B::const_iterator c = x; rest = rest && c == x; }
    size_t ri = b.raw_index(x);
    Unobserve u;
    CHECK(cmp, "iterator", "comparison of iterators at %zu and %zu (of %zu) is wrong", i, j, n);
    CHECK(dist, "iterator", "distance between iterators at %zu and %zu (of %zu) is wrong", i, j, n);
    CHECK(el, "iterator", "iterator at %zu does not denote that element", i);
    CHECK(sub, "iterator", "it[n] from %zu to %zu denotes another element", i, j);
    CHECK(rest, "iterator", "post-increment, post-decrement or conversion at %zu of %zu is wrong", i, n);
    size_t want = n ? (w.first + i) % w.cap : ri;
    CHECK(ri == want && ri < w.cap, "raw-index", "raw index of position %zu is %zu, expected %zu", i, ri, want);
  }
};
[[maybe_unused]] void run_c05() { run_reset(); any_type(); }
bool const entered = enter_part<C05, ANY>();
#endif

// ------------------------------------------------------------------- C06
// A bulk copy is worth as much as the single operations it stands for, and an
// interrupted one as little.
#if PROP(C06)
template <class T> struct C06 {
  using E = El<T>;
  static void run() {
    if (huge_run<T>('6')) return;
    World<T> w, x; // w: bulk; x: element by element
    w.setup(pick_capacity<T>(true));
    w.mix = mixes[5];
    w.mix.w[READOPT] = w.mix.w[MOVE_ADAPTER] = 0;
    size_t pos = range(0, static_cast<uint32_t>(w.cap));
    Mix keep = w.mix;
    x.setup(w.cap);
    x.mix = w.mix = keep;
    Life::lo = Life::hi = nullptr;
    uint32_t form = draw(4);
    sim_memcpy_descending = draw(2) != 0;
    TRACE("create<%s> capacity %zu start %zu", E::name, w.cap, pos);
    w.adopt(pos, 0, form);
    x.adopt(pos, 0, form);
    w.first = x.first = pos % w.cap;
    uint32_t n = std::min(pick_ops(w.cap), 60u);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      Plan p = w.plan();
      if (p.op == ALGO || p.op == OBSERVE || p.op == WRITE) continue;
      w.note(p);
      bool interrupt = (p.op >= IN_FRONT && p.op <= OUT_RANGE) && p.n && coin(4);
      if (interrupt) interrupted(w, x, p);
      w.exec(p);
      single(x, p);
      w.apply(p);
      x.m = w.m;
      if (!x.m.empty()) x.locate();
      w.verify_out(p, "bulk");
      if (p.op == OUT_FRONT || p.op == OUT_BACK || p.op == OUT_RANGE)
        CHECK(p.n == 0 || memcmp(w.dst.p, x.dst.p, p.n * sizeof(T)) == 0, "bulk", "%s delivered other bytes than the single operations", op_name[p.op]);
      if (w.cap <= 140 || coin(3) || i + 1 == n) {
        w.verify("bulk", op_name[p.op]);
        x.verify("bulk", "single operations");
      }
      size_t rw, rx, ew, ex;
      { Observe o; rw = w.a->raw_index(w.a->begin()); rx = x.a->raw_index(x.a->begin()); ew = w.a->raw_index(w.a->end()); ex = x.a->raw_index(x.a->end()); }
      if (!w.m.empty())
        CHECK(rw == rx && ew == ex, "bulk", "%s of %zu left the buffer at slots %zu..%zu, single operations at %zu..%zu", op_name[p.op], p.n, rw, ew, rx, ex);
    }
    w.finish();
    x.finish();
  }
  static void single(World<T>& x, Plan const& p) {
    T* d = x.dst_buf();
    T* s = x.src_buf();
    for (size_t i = 0; i < p.n; ++i)
      if (p.op == IN_FRONT || p.op == IN_BACK || p.op == IN_RANGE) ::new (s + i) T(E::make(p.v[i]));
    switch (p.op) {
    case IN_FRONT: for (size_t i = p.n; i-- > 0;) x.a->push_front(s[i]); break;
    case IN_BACK: for (size_t i = 0; i < p.n; ++i) x.a->push_back(s[i]); break;
    case OUT_FRONT: for (size_t i = 0; i < p.n; ++i) { d[i] = x.a->front(); x.a->pop_front(); } break;
    case OUT_BACK: for (size_t i = p.n; i-- > 0;) { d[i] = x.a->back(); x.a->pop_back(); } break;
    case IN_RANGE: for (size_t i = 0; i < p.n; ++i) (*x.a)[p.at + i] = s[i]; break;
    case OUT_RANGE: for (size_t i = 0; i < p.n; ++i) d[i] = (*x.a)[p.at + i]; break;
    case POP_FRONT_N: for (size_t i = 0; i < p.n; ++i) x.a->pop_front(); break;
    case POP_BACK_N: for (size_t i = 0; i < p.n; ++i) x.a->pop_back(); break;
    case CLEAR: x.a->clear(); break; // the position afterwards is clear()'s own business
    default: x.exec(p);
    }
  }
  // power fails inside the bulk operation; adopt the position from before it
  static void interrupted(World<T>& w, World<T>& x, Plan const& p) {
    size_t pos;
    { Observe o; pos = w.a->raw_index(w.a->begin()); }
    std::vector<unsigned char> img(w.st.p, w.st.p + w.st.n);
    bool ok = sim::run_abandonable([&] {
      sim::watch(1, w.st.p, w.st.n);
      sim::watch(2, w.dst.p, w.dst.n);
      sim::set_observer(Power::on_access);
      Power::reset();
      Power::cut_in = draw(static_cast<uint32_t>(std::min<size_t>(p.n * sizeof(T), 64) + 1));
      Power::torn = draw(2) != 0;
      w.exec(p);
      Power::op_end();
    });
    sim::unwatch_all();
    Power::reset();
    if (ok) STAT("probe.bulk_not_interrupted");
    else STAT("probe.bulk_interrupted");
    // slots the operation may have touched
    std::vector<char> may(w.cap, 0);
    if (p.op == IN_FRONT && !w.m.empty()) for (size_t k = 0; k < p.n; ++k) may[(w.first + 2 * w.cap - 1 - k) % w.cap] = 1;
    if (p.op == IN_BACK && !w.m.empty()) for (size_t k = 0; k < p.n; ++k) may[(w.first + w.m.size() + k) % w.cap] = 1;
    if (p.op == IN_RANGE) for (size_t k = 0; k < p.n; ++k) may[w.slot(p.at + k)] = 1;
    bool const any = w.m.empty() && adds(p.op);
    if (!any)
      for (size_t s = 0; s < w.cap; ++s)
        CHECK(may[s] || memcmp(w.st.p + s * sizeof(T), img.data() + s * sizeof(T), sizeof(T)) == 0, "bulk",
              "interrupted %s of %zu changed slot %zu, which it had no business with", op_name[p.op], p.n, s);
    w.adopt(pos, w.m.size(), 0);
    if (w.m.empty()) x.adopt(pos, 0, 0); // where an empty buffer starts is up to the constructor
    if (p.op != IN_RANGE) w.verify("bulk", "after interrupted bulk copy");
    // the caller repeats the operation (exec follows)
  }
};
[[maybe_unused]] void run_c06() { run_reset(); Power::reset(); any_type(); }
bool const entered = enter_part<C06, TRIVIAL>();
#endif

// ------------------------------------------------------------------- C07
#if PROP(C07)
struct Contain {
  static inline Zone st, src, dst;
  static inline size_t esz, src_n, dst_n; // bytes the op may use of src/dst
  static inline std::vector<char> may;  // slots writable
  static inline size_t any_slots;       // additionally, this many slots of the op's choice
  static inline std::vector<char> touched;
  static void on(sim::MemEvent const& e) {
    uintptr_t a = e.addr, b = e.addr + e.size;
    auto out = [&](Zone const& z, size_t n) { return a < reinterpret_cast<uintptr_t>(z.p) || b > reinterpret_cast<uintptr_t>(z.p) + n; };
    if (e.region == 1) {
      CHECK(!out(st, st.n), "outside-storage", "%s of %zu bytes at offset %lld of a storage of %zu bytes", e.write ? "write" : "read", e.size,
            (long long)(a - reinterpret_cast<uintptr_t>(st.p)), st.n);
      if (!e.write) return;
      size_t s0 = (a - reinterpret_cast<uintptr_t>(st.p)) / esz, s1 = (b - 1 - reinterpret_cast<uintptr_t>(st.p)) / esz;
      for (size_t s = s0; s <= s1; ++s) {
        if (may[s]) continue;
        if (any_slots && !touched[s]) { --any_slots; touched[s] = 1; }
        CHECK(touched[s], "foreign-slot", "a write to slot %zu, which the operation neither adds nor removes", s);
      }
    } else if (e.region == 2) {
      CHECK(!e.write, "caller-source", "the caller's source buffer was written");
      CHECK(!out(src, src_n), "caller-source", "read of %zu bytes at offset %lld of the caller's %zu bytes", e.size, (long long)(a - reinterpret_cast<uintptr_t>(src.p)), src_n);
    } else {
      CHECK(!e.write || !out(dst, dst_n), "caller-destination", "write of %zu bytes at offset %lld of the caller's %zu bytes", e.size,
            (long long)(a - reinterpret_cast<uintptr_t>(dst.p)), dst_n);
    }
  }
  static void arm() {
    sim::watch(1, st.p - st.rz, st.n + 2 * st.rz);
    sim::watch(2, src.p - src.rz, src.n + 2 * src.rz);
    sim::watch(3, dst.p - dst.rz, dst.n + 2 * dst.rz);
    sim::set_observer(on);
  }
};
template <class T> struct C07 {
  static void run() {
    World<T> w;
    w.setup(pick_capacity<T>(true));
    Contain::st = w.st;
    Contain::src = w.src;
    Contain::dst = w.dst;
    Contain::esz = sizeof(T);
    Contain::touched.assign(w.cap, 0);
    Contain::may.assign(w.cap, 0);
    Contain::any_slots = 0;
    Contain::src_n = Contain::dst_n = 0;
    Contain::arm();
    w.create();
    uint32_t n = pick_ops(w.cap);
    for (uint32_t i = 0; i < n; ++i) {
      sim::Span s;
      Plan p = w.plan();
      std::fill(Contain::may.begin(), Contain::may.end(), 0);
      std::fill(Contain::touched.begin(), Contain::touched.end(), 0);
      Contain::any_slots = 0;
      size_t const sz = w.m.size();
      if (adds(p.op)) {
        if (sz == 0) Contain::any_slots = p.n;
        else for (size_t k = 0; k < p.n; ++k) Contain::may[adds_front(p.op) ? (w.first + 2 * w.cap - 1 - k) % w.cap : (w.first + sz + k) % w.cap] = 1;
      }
      if (removes(p.op)) {
        bool front = p.op == POP_FRONT || p.op == POP_FRONT_N || p.op == OUT_FRONT || p.op == CLEAR;
        for (size_t k = 0; k < p.n; ++k) Contain::may[front ? w.slot(k) : w.slot(sz - 1 - k)] = 1;
      }
      if (p.op == IN_RANGE || p.op == WRITE || p.op == ALGO) for (size_t k = 0; k < p.n; ++k) Contain::may[w.slot(p.at + k)] = 1;
      if ((p.op == PUSH_BACK_M || p.op == PUSH_FRONT_M) && p.how == 7 && sz) Contain::may[w.slot(sz / 2)] = 1; // moving from an own element
      bool in = p.op == IN_FRONT || p.op == IN_BACK || p.op == IN_RANGE;
      bool outp = p.op == OUT_FRONT || p.op == OUT_BACK || p.op == OUT_RANGE;
      Contain::src_n = in ? p.n * sizeof(T) : 0;
      Contain::dst_n = outp ? p.n * sizeof(T) : 0;
      w.note(p);
      w.exec(p);
      std::fill(Contain::may.begin(), Contain::may.end(), 0);
      Contain::any_slots = 0;
      Contain::dst_n = 0;
      w.apply(p);
      std::fill(Contain::touched.begin(), Contain::touched.end(), 0);
      if (outp)
        for (size_t k = p.n * sizeof(T); k < w.dst.n && k < p.n * sizeof(T) + 64; ++k)
          (void)k;
      ev(p.n);
    }
    // the elements still there go when the buffer is cleared
    std::fill(Contain::may.begin(), Contain::may.end(), 0);
    for (size_t k = 0; k < w.m.size(); ++k) Contain::may[w.slot(k)] = 1;
    w.finish();
    sim::unwatch_all();
    CHECK(w.st.redzones_ok(), "outside-storage", "memory around the storage was modified");
    CHECK(w.src.redzones_ok() && w.dst.redzones_ok(), "caller-buffer", "memory around the caller's buffers was modified");
  }
};
[[maybe_unused]] void run_c07() { run_reset(); any_type(); }
bool const entered = enter_part<C07, ANY>();
#endif

// ------------------------------------------------------------------- M01
// With assertions on, misuse ends at the call before it has done harm, and
// correct use goes on.
#if PROP(M01)
template <class T> struct M01 {
  using A = circular_buffer_adapter<T>;
  using E = El<T>;
  using D = std::ptrdiff_t;
  enum Kind : uint32_t { PUSH, POP, POP_N, ENDS, INDEX, AT, IN, OUT, DEREF, STEP, JUMP, ITINDEX, RANGE, CTOR, NKINDS };
  World<T> w;
  T const* volatile sink = nullptr;
  size_t sz = 0, room = 0;

  // Run one call that must not come back.
  template <class F> void stopped(const char* what, F const& f) {
    bool rejected = false;
    sim::asserted = false;
    sim::during("misuse");
    Life::strict = E::tracked; // destroying what is not there is harm, too
    sim::run_abandonable([&] {
      sim::expect_assert = true;
      try {
        Observe o;
        f();
      } catch (std::out_of_range const&) { rejected = true; }
      sim::expect_assert = false;
    });
    CHECK(sim::asserted || rejected, "misuse", "%s was not stopped", what);
    Life::strict = false;
  }
  // a count or distance beyond `max` (in a way that counters or indices of fewer bits would get wrong)
  size_t beyond(size_t max, size_t top = ~size_t(0)) {
    size_t const c[] = {max + 1, max + 1, max + 1 + draw(5), max + w.cap, w.cap + 1, (size_t(1) << 8) + max, (size_t(1) << 16) + max,
                        (size_t(1) << 31) + draw(8), (size_t(1) << 32) + (max ? draw(static_cast<uint32_t>(max)) : 0), (size_t(1) << 33) - draw(3), size_t(1) << 62,
                        size_t(1) << 63, top, top - max - draw(4)};
    size_t x = c[draw(sizeof c / sizeof c[0])];
    return x > max && x <= top ? x : max + 1;
  }
  static constexpr size_t far = size_t(1) << 62;

  bool applies(Kind k) const {
    switch (k) {
    case PUSH: return room == 0;
    case POP: case ENDS: return sz == 0;
    case IN: case OUT: return E::trivial;
    case RANGE: return E::trivial && sz != 0;
    default: return true;
    }
  }
  // an adapter that has no storage at all
  void misuse_nothing() {
    sz = room = 0;
    Kind k = static_cast<Kind>(draw(NKINDS - 2));
    if (!applies(k)) return;
    static_assert(NKINDS - 2 == RANGE, "no range to be reversed, nothing to be constructed");
    A* a;
    uint32_t f = draw(3);
    TRACE("an adapter without storage (form %u)", f);
    {
      Observe o;
      switch (f) {
      case 0: a = new (w.scratch.p) A(); break;
      case 1: a = new (w.scratch.p) A(w.data, size_t(0)); break;
      default: a = new (w.scratch.p) A(w.data, w.data); break;
      }
    }
    ev(k, 1000);
    STAT("fault.misuse");
    STAT("probe.no_storage");
    size_t const live = Life::live_in_storage();
    use(*a, k);
    CHECK(Life::live_in_storage() == live, "misuse", "elements were created or destroyed before the stop");
    sim::during(nullptr);
  }
  void misuse() {
    sz = w.m.size();
    room = w.cap - sz;
    Kind k = static_cast<Kind>(draw(NKINDS));
    if (room == 0 && draw(3) == 1) k = PUSH;
    if (sz == 0 && draw(3) == 1) k = draw(2) ? POP : ENDS;
    if (!applies(k)) return;
    w.verify("contents", "before a misuse");
    size_t pos;
    { Observe o; pos = w.a->raw_index(w.a->begin()); }
    CHECK(pos < w.cap && (sz == 0 || pos == w.first), "position", "raw index of begin() is %zu", pos);
    size_t const live = Life::live_in_storage();
    ev(k, sz, room);
    sim::cover_state(sim::mix(sim::mix(sim::mix(w.cap, pos), sz), 1000 + k));
    STAT("fault.misuse");
    use(*w.a, k);
    // what the storage holds is as good as before
    CHECK(w.st.redzones_ok() && w.src.redzones_ok() && w.dst.redzones_ok() && w.az.redzones_ok(), "misuse", "memory outside the storage was changed before the stop");
    if (k != POP_N) CHECK(Life::live_in_storage() == live, "misuse", "elements were created or destroyed before the stop");
    gone = Life::live_in_storage() != live; // popped one by one up to the last: to be expected, too
    if (gone) return;
    if (k != CTOR) {
      uint32_t form = draw(4);
      TRACE("  start again from position %zu, %zu elements", pos, sz);
      w.adopt(pos, sz, form);
    }
    w.verify("misuse", "after a stopped misuse");
    sim::during(nullptr);
  }
  void use(A& a, Kind k) {
    A const& c = a;
    switch (k) {
    case PUSH: push(a); break;
    case POP: {
      uint32_t f = draw(2);
      TRACE("misuse: pop_%s() on an empty buffer (capacity %zu)", f ? "front" : "back", sz + room);
      stopped("popping from an empty buffer", [&] { f ? a.pop_front() : a.pop_back(); });
      break;
    }
    case POP_N: {
      uint32_t f = draw(2);
      size_t n = beyond(sz);
      TRACE("misuse: pop_%s(%zu) with %zu elements", f ? "front" : "back", n, sz);
      stopped("popping more elements than there are", [&] { f ? a.pop_front(n) : a.pop_back(n); });
      break;
    }
    case ENDS: {
      uint32_t f = draw(4);
      TRACE("misuse: %s() of an empty buffer (capacity %zu)", f % 2 ? "front" : "back", sz + room);
      stopped("reading an end of an empty buffer", [&] { sink = f == 0 ? &a.back() : f == 1 ? &a.front() : f == 2 ? &c.back() : &c.front(); });
      break;
    }
    case INDEX: case AT: {
      size_t n = draw(4) == 0 ? sz : beyond(sz);
      uint32_t f = draw(2);
      TRACE("misuse: %s with %zu elements, index %zu", k == AT ? "at" : "operator[]", sz, n);
      stopped("an index out of range", [&] {
        if (k == AT) sink = f ? &a.at(n) : &c.at(n);
        else sink = f ? &a[n] : &c[n];
      });
      break;
    }
    case IN:
      if constexpr (E::trivial) {
        uint32_t f = draw(2);
        size_t n = beyond(room);
        for (size_t i = 0; i < w.cap; ++i) ::new (w.src_buf() + i) T(E::make(i));
        T const* s = w.src_buf();
        TRACE("misuse: copy_in_%s(%zu) with room for %zu", f ? "front" : "back", n, room);
        stopped("copying in more elements than there is room for", [&] { f ? a.copy_in_front(s, n) : a.copy_in_back(s, n); });
      }
      break;
    case OUT:
      if constexpr (E::trivial) {
        uint32_t f = draw(2);
        size_t n = beyond(sz);
        T* d = w.dst_buf();
        TRACE("misuse: copy_out_%s(%zu) with %zu elements", f ? "front" : "back", n, sz);
        stopped("copying out more elements than there are", [&] { f ? a.copy_out_front(d, n) : a.copy_out_back(d, n); });
      }
      break;
    case DEREF: {
      uint32_t f = draw(sz ? 4 : 8);
      TRACE("misuse: the element at an end (form %u) of %zu elements", f, sz);
      stopped("the element beyond the last or before the first", [&] {
        switch (f) {
        case 0: sink = &*a.end(); break;
        case 1: sink = &*c.cend(); break;
        case 2: sink = &*a.rend(); break;
        case 3: sink = &*c.crend(); break;
        case 4: sink = &*a.begin(); break;
        case 5: sink = &*c.cbegin(); break;
        case 6: sink = &*a.rbegin(); break;
        default: sink = &*c.crbegin(); break;
        }
      });
      break;
    }
    case STEP: {
      uint32_t f = draw(8), g = draw(3);
      TRACE("misuse: a step off an end (form %u/%u) of %zu elements", f, g, sz);
      stopped("a step beyond the end or before the beginning", [&] {
        switch (f) {
        case 0: step(a.end(), true, g); break;
        case 1: step(a.begin(), false, g); break;
        case 2: step(c.cend(), true, g); break;
        case 3: step(c.cbegin(), false, g); break;
        case 4: step(a.rend(), true, g); break;
        case 5: step(a.rbegin(), false, g); break;
        case 6: step(c.crend(), true, g); break;
        default: step(c.crbegin(), false, g); break;
        }
      });
      break;
    }
    case JUMP: case ITINDEX: {
      size_t i = draw(static_cast<uint32_t>(sz + 1));
      bool const fwd = draw(2) != 0, index = k == ITINDEX;
      size_t n = beyond(fwd ? sz - i : i, far);
      if (index && fwd && draw(3) == 1) n = sz - i; // the end itself
      uint32_t f = draw(4), g = draw(5);
      TRACE("misuse: %s%s%zu from %zu of %zu (form %u/%u)", index ? "it[n] " : "a jump ", fwd ? "+" : "-", n, i, sz, f, g);
      D const p = static_cast<D>(i), d = fwd ? static_cast<D>(n) : -static_cast<D>(n);
      stopped(index ? "indexing an iterator out of range" : "a jump beyond the end or before the beginning", [&] {
        switch (f) {
        case 0: leap(a.begin() + p, d, g, index); break;
        case 1: leap(c.cbegin() + p, d, g, index); break;
        case 2: leap(a.rbegin() + p, d, g, index); break;
        default: leap(c.crbegin() + p, d, g, index); break;
        }
      });
      break;
    }
    case RANGE:
      if constexpr (E::trivial) {
        size_t hi = 1 + draw(static_cast<uint32_t>(sz)), lo = draw(static_cast<uint32_t>(hi));
        uint32_t f = draw(2);
        T* d = w.dst_buf();
        for (size_t i = 0; i < w.cap; ++i) ::new (w.src_buf() + i) T(E::make(i));
        T const* s = w.src_buf();
        TRACE("misuse: copy_%s of the range %zu..%zu", f ? "in" : "out", hi, lo);
        stopped("copying a reversed range", [&] {
          auto x = a.begin() + static_cast<D>(hi), y = a.begin() + static_cast<D>(lo);
          f ? a.copy_in(x, y, s) : a.copy_out(x, y, d);
        });
      }
      break;
    default: construct(); break;
    }
  }
  bool gone = false;

  template <class It> void step(It it, bool up, uint32_t g) {
    if (g == 0) { if (up) it++; else it--; }
    else { if (up) ++it; else --it; }
  }
  template <class It> void leap(It it, D d, uint32_t g, bool index) {
    if (index) { sink = &it[d]; return; }
    switch (g) {
    case 0: it += d; break;
    case 1: it -= -d; break;
    case 2: { It r = it + d; (void)r; break; }
    case 3: { It r = it - -d; (void)r; break; }
    default: { It r = d + it; (void)r; break; }
    }
  }
  void push(A& a) {
    uint64_t v = fresh_value() & E::mask;
    uint32_t f = draw(6);
    if (!E::copyable && f < 2) f += 2;
    T x(E::make(v));
    TRACE("misuse: %s at the %s of a full buffer (capacity %zu)", f < 2 ? "push_(const&)" : f < 4 ? "push_(&&)" : "emplace", f % 2 ? "front" : "back", sz + room);
    stopped("adding to a full buffer", [&] {
      switch (f) {
      case 0: if constexpr (E::copyable) a.push_back(static_cast<T const&>(x)); break;
      case 1: if constexpr (E::copyable) a.push_front(static_cast<T const&>(x)); break;
      case 2: a.push_back(std::move(x)); break;
      case 3: a.push_front(std::move(x)); break;
      case 4: if constexpr (E::trivial) a.emplace_back(x); else a.emplace_back(v); break;
      default: if constexpr (E::trivial) a.emplace_front(x); else a.emplace_front(v); break;
      }
    });
  }
  void construct() {
    T* const d = w.data;
    size_t const cap = w.cap;
    uint32_t f = draw(5);
    size_t first = draw(static_cast<uint32_t>(cap + 1)), n = draw(static_cast<uint32_t>(cap + 1)), back = 0;
    if (f == 0 || f == 2) first = cap + 1 + draw(10);
    else if (f == 1 || f == 3) n = beyond(cap, size_t(1) << 50);
    else back = 1 + draw(4);
    bool ptrs = f >= 2;
    TRACE("misuse: an adapter over %zu slots, start %zd, %zu elements (form %u)", cap, static_cast<D>(first) - static_cast<D>(back), n, f);
    T* p = back ? d - back : d + first;
    stopped("an adapter with a start or number of elements outside its storage", [&] {
      if (ptrs) new (w.scratch.p) A(d, d + cap, p, n);
      else new (w.scratch.p) A(d, cap, first, n);
    });
  }
  // at the very edge of what is allowed
  void edge() {
    sz = w.m.size();
    room = w.cap - sz;
    uint32_t k = draw(9);
    A& a = *w.a;
    A const& c = a;
    D const n = static_cast<D>(sz);
    ev(k, sz, room);
    TRACE("use at the edge: form %u, %zu elements of %zu", k, sz, w.cap);
    STAT("probe.use_at_the_edge");
    sim::during("misuse");
    size_t i = draw(static_cast<uint32_t>(sz + 1)), pos = draw(static_cast<uint32_t>(w.cap + 1)), cnt = draw(static_cast<uint32_t>(w.cap + 1));
    D const d = static_cast<D>(i);
    {
      Observe o;
      switch (k) {
      case 0: a.pop_front(0); a.pop_back(0); break;
      case 1: leap(a.begin(), n, i % 5, false); leap(c.cend(), -n, i % 5, false); leap(a.rbegin(), n, i % 5, false); leap(c.crend(), -n, i % 5, false); break;
      case 2:
        if (!sz) break;
        sink = &a.begin()[n - 1];
        sink = &a.end()[-1];
        sink = &c.cend()[-n];
        sink = &(c.cbegin() + d)[-d];
        if (d < n) sink = &(a.begin() + d)[n - 1 - d];
        sink = &a.rbegin()[n - 1];
        sink = &a.rend()[-1];
        break;
      case 3: {
        auto it = a.begin();
        for (size_t j = 0; j < sz; ++j) ++it;
        for (size_t j = 0; j < sz; ++j) it--;
        auto r = c.crbegin();
        for (size_t j = 0; j < sz; ++j) r++;
        for (size_t j = 0; j < sz; ++j) --r;
        break;
      }
      case 4:
        if constexpr (E::trivial) {
          a.copy_in_front(w.src_buf(), 0);
          a.copy_in_back(w.src_buf(), 0);
          a.copy_out_front(w.dst_buf(), 0);
          a.copy_out_back(w.dst_buf(), 0);
        }
        break;
      case 5: if (sz) { sink = &a[sz - 1]; sink = &c.at(sz - 1); sink = &c[0]; } break;
      case 6:
        if constexpr (E::trivial)
          if (sz) {
            a.copy_out(c.cbegin() + (d < n ? d : 0), c.cend(), w.dst_buf());
            a.copy_out(a.begin(), a.end(), w.dst_buf());
            a.copy_in(a.begin(), a.end(), w.dst_buf());
          }
        break;
      case 7: new (w.scratch.p) A(w.data, w.cap, pos, cnt); break;
      default: new (w.scratch.p) A(w.data, w.data + w.cap, w.data + pos, cnt); break;
      }
    }
    if (k == 0) w.verify("misuse", "after removing nothing");
    sim::during(nullptr);
  }

  static void run() {
    M01 x;
    x.go();
  }
  void go() {
    w.setup(pick_capacity<T>(false));
    w.scratch = zone(sizeof(A), 64, 64);
    w.create();
    uint32_t n = std::min(pick_ops(w.cap), 80u);
    for (uint32_t i = 0; i < n && !gone; ++i) {
      sim::Span s;
      switch (draw(4)) {
      case 1: if (coin(8)) misuse_nothing(); else misuse(); break;
      case 2: edge(); break;
      default: {
        Plan p = w.plan();
        w.note(p);
        w.exec(p);
        w.apply(p);
      }
      }
    }
    if (!gone) w.finish();
  }
};
[[maybe_unused]] void run_m01() { run_reset(); any_type(); }
bool const entered = enter_part<M01, ANY>();
#endif

} // namespace

#ifdef ONLY_A01
#if PART == 0
namespace { bool const component = h::add_component("ring buffer", run_c01); }
#endif
#elif PART == 0
namespace sim {
const Harness harnesses[] = {
#if PROP(C01)
    {"C01", run_c01, "bounded deque"},
#endif
#if PROP(C02)
    {"C02", run_c02, "failed operations leave no trace"},
#endif
#if PROP(C03)
    {"C03", run_c03, "element lifetimes"},
#endif
#if PROP(C04)
    {"C04", run_c04, "power loss and re-adoption"},
#endif
#if PROP(C05)
    {"C05", run_c05, "references, iterators, raw index"},
#endif
#if PROP(C06)
    {"C06", run_c06, "bulk copies"},
#endif
#if PROP(C07)
    {"C07", run_c07, "containment"},
#endif
#if PROP(M01)
    {"M01", run_m01, "misuse", "misuse"},
#endif
};
const size_t n_harnesses = sizeof harnesses / sizeof harnesses[0];
} // namespace sim
#endif
