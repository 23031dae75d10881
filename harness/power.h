// Fault: power fails at a store to persistent memory, optionally tearing it.
#pragma once
#include "common.h"

namespace h {
struct Power {
  static inline int64_t cut_in = -1; // storage writes until the cut
  static inline bool torn = false;
  static inline bool pending = false;
  static inline uintptr_t pa = 0;
  static inline size_t pn = 0;
  static inline unsigned char pre[256];
  static inline uint64_t writes = 0;
  static void reset() { cut_in = -1; torn = pending = false; writes = 0; }
  static void settle() { // the store recorded before has now happened: tear it, lose power
    pending = false;
    cut_in = -1;
    unsigned char* p = reinterpret_cast<unsigned char*>(pa);
    uint32_t keep = draw(3);
    for (size_t i = 0; i < pn; ++i) {
      bool revert = keep == 0 ? i >= pn / 2 : keep == 1 ? i < pn / 2 : draw(2) != 0;
      if (revert) p[i] = pre[i];
    }
    STAT("fault.torn_write");
    TRACE("  power lost, last store of %zu bytes torn", pn);
    ::sim::power_cut();
  }
  static void on_access(::sim::MemEvent const& e) {
    if (pending) settle();
    if (!e.write) return;
    ++writes;
    if (cut_in < 0) return;
    if (cut_in-- > 0) return;
    if (torn && e.size > 1 && e.size <= sizeof pre) {
      pending = true;
      pa = e.addr;
      pn = e.size;
      memcpy(pre, reinterpret_cast<void*>(e.addr), e.size);
      return;
    }
    STAT("fault.power_cut_mid_operation");
    TRACE("  power lost before a store of %zu bytes", e.size);
    ::sim::power_cut();
  }
  static void op_end() { if (pending) settle(); }
};
} // namespace h
