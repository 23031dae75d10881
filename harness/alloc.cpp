// A01: every component, any history; a request for dynamic memory made while
// library code runs (user-supplied code excepted) is the violation.
#include "common.h"

namespace {
void run_a01() {
  uint32_t c = h::draw(static_cast<uint32_t>(h::g_ncomponents));
  std::sort(h::g_components, h::g_components + h::g_ncomponents, [](h::Component const& a, h::Component const& b) { return strcmp(a.name, b.name) < 0; });
  sim::ev(c);
  sim::stat_add(sim::stat_slot(h::g_components[c].name), 1);
  STAT("fault.heap_withdrawn_runs");
  sim::alloc_fail = true;
  sim::alloc_forbidden = true;
  h::g_components[c].run();
  sim::alloc_fail = sim::alloc_forbidden = false;
}
} // namespace

namespace sim {
const Harness harnesses[] = {{"A01", run_a01, "no allocation", "allocation"}};
const size_t n_harnesses = 1;
} // namespace sim
