// properties: S01 S02 S03 S04
// Instances of every family and form, copied and assigned.
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
using namespace embedded::signal;
template <class D> void use1(D const& d) {
  auto a = d.instance();
  auto b = a;
  b = a;
  b = std::move(a);
  (void)b(1);
}
template <class F, class B> void use2(B const& b) {
  use1(b.template poly<F>());
  use1(b.template sos<F>());
  use1(b.template sos<F>(sos_gain::distribute));
}
template <class C> void use3(C const& c) {
  iirfilter<double> fl(1000);
  use2<float>(fl.lowpass(c, 100));
  use2<double>(fl.highpass(c, 100));
}
void use() {
  use3(butterworth<3>());
  use3(chebyshev1<4>(1));
  use3(chebyshev2<5>(40));
  use3(bessel<2>());
}
