// properties: W01 W02
// Wrapping an object that can only be moved, to be copied around.
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <functional>
#include <memory>
struct Throws { Throws(); Throws(Throws&&) noexcept(false); Throws& operator=(Throws&&) = delete; };
struct Plain { explicit Plain(int); Plain(Plain&&) noexcept; int v; };
struct Callback { embedded::move_wrapper<Plain> p; void operator()() {} };
template <class T> void make(T t) {
  embedded::move_wrapper<T> a(std::move(t)), b(a), c(std::move(b));
  embedded::move_wrapper<T> const& k = c;
  embedded::move_wrapper<T> d(k);
  (void)*a; (void)*k; (void)a.operator->(); (void)k.operator->();
  std::function<int()> f([d] { return 0; });
  f();
}
void use() {
  make(std::unique_ptr<int>(new int(1)));
  make(Throws());
  embedded::move_wrapper<Plain> p(Plain(1));
  embedded::function<void(), 64> g(Callback{p}), h([p] {});
  g = std::move(h);
}
