// properties: F01 F02 F03 F04
// Targets of every kind, and arguments and results that only move.
#include <embedded/function.h>
#include <functional>
#include <memory>
#include <string>
using embedded::function;
struct MoveOnly { std::unique_ptr<int> p; int operator()(int x) const { return *p + x; } };
struct S { int v; int get() const { return v; } int set(int x) { return v = x; } };
struct alignas(32) Al { int operator()(int x) const { return x; } };
struct Pooled { // allocated from a pool when on the heap
  static void* operator new(std::size_t);
  static void operator delete(void*);
  Pooled* operator&() = delete;
  int operator()(int x) const { return x; }
};
int plain(int x) { return x; }
void use(S s) {
  function<int(int)> f{MoveOnly{}}, g(&plain), h, n(nullptr);
  h = std::move(f);
  h = nullptr;
  h = plain;
  h = MoveOnly{};
  h = Pooled{};
  function<int(int) const> c{MoveOnly{}};
  function<int(int) const> const& cr = c;
  cr(1);
  function<int(int), 64, 32> a{Al{}};
  function<int(S const&)> m(&S::get);
  function<int&(S&)> d(&S::v);
  m = &S::get;
  d = &S::v;
  function<int(S&, int)> w(&S::set);
  w(s, 3);
  function<std::unique_ptr<int>(std::unique_ptr<int>)> u([](std::unique_ptr<int> p) { return p; });
  u(u(nullptr));
  function<std::string&(std::string&)> r([](std::string& x) -> std::string& { return x; });
  function<void()> v([] {});
  function<int(int)> q(std::ref(f));
  if (f) f(1);
  static_assert(std::is_nothrow_move_constructible<function<int(int)>>::value, "");
  static_assert(!std::is_copy_constructible<function<int(int)>>::value, "");
}
