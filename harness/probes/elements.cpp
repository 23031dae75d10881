// properties: C01 C02 C03 C05
// Elements that can only be moved, only be copied, neither be assigned, or have
// their own operator new.
#include <embedded/circular_buffer_adapter.h>
#include <memory>
#include <string>
struct Fixed { Fixed(int, char); Fixed(Fixed&&); Fixed& operator=(Fixed&&) = delete; };
struct CopyOnly { CopyOnly(int); CopyOnly(CopyOnly const&); CopyOnly& operator=(CopyOnly const&) = delete; };
struct Pooled { // allocated from a pool when on the heap
  Pooled(int); Pooled(Pooled&&);
  static void* operator new(std::size_t);
  static void operator delete(void*);
};
template <class T, class... A> void make(void* m, A... a) {
  T* p = static_cast<T*>(m);
  embedded::circular_buffer_adapter<T> b(p, p + 4);
  b.emplace_back(a...);
  b.emplace_front(a...);
  b.push_back(T(a...));
  b.push_front(T(a...));
  embedded::circular_buffer_adapter<T> c(std::move(b));
  b.pop_back();
  b.pop_front();
  b.clear();
  (void)b.front(); (void)b.back(); (void)b[0]; (void)b.at(0);
}
void use(void* m) {
  make<std::unique_ptr<int>>(m, nullptr);
  make<std::string>(m, "x");
  make<Fixed>(m, 1, 'c');
  make<CopyOnly>(m, 1);
  make<Pooled>(m, 1);
}
