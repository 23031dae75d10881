// properties: L01 C08
// Guarding mutexes that neither copy nor move.
#include <embedded/mutex.h>
struct M { M() = default; M(M const&) = delete; M& operator=(M const&) = delete; void lock() {} void unlock() {} };
struct V { virtual void lock() = 0; virtual void unlock() = 0; };
struct D : V { void lock() override {} void unlock() override {} };
void use() {
  M m;
  embedded::lock_guard<M> a(m);
  D d;
  embedded::lock_guard<V> b(d);
}
