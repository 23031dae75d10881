// properties: C05
// Reading an adapter through const_iterator, as any container is read.
#include <embedded/circular_buffer_adapter.h>
#include <iterator>
#include <algorithm>
struct P { int x; };
using B = embedded::circular_buffer_adapter<P>;
int sum(B const& b) {
  int s = 0;
  for (P const& p : b) s += p.x;
  for (auto it = b.cbegin(); it != b.cend(); ++it) s += it->x + (*it).x;
  for (auto it = b.rbegin(); it != b.rend(); it++) s += it->x;
  B::const_iterator a = b.begin(), e = b.end();
  s += static_cast<int>(e - a) + a[0].x + (a + 1)->x + (1 + a)->x;
  a += 1; a -= 1; --a; a--;
  return s + (a < e) + (a <= e) + (a == e);
}
int mut(B& b) {
  B::const_iterator c = b.begin(); // from a mutable one
  for (P& p : b) p.x++;
  std::reverse(b.begin(), b.end());
  return c->x + static_cast<int>(std::distance(b.cbegin(), b.cend()));
}
void use(P* first, P* last) {
  B b(first, last);
  sum(b);
  mut(b);
}
