// properties: C01
// An adapter over items in read-only memory: they can be read, copied out and
// dropped, one at a time or many.
#include <embedded/circular_buffer_adapter.h>
using B = embedded::circular_buffer_adapter<unsigned char const>;
unsigned use(unsigned char const* first, unsigned char const* last, unsigned char* out) {
  B b(first, static_cast<std::size_t>(last - first), 1, 8);
  unsigned s = b.front() + b.back() + b[0] + b.at(0);
  for (unsigned char const& x : b) s += x;
  b.copy_out(b.begin(), b.begin() + 1, out);
  b.copy_out_front(out, 1);
  b.copy_out_back(out, 1);
  b.pop_front(1);
  b.pop_back(1);
  b.pop_front();
  b.pop_back();
  b.clear();
  return s;
}
