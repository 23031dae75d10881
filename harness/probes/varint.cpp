// properties: V01 V02 V03
// Every integer type, any input range, any output.
#include <embedded/varint.h>
#include <cstdint>
#include <iterator>
#include <list>
#include <vector>
using embedded::varint;
template <class T> void make() {
  T v = 1;
  std::vector<std::uint8_t> o;
  varint::encode(v, std::back_inserter(o));
  std::uint8_t b[32], *e = b + 32;
  std::uint8_t* r = varint::encode(v, b, e);
  r = varint::encode(v, b);
  (void)r;
  std::list<std::uint8_t> l(o.begin(), o.end());
  varint::encode(v, l.begin(), l.end());
  std::list<std::uint8_t>::const_iterator d = varint::decode(v, l.cbegin(), l.cend());
  std::uint8_t const* p = varint::decode(v, static_cast<std::uint8_t const*>(b), static_cast<std::uint8_t const*>(e));
  (void)d; (void)p;
  (void)varint::size(v);
}
void use() {
  make<std::uint8_t>(); make<std::int8_t>(); make<std::uint16_t>(); make<std::int16_t>();
  make<std::uint32_t>(); make<std::int32_t>(); make<std::uint64_t>(); make<std::int64_t>();
  make<long long>(); make<unsigned long long>(); make<char>();
}
