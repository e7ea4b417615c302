#ifndef PSX_OSTREAM_INSERT
#define PSX_OSTREAM_INSERT 1
#include <iosfwd>
namespace std {
template <typename C, typename T> inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { return o.psx_padded(s, n); }
}
#endif
