// Uncompressed streams: the stream functions with the block fetching code of
// file_stream_base.cpp, for an opaque 8-byte item.
#include <tpie/file_stream_base.cpp>
#include <tpie/uncompressed_stream.h>
#include <tpie/stack.h>
struct elem { unsigned long v; };
typedef tpie::uncompressed_stream<elem> US;
typedef tpie::file_stream_base FB;
void vp_useek(US & s, tpie::stream_offset_type o, int w) { s.seek(o, (US::offset_type)w); }
tpie::stream_size_type vp_uoffset(const US & s) { return s.offset(); }
tpie::stream_size_type vp_usize(const US & s) { return s.size(); }
bool vp_ucanread(const US & s) { return s.can_read(); }
bool vp_ucanback(const US & s) { return s.can_read_back(); }
void vp_uread(US & s, elem & o) { o = s.read(); }
void vp_uback(US & s, elem & o) { o = s.read_back(); }
void vp_upeek(US & s, elem & o) { o = s.peek(); }
void vp_uskip(US & s) { s.skip(); }
void vp_uskipback(US & s) { s.skip_back(); }
void vp_uwrite(US & s, const elem & x) { s.write(x); }
void vp_utrunc(US & s, tpie::stream_size_type n) { s.truncate(n); }
void vp_uclose(US & s) { s.close(); }
void vp_uopen(US & s, const std::string & p, tpie::access_type a, size_t u) { s.open(p, a, u); }
void vp_uwritea(US & s, elem * b, size_t n) { s.write(b, b + n); }
void vp_ureada(US & s, elem * b, size_t n) { s.read(b, b + n); }
void vp_uswap(US & a, US & b) { a.swap(b); }
