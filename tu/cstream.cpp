// Compressed streams: the stream functions of compressed/stream_base.cpp and
// compressed/stream.h for an opaque 8-byte item.
#include <tpie/compressed/stream_base.cpp>
#include <tpie/file_stream.h>
struct elem { unsigned long v; };
typedef tpie::file_stream<elem> CS;
void vp_cread(CS & s, elem & o) { o = s.read(); }
void vp_cback(CS & s, elem & o) { o = s.read_back(); }
void vp_cpeek(CS & s, elem & o) { o = s.peek(); }
void vp_cskip(CS & s) { s.skip(); }
void vp_cskipback(CS & s) { s.skip_back(); }
void vp_cwrite(CS & s, const elem & x) { s.write(x); }
void vp_creada(CS & s, elem * b, size_t n) { s.read(b, b + n); }
void vp_cwritea(CS & s, const elem * b, size_t n) { s.write(b, b + n); }
bool vp_ccanread(CS & s) { return s.can_read(); }
bool vp_ccanback(CS & s) { return s.can_read_back(); }
tpie::stream_size_type vp_csize(const CS & s) { return s.size(); }
