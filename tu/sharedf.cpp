// Shared files: file_base and its streams for an opaque 8-byte item.
#include <tpie/file_base.cpp>
#include <tpie/file.h>
struct elem { unsigned long v; };
typedef tpie::file<elem> FI;
typedef tpie::file<elem>::stream FS;
void vp_fseek(FS & s, tpie::stream_offset_type o, int w) { s.seek(o, (FS::offset_type)w); }
tpie::stream_size_type vp_foffset(const FS & s) { return s.offset(); }
tpie::stream_size_type vp_fsize(const FS & s) { return s.size(); }
bool vp_fcanread(const FS & s) { return s.can_read(); }
bool vp_fcanback(const FS & s) { return s.can_read_back(); }
void vp_fread(FS & s, elem & o) { o = s.read(); }
void vp_fback(FS & s, elem & o) { o = s.read_back(); }
void vp_fwrite(FS & s, const elem & x) { s.write(x); }
void vp_fwritea(FS & s, elem * b, size_t n) { s.write(b, b + n); }
void vp_freada(FS & s, elem * b, size_t n) { s.read(b, b + n); }
void vp_fattach(FS & s, FI & f) { s.attach(f); }
void vp_fdetach(FS & s) { s.detach(); }
void vp_fdestroy(FS & s) { s.~stream(); }
void vp_ftrunc(FI & f, tpie::stream_size_type n) { f.truncate(n); }
