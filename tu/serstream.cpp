// Serialization streams: the real source file, the file accessor by contract.
#include "../../repo/tpie/serialization_stream.cpp"
typedef tpie::serialization_writer W;
typedef tpie::serialization_reverse_writer RW;
typedef tpie::serialization_reader R;
typedef tpie::serialization_reverse_reader RR;
typedef tpie::bits::serialization_reader_base RB;
void vp_write(W & w, const char * s, size_t n) { W::serializer x(w); x.write(s, n); }
void vp_flush(RW::serializer * s) { s->~serializer(); }
void vp_collect(RW::serializer & s, const char * d, size_t n) { s.write(d, n); }
void vp_read(RB & r, char * s, size_t n) { r.read(s, n); }
bool vp_can(R & r) { return r.can_read(); }
bool vp_rcan(RR & r) { return r.can_read(); }
void vp_del(W * w) { w->~W(); }
void vp_rdel(RW * w) { w->~RW(); }
void vp_new(W * w) { new (w) W; }
void vp_rnew(RW * w) { new (w) RW; }
void vp_rdnew(R * w) { new (w) R; }
void vp_rrdnew(RR * w) { new (w) RR; }
