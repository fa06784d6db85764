// File accessors: the POSIX layer and the stream layers on top of it.
#include <tpie/config.h>
#include <tpie/exception.h>
#include <tpie/file_accessor/file_accessor.h>
#include <tpie/file_accessor/posix.h>
#include <tpie/file_accessor/stream_accessor.h>
#include <tpie/file_accessor/byte_stream_accessor.h>
typedef tpie::file_accessor::posix A;
void vp_read(A & a, void * d, size_t n) { a.read_i(d, n); }
void vp_write(A & a, const void * d, size_t n) { a.write_i(d, n); }
void vp_seek(A & a, tpie::stream_size_type n) { a.seek_i(n); }
tpie::stream_size_type vp_fsize(A & a) { return a.file_size_i(); }
void vp_trunc(A & a, tpie::stream_size_type n) { a.truncate_i(n); }
void vp_close(A & a) { a.close_i(); }
bool vp_isopen(const A & a) { return a.is_open(); }
void vp_open_ro(A & a, const std::string & p) { a.open_ro(p); }
void vp_open_wo(A & a, const std::string & p) { a.open_wo(p); }
void vp_open_new(A & a, const std::string & p) { a.open_rw_new(p); }
bool vp_try_open(A & a, const std::string & p) { return a.try_open_rw(p); }
void vp_life() { A a; }
void vp_drop(A * a) { a->~A(); }
void vp_errno(const std::string & p) { A::throw_errno(p); }
typedef tpie::file_accessor::stream_accessor<A> SA;
typedef tpie::file_accessor::byte_stream_accessor<A> BA;
typedef tpie::file_accessor::stream_accessor_base<A> SB;
void vp_sopen(SA & s, const std::string & p, bool r, bool w, size_t is, size_t bs, size_t mu, int cf) { s.open(p, r, w, is, bs, mu, tpie::access_normal, cf); }
void vp_sclose(SA & s) { s.close(); }
size_t vp_rblock(SA & s, void * d, tpie::stream_size_type b, size_t n) { return s.SA::read_block(d, b, n); }
void vp_wblock(SA & s, const void * d, tpie::stream_size_type b, size_t n) { s.SA::write_block(d, b, n); }
size_t vp_rud(SA & s, void * d, size_t n) { return s.read_user_data(d, n); }
void vp_wud(SA & s, const void * d, size_t n) { s.write_user_data(d, n); }
void vp_strunc(SA & s, tpie::stream_size_type n) { s.truncate(n); }
tpie::stream_size_type vp_bsize(const SA & s) { return s.byte_size(); }
tpie::stream_size_type vp_ssize(const SA & s) { return s.size(); }
size_t vp_uds(const SA & s) { return s.user_data_size(); }
size_t vp_mud(const SA & s) { return s.max_user_data_size(); }
bool vp_comp(SA & s) { return s.get_compressed(); }
tpie::stream_size_type vp_lbro(SA & s) { return s.get_last_block_read_offset(); }
void vp_slbro(SA & s, tpie::stream_size_type n) { s.set_last_block_read_offset(n); }
size_t vp_bread(BA & s, tpie::stream_size_type o, void * d, size_t n) { return s.read(o, d, n); }
void vp_bwrite(BA & s, tpie::stream_size_type o, const void * d, size_t n) { s.write(o, d, n); }
void vp_bappend(BA & s, const void * d, size_t n) { s.append(d, n); }
void vp_btrunc(BA & s, tpie::stream_size_type n) { s.truncate_bytes(n); }
tpie::stream_size_type vp_bfsize(BA & s) { return s.file_size(); }
bool vp_bempty(BA & s) { return s.empty(); }
