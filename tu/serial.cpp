// Serialization as compiled from /repo, for an external sink and source of bytes.
#include <tpie/serialization2.h>
#include <string>
#include <vector>
#include <array>
#include <tuple>
typedef unsigned long u64;
struct elem { u64 v; };
struct snk { void write(const void *, size_t); };
struct src { void read(void *, size_t); };
namespace vp { struct item { u64 v; item(); item(const item &); item & operator=(const item &); ~item(); };
void serialize(snk &, const item &); void unserialize(src &, item &); }
typedef std::pair<u64, unsigned> pr;
struct np { np(const np&); u64 v; };
typedef std::tuple<u64, unsigned, std::pair<u64, u64> > tp;
typedef std::tuple<unsigned long, vp::item, unsigned> ti;
typedef std::pair<vp::item, u64> pi;
struct Cstr { int a; };
using tpie::serialize; using tpie::unserialize;
void vp_w_u64(snk & s, const u64 & v) { serialize(s, v); }
void vp_w_u32(snk & s, const unsigned & v) { serialize(s, v); }
void vp_w_char(snk & s, const char & v) { serialize(s, v); }
void vp_w_elem(snk & s, const elem & v) { serialize(s, v); }
void vp_w_pair(snk & s, const pi & v) { serialize(s, v); }
void vp_w_tuple(snk & s, const ti & v) { serialize(s, v); }
void vp_w_carr(snk & s, const elem (&v)[5]) { serialize(s, v); }
void vp_w_iarr(snk & s, const vp::item (&v)[5]) { serialize(s, v); }
void vp_w_sarr(snk & s, const std::array<elem, 5> & v) { serialize(s, v); }
void vp_w_siarr(snk & s, const std::array<vp::item, 5> & v) { serialize(s, v); }
void vp_w_vec(snk & s, const std::vector<elem> & v) { serialize(s, v); }
void vp_w_ivec(snk & s, const std::vector<vp::item> & v) { serialize(s, v); }
void vp_w_arr(snk & s, const tpie::array<elem> & v) { serialize(s, v); }
void vp_w_iarray(snk & s, const tpie::array<vp::item> & v) { serialize(s, v); }
void vp_w_str(snk & s, const std::string & v) { serialize(s, v); }
void vp_w_range(snk & s, const elem * a, const elem * b) { serialize(s, a, b); }
void vp_w_irange(snk & s, const vp::item * a, const vp::item * b) { serialize(s, a, b); }
void vp_r_u64(src & s, u64 & v) { unserialize(s, v); }
void vp_r_u32(src & s, unsigned & v) { unserialize(s, v); }
void vp_r_char(src & s, char & v) { unserialize(s, v); }
void vp_r_elem(src & s, elem & v) { unserialize(s, v); }
void vp_r_pair(src & s, pi & v) { unserialize(s, v); }
void vp_r_tuple(src & s, ti & v) { unserialize(s, v); }
void vp_r_carr(src & s, elem (&v)[5]) { unserialize(s, v); }
void vp_r_iarr(src & s, vp::item (&v)[5]) { unserialize(s, v); }
void vp_r_sarr(src & s, std::array<elem, 5> & v) { unserialize(s, v); }
void vp_r_siarr(src & s, std::array<vp::item, 5> & v) { unserialize(s, v); }
void vp_r_vec(src & s, std::vector<elem> & v) { unserialize(s, v); }
void vp_r_ivec(src & s, std::vector<vp::item> & v) { unserialize(s, v); }
void vp_r_arr(src & s, tpie::array<elem> & v) { unserialize(s, v); }
void vp_r_iarray(src & s, tpie::array<vp::item> & v) { unserialize(s, v); }
void vp_r_str(src & s, std::string & v) { unserialize(s, v); }
void vp_r_range(src & s, elem * a, elem * b) { unserialize(s, a, b); }
void vp_r_irange(src & s, vp::item * a, vp::item * b) { unserialize(s, a, b); }
size_t vp_s_u32(const unsigned & v) { return tpie::serialized_size(v); }
size_t vp_s_vec(const std::vector<elem> & v) { return tpie::serialized_size(v); }
size_t vp_s_str(const std::string & v) { return tpie::serialized_size(v); }
size_t vp_s_carr(const elem (&v)[5]) { return tpie::serialized_size(v); }
