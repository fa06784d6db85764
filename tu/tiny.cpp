// tpie::tiny containers for an opaque 64-bit element and an external comparator.
#include <tpie/config.h>
#include <vector>
#include <tpie/tiny.h>
struct elem { unsigned long v; };
extern bool vp_less(const elem&, const elem&);
struct Cmp { bool operator()(const elem&a,const elem&b) const { return vp_less(a,b);} };
using TS = tpie::tiny::set<elem, Cmp>;
using TM = tpie::tiny::multiset<elem, Cmp>;
typedef const elem * cit;
#define ALL(N, C) \
	void vp_##N##_insert(C & s, const elem & x, C::insert_result & r) { r = s.insert(x); } \
	void vp_##N##_emplace(C & s, const elem & x, C::insert_result & r) { r = s.emplace(x); } \
	C::iterator vp_##N##_erase(C & s, C::iterator i) { return s.erase(i); } \
	C::iterator vp_##N##_erase2(C & s, C::iterator i, C::iterator j) { return s.erase(i, j); } \
	size_t vp_##N##_erasekey(C & s, const elem & x) { return s.erase(x); } \
	C::iterator vp_##N##_find(C & s, const elem & x) { return s.find(x); } \
	C::const_iterator vp_##N##_findc(const C & s, const elem & x) { return s.find(x); } \
	C::iterator vp_##N##_lower(C & s, const elem & x) { return s.lower_bound(x); } \
	C::iterator vp_##N##_upper(C & s, const elem & x) { return s.upper_bound(x); } \
	C::const_iterator vp_##N##_lowerc(const C & s, const elem & x) { return s.lower_bound(x); } \
	C::const_iterator vp_##N##_upperc(const C & s, const elem & x) { return s.upper_bound(x); } \
	void vp_##N##_range(C & s, const elem & x, C::iterator & a, C::iterator & b) { auto r = s.equal_range(x); a = r.first; b = r.second; } \
	void vp_##N##_rangec(const C & s, const elem & x, C::const_iterator & a, C::const_iterator & b) { auto r = s.equal_range(x); a = r.first; b = r.second; } \
	size_t vp_##N##_count(const C & s, const elem & x) { return s.count(x); } \
	size_t vp_##N##_size(const C & s) { return s.size(); } \
	bool vp_##N##_empty(const C & s) { return s.empty(); } \
	C::iterator vp_##N##_begin(C & s) { return s.begin(); } \
	C::iterator vp_##N##_end(C & s) { return s.end(); } \
	C::const_iterator vp_##N##_cbegin(const C & s) { return s.begin(); } \
	C::const_iterator vp_##N##_cend(const C & s) { return s.end(); } \
	void vp_##N##_clear(C & s) { s.clear(); } \
	void vp_##N##_insertrange(C & s, cit a, cit b) { s.insert(a, b); } \
	void vp_##N##_swap(C & s, C & t) { s.swap(t); }
ALL(set, TS)
ALL(mul, TM)
void vp_sort(elem * a, elem * b) { tpie::tiny::sort(a, b, Cmp()); }
