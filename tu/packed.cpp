// Instantiates packed_array for every element width that divides the word;
// the clients only call into /repo's code, which is inlined.
#include <tpie/array.h>
#include <tpie/memory.h>
#include <boost/iterator/iterator_facade.hpp>
#include <tpie/packed_array.h>
#include <tpie/bit_array.h>
#define W(B, T) \
template class tpie::packed_array<T, B>; \
typedef tpie::packed_array<T, B> P##B; \
T vp_get##B(const P##B & a, size_t i) { return a[i]; } \
T vp_getp##B(P##B & a, size_t i) { return a[i]; } \
void vp_set##B(P##B & a, size_t i, T v) { a[i] = v; } \
void vp_setr##B(P##B & a, size_t i, size_t j) { a[i] = a[j]; } \
T vp_iget##B(P##B & a, size_t i) { return *(a.begin() + i); } \
T vp_cget##B(const P##B & a, size_t i) { return *(a.begin() + i); } \
T vp_fget##B(const P##B & a, size_t i) { return *a.find(i); } \
void vp_iset##B(P##B & a, size_t i, T v) { *(a.begin() + i) = v; } \
void vp_isetr##B(P##B & a, size_t i, size_t j) { P##B::iterator x = a.begin() + i; *x = *(a.begin() + j); } \
T vp_idx##B(P##B & a, size_t i) { return a.begin()[i]; } \
T vp_rget##B(P##B & a, size_t i) { return *(a.rbegin() + i); } \
T vp_crget##B(const P##B & a, size_t i) { return *(a.rbegin() + i); } \
void vp_rset##B(P##B & a, size_t i, T v) { *(a.rbegin() + i) = v; } \
T vp_end##B(P##B & a, size_t i) { return *(a.end() - i); } \
T vp_rend##B(P##B & a, size_t i) { return *(a.rend() - i); } \
T vp_sub##B(P##B & a, size_t i, size_t k) { P##B::iterator x = a.find(i); x -= k; return *x; } \
T vp_add##B(P##B & a, size_t i, size_t k) { P##B::iterator x = a.find(i); x += k; return *x; } \
T vp_inc##B(P##B & a, size_t i) { P##B::iterator x = a.find(i); ++x; return *x; } \
T vp_dec##B(P##B & a, size_t i) { P##B::iterator x = a.find(i); --x; return *x; } \
T vp_rinc##B(P##B & a, size_t i) { P##B::reverse_iterator x = a.rbegin() + i; ++x; return *x; } \
T vp_rdec##B(P##B & a, size_t i) { P##B::reverse_iterator x = a.rbegin() + i; --x; return *x; } \
ptrdiff_t vp_dist##B(P##B & a, size_t i, size_t j) { return a.find(j) - a.find(i); } \
ptrdiff_t vp_rdist##B(P##B & a, size_t i, size_t j) { return (a.rbegin() + j) - (a.rbegin() + i); } \
ptrdiff_t vp_span##B(P##B & a) { return a.end() - a.begin(); } \
ptrdiff_t vp_rspan##B(P##B & a) { return a.rend() - a.rbegin(); } \
bool vp_lt##B(P##B & a, size_t i, size_t j) { return a.find(i) < a.find(j); } \
bool vp_le##B(P##B & a, size_t i, size_t j) { return a.find(i) <= a.find(j); } \
bool vp_gt##B(P##B & a, size_t i, size_t j) { return a.find(i) > a.find(j); } \
bool vp_ge##B(P##B & a, size_t i, size_t j) { return a.find(i) >= a.find(j); } \
bool vp_eq##B(P##B & a, size_t i, size_t j) { return a.find(i) == a.find(j); } \
bool vp_ne##B(P##B & a, size_t i, size_t j) { return a.find(i) != a.find(j); } \
bool vp_rlt##B(P##B & a, size_t i, size_t j) { return (a.rbegin() + i) < (a.rbegin() + j); }
W(1, bool)
W(2, unsigned)
W(4, unsigned)
W(8, unsigned)
W(16, unsigned)
W(32, unsigned)
W(64, unsigned long)
