// Instantiates tpie::array and tpie::array_view_base for an opaque 64-bit
// element; the vp_ functions are clients whose calls into the iterators are
// inlined from /repo.
#include <tpie/array.h>
#include <tpie/array_view.h>
struct elem { unsigned long v; };
inline bool operator!=(const elem & a, const elem & b) { return a.v != b.v; }
template class tpie::array<elem>;
template class tpie::array_view_base<elem>;
typedef tpie::array<elem> A;
typedef tpie::array_view_base<elem> V;
elem * vp_fwd(A & a, size_t k) { return &*(a.begin() + k); }
elem * vp_fwd_idx(A & a, size_t k) { return &a.begin()[k]; }
elem * vp_fwd_back(A & a, size_t k) { return &*(a.end() - k); }
elem * vp_fwd_inc(A & a, size_t k) { A::iterator i = a.find(k); ++i; return &*i; }
elem * vp_fwd_dec(A & a, size_t k) { A::iterator i = a.find(k); --i; return &*i; }
elem * vp_rev(A & a, size_t k) { return &*(a.rbegin() + k); }
elem * vp_rev_idx(A & a, size_t k) { return &a.rbegin()[k]; }
elem * vp_rev_inc(A & a, size_t k) { A::reverse_iterator i = a.rbegin() + k; ++i; return &*i; }
elem * vp_rev_dec(A & a, size_t k) { A::reverse_iterator i = a.rend() - k; --i; return &*i; }
const elem * vp_cfwd(const A & a, size_t k) { return &*(a.begin() + k); }
const elem * vp_crev(const A & a, size_t k) { return &*(a.rbegin() + k); }
ptrdiff_t vp_dist(A & a, size_t i, size_t j) { return a.find(j) - a.find(i); }
ptrdiff_t vp_rdist(A & a, size_t i, size_t j) { return (a.rbegin() + j) - (a.rbegin() + i); }
ptrdiff_t vp_span(A & a) { return a.end() - a.begin(); }
ptrdiff_t vp_rspan(A & a) { return a.rend() - a.rbegin(); }
bool vp_lt(A & a, size_t i, size_t j) { return a.find(i) < a.find(j); }
bool vp_rlt(A & a, size_t i, size_t j) { return a.rbegin() + i < a.rbegin() + j; }
bool vp_eq(A & a, size_t i, size_t j) { return a.find(i) == a.find(j); }
elem * vp_vfwd(V & a, size_t k) { return &*(a.begin() + k); }
elem * vp_vback(V & a, size_t k) { return &*(a.end() - k); }
elem * vp_vinc(V & a, size_t k) { V::iterator i = a.find(k); ++i; return &*i; }
elem * vp_vdec(V & a, size_t k) { V::iterator i = a.find(k); --i; return &*i; }
ptrdiff_t vp_vdist(V & a, size_t i, size_t j) { return a.find(j) - a.find(i); }
ptrdiff_t vp_vspan(V & a) { return a.end() - a.begin(); }
void vp_swap(A & a, A & b) { std::swap(a, b); }
