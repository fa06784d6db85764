// Instantiates the in-memory containers of /repo for an opaque 64-bit element
// and an external comparator; no code of its own is verified.
#include <tpie/internal_queue.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/disjoint_sets.h>
struct elem { unsigned long v; };
extern bool vp_less(const elem&, const elem&);
struct Cmp { bool operator()(const elem&a,const elem&b) const { return vp_less(a,b);} };
template class tpie::internal_queue<elem>;
template class tpie::internal_stack<elem>;
template class tpie::internal_stack_vector_base<elem, tpie::internal_stack<elem> >;
template class tpie::internal_stack_vector_base<elem, tpie::internal_vector<elem> >;
template class tpie::internal_vector<elem>;
template class tpie::internal_priority_queue<elem,Cmp>;
template class tpie::disjoint_sets<unsigned long>;
template void tpie::internal_priority_queue<elem,Cmp>::insert<const elem *>(const elem * const &, const elem * const &);
