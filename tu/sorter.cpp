// The merge sorter of /repo for opaque elements, with the source file of its non-template part.
#include "../../repo/tpie/pipelining/merge_sorter.cpp"
extern bool vp_less(unsigned long, unsigned long);
struct Cmp { bool operator()(const unsigned long & a, const unsigned long & b) const { return vp_less(a, b); } };
template class tpie::merge_sorter<unsigned long, false, Cmp>;
