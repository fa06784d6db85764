// The merge heaps and the merge loop of /repo, for opaque elements; the loop for an external heap.
#include <ostream>
#include <tpie/pq_merge_heap.h>
#include <tpie/mergeheap.h>
#include <tpie/merge_sorted_runs.h>
struct elem { unsigned long v; };
std::ostream & operator<<(std::ostream &, const elem &);
extern bool vp_less(const elem &, const elem &);
struct Cmp { bool operator()(const elem & a, const elem & b) const { return vp_less(a, b); } };
template class tpie::pq_merge_heap<elem, Cmp>;
typedef tpie::ami::merge_heap_op<elem, Cmp> M;
typedef tpie::ami::merge_heap_ptr_op<elem, Cmp> MP;
size_t vp_m_size(M & m) { return m.sizeofheap(); }
size_t vp_m_run(M & m) { return m.get_min_run_id(); }
void vp_m_alloc(M & m, size_t n) { m.allocate(n); }
void vp_m_insert(M & m, const elem * e, size_t r) { m.insert(e, r); }
void vp_m_dealloc(M & m) { m.deallocate(); }
void vp_m_init(M & m) { m.initialize(); }
void vp_m_dmi(M & m, const elem * e) { m.delete_min_and_insert(e); }
void vp_m_extract(M & m, elem & e, size_t & r) { m.extract_min(e, r); }
size_t vp_mp_size(MP & m) { return m.sizeofheap(); }
size_t vp_mp_run(MP & m) { return m.get_min_run_id(); }
void vp_mp_alloc(MP & m, size_t n) { m.allocate(n); }
void vp_mp_insert(MP & m, const elem * e, size_t r) { m.insert(e, r); }
void vp_mp_dealloc(MP & m) { m.deallocate(); }
void vp_mp_init(MP & m) { m.initialize(); }
void vp_mp_dmi(MP & m, const elem * e) { m.delete_min_and_insert(e); }
struct hp { void insert(const elem *, size_t); void initialize(); size_t sizeofheap(); size_t get_min_run_id(); void delete_min_and_insert(const elem *); };
typedef tpie::array<tpie::unique_ptr<tpie::file_stream<elem> > > SA;
void vp_merge(SA::iterator a, SA::iterator b, tpie::file_stream<elem> * o, hp * h, TPIE_OS_OFFSET cutoff, tpie::progress_indicator_base * p) { tpie::ami::merge_sorted_runs<elem, hp>(a, b, o, h, cutoff, p); }
