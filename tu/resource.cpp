// The resource manager and the allocation functions; the vp_ functions are
// clients whose calls into /repo's templates are inlined.
#include "tpie/resource_manager.cpp"
#include <tpie/memory.h>
#include <tpie/file_manager.h>
#include <tpie/array.h>
struct elem { unsigned long v; bool operator==(const elem & o) const { return v == o.v; } bool operator!=(const elem & o) const { return v != o.v; } };
struct vp_T { unsigned long v, w; vp_T(unsigned long x); vp_T(); ~vp_T(); };      // construction may throw
struct vp_P { unsigned long v; vp_P(unsigned long x); virtual ~vp_P(); };
template class tpie::array<elem>;
template class tpie::allocator<elem>;
size_t vp_limit(tpie::resource_manager & r) { return r.limit(); }
void vp_bucket(tpie::memory_bucket * b) { b->count = 0; }
elem * vp_new() { return tpie::tpie_new<elem>(); }
vp_T * vp_newT(unsigned long x) { return tpie::tpie_new<vp_T>(x); }
vp_P * vp_newP(unsigned long x) { return tpie::tpie_new<vp_P>(x); }
void vp_del(elem * p) { tpie::tpie_delete(p); }
void vp_delT(vp_T * p) { tpie::tpie_delete(p); }
void vp_delP(vp_P * p) { tpie::tpie_delete(p); }
elem * vp_newA(size_t n) { return tpie::tpie_new_array<elem>(n); }
void vp_delA(elem * p, size_t n) { tpie::tpie_delete_array(p, n); }
elem * vp_alloc(tpie::allocator<elem> & a, size_t n) { return a.allocate(n); }
void vp_dealloc(tpie::allocator<elem> & a, elem * p, size_t n) { a.deallocate(p, n); }
void vp_unique(unsigned long x) { tpie::unique_ptr<vp_T> p(tpie::make_unique<vp_T>(x)); }
void vp_unique_reset(tpie::unique_ptr<elem> & p) { p.reset(); }
void vp_incfile(tpie::file_manager & f) { f.increment_open_file_count(); }
void vp_decfile(tpie::file_manager & f) { f.decrement_open_file_count(); }
void vp_reg(tpie::memory_manager & m, size_t n) { m.register_allocation(n, typeid(elem)); }
void vp_dereg(tpie::memory_manager & m, size_t n) { m.register_deallocation(n, typeid(elem)); }
