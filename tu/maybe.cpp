// An optional value around an object whose construction and destruction are observable.
#include <tpie/maybe.h>
#include <new>
#include <utility>
struct mob {
	unsigned long v;
	mob(unsigned long a);            // contract: makes a live object holding a, or throws
	mob(unsigned long a, unsigned long b); // contract: makes a live object holding a value of a and b, or throws
	mob(const mob &) = delete;
	~mob();                          // contract: ends exactly one live object
};
typedef tpie::maybe<mob> M;
void vp_mnew(void * p) { new (p) M(); }
void vp_mcopy(void * p, const M & o) { new (p) M(o); }
void vp_mmove(void * p, M & o) { new (p) M(std::move(o)); }
void vp_massign(M & m, const M & o) { m = o; }
bool vp_mis(const M & m) { return m.is_constructed(); }
void vp_mcon1(M & m, unsigned long a) { m.construct(a); }
void vp_mcon2(M & m, unsigned long a, unsigned long b) { m.construct(a, b); }
void vp_mdestruct(M & m) { m.destruct(); }
void vp_mdrop(M & m) { m.~M(); }
mob & vp_mderef(M & m) { return *m; }
const mob & vp_mcderef(const M & m) { return *m; }
unsigned long vp_marrow(M & m) { return m->v; }
unsigned long vp_mcarrow(const M & m) { return m->v; }
