// External stack and queue over the compressed stream (contracts of C25).
#include <tpie/stack.h>
#include <tpie/queue.h>
struct elem { unsigned long v; };
typedef tpie::stack<elem> K;
typedef tpie::queue<elem> Q;
void vp_kpush(K & s, const elem & x) { s.push(x); }
void vp_kpop(K & s, elem & o) { o = s.pop(); }
void vp_ktop(K & s, elem & o) { o = s.top(); }
tpie::stream_size_type vp_ksize(const K & s) { return s.size(); }
bool vp_kempty(const K & s) { return s.empty(); }
void vp_kdrop(K & s) { s.~K(); }
tpie::ami::err vp_kapush(tpie::ami::stack<elem> & s, const elem & x) { return s.push(x); }
tpie::ami::err vp_kapop(tpie::ami::stack<elem> & s, const elem ** x) { return s.pop(x); }
tpie::ami::err vp_kapeek(tpie::ami::stack<elem> & s, const elem ** x) { return s.peek(x); }
void vp_qpush(Q & s, const elem & x) { s.push(x); }
void vp_qpop(Q & s, elem & o) { o = s.pop(); }
void vp_qfront(Q & s, elem & o) { o = s.front(); }
tpie::stream_size_type vp_qsize(Q & s) { return s.size(); }
bool vp_qempty(Q & s) { return s.empty(); }
#include <new>
void vp_knew(void * p, tpie::temp_file & t, double b) { new (p) K(t, b); }
void vp_knewp(void * p, const std::string & n, double b) { new (p) K(n, b); }
void vp_knew0(void * p, double b) { new (p) K(b); }
void vp_qnew(void * p) { new (p) Q(); }
