// External priority queue for opaque elements; the insertion buffer by contract.
#include <ostream>
#include <tpie/priority_queue.h>
struct elem { unsigned long v; };
std::ostream & operator<<(std::ostream &, const elem &);
extern bool vp_less(const elem &, const elem &);
struct Cmp { bool operator()(const elem & a, const elem & b) const { return vp_less(a, b); } };
// declared only: its functions are the contract of pq_overflow_heap
struct OQ {
	static const double sorted_factor;
	OQ(size_t); ~OQ();
	void push(const elem &); void pop(); const elem & top(); tpie::stream_size_type size() const; bool empty() const; bool full() const;
	elem * sorted_array(); size_t sorted_size() const; void sorted_pop();
};
typedef tpie::priority_queue<elem, Cmp, OQ> PQ;
template class tpie::priority_queue<elem, Cmp, OQ>;
void vp_pq_push(PQ & q, const elem & e) { q.push(e); }
void vp_pq_pop(PQ & q) { q.pop(); }
const elem & vp_pq_top(PQ & q) { return q.top(); }
tpie::stream_size_type vp_pq_size(PQ & q) { return q.size(); }
bool vp_pq_empty(PQ & q) { return q.empty(); }
struct sink { void operator()(const elem &); };
void vp_pq_equals(PQ & q, sink & s) { s = q.pop_equals(s); }
typedef tpie::pq_overflow_heap<elem, Cmp> OH;
void vp_oh_push(OH & q, const elem & e) { q.push(e); }
void vp_oh_pop(OH & q) { q.pop(); }
const elem & vp_oh_top(OH & q) { return q.top(); }
tpie::stream_size_type vp_oh_size(OH & q) { return q.size(); }
bool vp_oh_empty(OH & q) { return q.empty(); }
bool vp_oh_full(OH & q) { return q.full(); }
elem * vp_oh_sorted(OH & q) { return q.sorted_array(); }
size_t vp_oh_ssize(OH & q) { return q.sorted_size(); }
void vp_oh_spop(OH & q) { q.sorted_pop(); }
