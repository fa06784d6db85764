// Merge heaps and merging of sorted runs against a multiset.
#include "h.h"
#include <algorithm>
#include <map>
#include <tpie/tpie.h>
#include <tpie/pq_merge_heap.h>
#include <tpie/mergeheap.h>
#include <tpie/merge_sorted_runs.h>
#include <tpie/pipelining/merger.h>
struct T { int key; unsigned id; bool operator<(const T & o) const { return key < o.key; } bool operator==(const T & o) const { return key == o.key && id == o.id; } };
std::ostream & operator<<(std::ostream & o, const T & t) { return o << t.key; }
struct Gt { bool operator()(const T & a, const T & b) const { return a.key > b.key; } };
struct Lt { bool operator()(const T & a, const T & b) const { return a.key < b.key; } };
template <class C> struct Model {
	std::vector<std::pair<T, size_t> > v; C cmp;
	void put(T t, size_t r) { v.push_back({t, r}); }
	void take(Case & c, T t, size_t r, const char * w) {
		for (auto & x : v) CHECK(c, !cmp(x.first, t), std::string(w) + "-minimal", t.key, x.first.key);
		for (size_t i = 0; i < v.size(); ++i) if (v[i].first == t && v[i].second == r) { v[i] = v.back(); v.pop_back(); return; }
		c.fail(std::string(w) + "-together", "top", t.key, t.id, "run", r, "was never inserted together, or is already removed");
	}
	void peek(Case & c, T t, size_t r, const char * w) { Model m = *this; m.take(c, t, r, w); }
};
static T mk(Case & c, int range) { static unsigned id = 0; return T{(int)c(range) - range / 2, ++id}; }
template <class C> static void pq1(Case & c) {
	size_t cap = 1 + c(c.size);
	tpie::pq_merge_heap<T, C> h(cap); Model<C> m; int range = c.p(1, 3) ? 3 : 1000;
	c.op("capacity", cap);
	for (size_t n = c(4 * cap + 8); n--; ) {
		CHECK(c, h.size() == m.v.size(), "pqmerge-size", h.size(), m.v.size());
		CHECK(c, h.empty() == m.v.empty(), "pqmerge-empty");
		if (!m.v.empty()) m.peek(c, h.top(), h.top_run(), "pqmerge");
		switch (c(5)) {
			case 0: case 1: if (m.v.size() < cap) { T t = mk(c, range); size_t r = c(c.p(1, 2) ? 4 : ~0ull); c.op("push", t.key, r); h.push(t, r); m.put(t, r); } break;
			case 2: if (m.v.size() > 0) { c.op("pop"); m.take(c, h.top(), h.top_run(), "pqmerge"); h.pop(); } break;
			default: if (m.v.size() > 0) { T t = mk(c, range); size_t r = c(5); c.op("replace", t.key, r); m.take(c, h.top(), h.top_run(), "pqmerge"); h.pop_and_push(t, r); m.put(t, r); c.nontrivial = true; }
		}
	}
	while (!m.v.empty()) { m.take(c, h.top(), h.top_run(), "pqmerge-drain"); h.pop(); CHECK(c, h.size() == m.v.size(), "pqmerge-size"); }
	CHECK(c, h.empty(), "pqmerge-drained");
}
static void pqmerge(Case & c) { if (c(2)) pq1<Lt>(c); else pq1<Gt>(c); }
template <class C> static void mh1(Case & c) {
	size_t cap = 1 + c(c.size), n = c(cap + 1); int range = c.p(1, 3) ? 3 : 1000;
	bool again = false;
	tpie::ami::merge_heap_op<T, C> h;
	do {
		Model<C> m;
		h.allocate(cap);
		c.op("allocate", cap, "insert", n);
		for (size_t i = 0; i < n; ++i) { T t = mk(c, range); size_t r = i * 5 + 1; h.insert(&t, r); m.put(t, r); }
		h.initialize();
		for (size_t k = c(4 * cap + 5); k--; ) {
			CHECK(c, h.sizeofheap() == m.v.size(), "mergeheap-size", h.sizeofheap(), m.v.size());
			if (m.v.empty()) break;
			size_t r = h.get_min_run_id();
			if (c.p(1, 4)) { T t; size_t q; h.extract_min(t, q); c.op("extract"); CHECK(c, q == r, "mergeheap-run"); m.take(c, t, q, "mergeheap"); continue; }
			// which element of that run is on top is seen by extracting, so identify it as a minimal one of the run
			size_t b = m.v.size();
			for (size_t i = 0; i < m.v.size(); ++i) if (m.v[i].second == r && (b == m.v.size() || m.cmp(m.v[i].first, m.v[b].first))) b = i;
			CHECK(c, b < m.v.size(), "mergeheap-run", r);
			m.take(c, m.v[b].first, r, "mergeheap");
			if (c(2)) { c.op("delete_min"); h.delete_min_and_insert(nullptr); } else { T t = mk(c, range); c.op("replace", t.key); h.delete_min_and_insert(&t); m.put(t, r); c.nontrivial = true; }
		}
		// ties may have been told apart differently: compare the keys and runs only
		std::vector<std::pair<int, size_t> > a, b; for (auto & x : m.v) a.push_back({x.first.key, x.second});
		while (h.sizeofheap()) { T t; size_t q; h.extract_min(t, q); b.push_back({t.key, q}); }
		for (size_t i = 1; i < b.size(); ++i) CHECK(c, !C()(T{b[i].first, 0}, T{b[i - 1].first, 0}), "mergeheap-order", i);
		std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		CHECK(c, a == b, "mergeheap-contents", a.size(), b.size());
		h.deallocate();
		again = !again && c.p(1, 3);
		cap = 1 + c(c.size); n = c(cap + 1);
	} while (again);
}
template <class C> static void mhp(Case & c) {
	size_t cap = 1 + c(c.size), n = c(cap + 1); int range = c.p(1, 3) ? 3 : 1000;
	std::vector<T> store(5 * cap + 20); size_t used = 0;
	tpie::ami::merge_heap_ptr_op<T, C> h; Model<C> m;
	h.allocate(cap); c.op("ptr allocate", cap, "insert", n);
	// every run holds one element, so the run tells which element it is
	std::map<size_t, T> at;
	for (size_t i = 0; i < n; ++i) { store[used] = mk(c, range); size_t r = i * 7 + 3; h.insert(&store[used], r); m.put(store[used], r); at[r] = store[used++]; }
	h.initialize();
	for (size_t k = c(4 * cap + 5); k--; ) {
		CHECK(c, h.sizeofheap() == m.v.size(), "ptrheap-size", h.sizeofheap(), m.v.size());
		if (m.v.empty()) break;
		size_t r = h.get_min_run_id();
		CHECK(c, at.count(r), "ptrheap-run", r);
		m.take(c, at[r], r, "ptrheap"); at.erase(r);
		if (c(2)) { c.op("delete_min"); h.delete_min_and_insert(nullptr); } else { store[used] = mk(c, range); c.op("replace"); h.delete_min_and_insert(&store[used]); m.put(store[used], r); at[r] = store[used++]; c.nontrivial = true; }
	}
	h.deallocate();
}
static void mergeheap(Case & c) { switch (c(4)) { case 0: mh1<Lt>(c); break; case 1: mh1<Gt>(c); break; case 2: mhp<Lt>(c); break; default: mhp<Gt>(c); } }
struct nosteps : tpie::progress_indicator_base { nosteps() : tpie::progress_indicator_base(1000) {} void refresh() override {} };
template <class C> static void fill(Case & c, std::vector<std::vector<T> > & runs, size_t k, bool empties) {
	int range = c.p(1, 3) ? 3 : 1000;
	for (size_t i = 0; i < k; ++i) { std::vector<T> r(c.p(1, 5) ? !empties : c.p(1, 20) ? c(3000) + 1 : 1 + c(c.size)); if (!empties && r.empty()) r.resize(1); for (auto & t : r) t = mk(c, range); std::stable_sort(r.begin(), r.end(), C()); runs.push_back(r); }
}
static bool byid(const T & a, const T & b) { return a.id < b.id; }
template <class C> static void judge(Case & c, std::vector<T> got, const std::vector<std::vector<T> > & runs, size_t limit, const char * w) {
	for (size_t i = 1; i < got.size(); ++i) CHECK(c, !C()(got[i], got[i - 1]), std::string(w) + "-sorted", i, got[i - 1].key, got[i].key);
	std::vector<T> want; for (auto & r : runs) want.insert(want.end(), r.begin(), r.begin() + std::min(limit, r.size()));
	CHECK(c, got.size() == want.size(), std::string(w) + "-count", got.size(), want.size());
	std::sort(got.begin(), got.end(), byid); std::sort(want.begin(), want.end(), byid);
	for (size_t i = 0; i < got.size(); ++i) CHECK(c, got[i] == want[i], std::string(w) + "-item", i);
}
template <class C, class H> static void runs1(Case & c) {
	size_t k = c.p(1, 8) ? c(2) : 1 + c(8);
	std::vector<std::vector<T> > runs; fill<C>(c, runs, k, true);
	std::string s; for (auto & r : runs) s += std::to_string(r.size()) + " ";
	TPIE_OS_OFFSET cutoff = c.p(1, 2) ? -1 : 1 + (TPIE_OS_OFFSET)c(20);
	c.op("runs", s, "cutoff", cutoff); c.nontrivial = k > 1;
	tpie::array<tpie::unique_ptr<tpie::file_stream<T> > > in(k);
	for (size_t i = 0; i < k; ++i) { in[i].reset(tpie::tpie_new<tpie::file_stream<T> >()); in[i]->open(static_cast<tpie::memory_size_type>(0), tpie::access_sequential, c(2) ? tpie::compression_none : tpie::compression_normal); for (auto & t : runs[i]) in[i]->write(t); in[i]->seek(0); }
	tpie::file_stream<T> out; out.open();
	H h; h.allocate(k);
	nosteps p; p.init(1000);
	tpie::ami::merge_sorted_runs<T, H>(in.begin(), in.end(), &out, &h, cutoff, c(2) ? &p : nullptr);
	out.seek(0);
	std::vector<T> got; while (out.can_read()) got.push_back(out.read());
	judge<C>(c, got, runs, cutoff < 0 ? ~(size_t)0 : (size_t)cutoff, "runs");
	for (size_t i = 0; i < k; ++i) CHECK(c, in[i]->offset() == std::min<size_t>(runs[i].size(), cutoff < 0 ? ~0ull : (size_t)cutoff), "runs-consumed", i, in[i]->offset());
}
static void runs(Case & c) { switch (c(4)) { case 0: runs1<Lt, tpie::ami::merge_heap_op<T, Lt> >(c); break; case 1: runs1<Gt, tpie::ami::merge_heap_op<T, Gt> >(c); break; case 2: runs1<Lt, tpie::ami::merge_heap_op<T> >(c); break; default: runs1<Lt, tpie::ami::merge_heap_ptr_op<T, Lt> >(c); } }
template <class C> static void merger1(Case & c) {
	typedef tpie::default_store::specific<T> st; 
	tpie::merger<st, C> m{C(), st()};
	for (int round = 0; round < 2; ++round) {
		size_t k = 1 + c(7);
		std::vector<std::vector<T> > runs; fill<C>(c, runs, k, false);
		size_t limit = c(2) ? 1000000 : 1 + c(20);
		c.op("merger", k, "runs of at most", limit); c.nontrivial = k > 1;
		tpie::array<tpie::file_stream<T> > in(k);
		for (size_t i = 0; i < k; ++i) { in[i].open(); for (auto & t : runs[i]) in[i].write(t); in[i].seek(0); }
		m.reset(in, limit);
		std::vector<T> got; while (m.can_pull()) got.push_back(m.pull());
		judge<C>(c, got, runs, limit, "merger");
	}
}
static void merger(Case & c) { if (c(2)) merger1<Lt>(c); else merger1<Gt>(c); }
int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"pqmerge", pqmerge}, {"mergeheap", mergeheap}, {"runs", runs, 2}, {"merger", merger}},
		[] { tpie::tpie_init(tpie::ALL & ~tpie::JOB_MANAGER); tpie::get_memory_manager().set_limit(4ull << 30); }, [] { tpie::tpie_finish(tpie::ALL & ~tpie::JOB_MANAGER); }, 20);
}
