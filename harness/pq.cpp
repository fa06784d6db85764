// Bounded differential driver for the external priority queue and its overflow heap.
#include "h.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <tpie/tpie.h>
#include <tpie/priority_queue.h>
#include <tpie/pq_overflow_heap.h>
using namespace tpie;

struct item { uint64_t key, id; char pad[8]; };
struct bykey { bool operator()(const item & a, const item & b) const { return a.key < b.key; } };
struct bykeyd { bool operator()(const item & a, const item & b) const { return a.key > b.key; } };
static item mk(uint64_t k, uint64_t i) { item x; memset(&x, 0, sizeof x); x.key = k; x.id = i; return x; }
static uint64_t draw(Case & c, int mode, uint64_t n) {
	switch (mode) { case 0: return c(1 << 20); case 1: return c(7); case 2: return n; case 3: return ~n; default: return n / 50 * 50 + c(100); }
}

template <class T, class C, class Q, class MK, class KEY> static void history(Case & c, Q & q, size_t n, MK make, KEY key, C comp, size_t cap = ~size_t(0)) {
	typedef std::pair<uint64_t, uint64_t> kid;
	std::map<uint64_t, std::multiset<uint64_t>> m; uint64_t id = 0; size_t sz = 0;
	bool grow = true; int mode = c(5); const bool desc = comp(make(2, 0), make(1, 0));
	auto best = [&]() { return desc ? m.rbegin()->first : m.begin()->first; };
	auto chk = [&](const T & t, const char * s) {
		kid k = key(t); CHECK(c, !m.empty(), "pq-extra", s);
		CHECK(c, k.first == best(), "pq-min", s, "got", k.first, "least is", best());
		auto i = m.find(k.first); CHECK(c, i != m.end() && i->second.count(k.second), "pq-element", s, "an element that was not pushed, or came out twice", k.first, k.second);
		return k;
	};
	auto rm = [&](kid k) { auto i = m.find(k.first); i->second.erase(i->second.find(k.second)); if (i->second.empty()) m.erase(i); --sz; };
	for (size_t done = 0; done < n;) {
		if (c.p(1, 8)) mode = c(5);
		if (c.p(1, 6)) grow = !grow;
		size_t b = 1 + c(c.p(1, 3) ? 3 : c.p(1, 2) ? 200 : 3000); done += b;
		if (c.p(grow ? 5 : 2, 7)) {
			c.op("push", b, "keys", mode);
			while (b-- && sz < cap) { uint64_t k = draw(c, mode, id); T t = make(k, id); kid e = key(t); q.push(t); m[e.first].insert(e.second); ++id; ++sz; }
		} else {
			c.op("pop", b);
			while (b-- && sz) {
				if (c.p(1, 4)) { T t = q.top(); chk(t, "top"); }
				T t = q.top(); kid k = chk(t, "top"); q.pop(); rm(k);
				CHECK(c, q.size() == sz, "pq-size", q.size(), sz);
				if (sz && c.p(1, 30)) { uint64_t z = draw(c, 0, 0); T u = make(z, id); kid e = key(u); if (q.size() < cap) { q.push(u); m[e.first].insert(e.second); ++id; ++sz; } }
			}
		}
		CHECK(c, q.size() == sz && q.empty() == (sz == 0), "pq-size", q.size(), sz);
		if (sz > 3000) c.nontrivial = true;
	}
	if (c.p(2, 3)) { c.op("drain", sz); while (sz) { T t = q.top(); kid k = chk(t, "drain"); q.pop(); rm(k); CHECK(c, q.size() == sz, "pq-size", q.size(), sz); } }
}
struct ident { item operator()(uint64_t k, uint64_t i) const { return mk(k, i); } };
struct ikey { std::pair<uint64_t, uint64_t> operator()(const item & x) const { return {x.key, x.id}; } };
struct word { uint64_t operator()(uint64_t k, uint64_t) const { return k; } };
struct wkey { std::pair<uint64_t, uint64_t> operator()(uint64_t x) const { return {x, 0}; } };

// with k slots per group the queue has room for a bounded number of elements only
static void full(Case & c, std::exception & e, size_t n) { CHECK(c, strstr(e.what(), "full") && n > 100, "pq-exception", e.what(), "with", n, "elements"); }

template <class T, class C, class MK, class KEY> static void pq_t(Case & c) {
	size_t mem = 26 * 1024 + c(c.p(1, 2) ? 20 * 1024 : 150 * 1024);
	typedef priority_queue<T, C> Q;
	std::unique_ptr<Q> q;
	size_t n = 1000 + c(c.size * 4000); bool internal = c.p(1, 12);
	c.op("memory", mem, "item size", sizeof(T), internal ? "internal" : "external");
	try { if (internal) q.reset(new Q(size_t(1 << 22), 0.5f, stream_size_type(5000))); else q.reset(new Q(mem, c.p(1, 2) ? 1.0f : 0.25f)); } catch (std::exception & e) { return; }
	try { history<T, C>(c, *q, n, MK(), KEY(), C(), internal ? 5000 : ~size_t(0)); }
	catch (tpie::exception & e) { full(c, e, q->size()); }
}
static void pq_s(Case & c) {
	switch (c(4)) {
	case 0: pq_t<item, bykey, ident, ikey>(c); break;
	case 1: pq_t<item, bykeyd, ident, ikey>(c); break;
	case 2: pq_t<uint64_t, std::less<uint64_t>, word, wkey>(c); break;
	case 3: pq_t<uint64_t, std::greater<uint64_t>, word, wkey>(c); break;
	}
}
// pop_equals: every element equivalent to the top, once each
static void equals_s(Case & c) {
	size_t mem = 26 * 1024 + c(40 * 1024);
	typedef priority_queue<item, bykey> Q; std::unique_ptr<Q> q;
	c.op("memory", mem);
	try { q.reset(new Q(mem, 1.0f)); } catch (std::exception &) { return; }
	std::map<uint64_t, std::set<uint64_t>> m; uint64_t id = 0; size_t sz = 0; uint64_t keys = 1 + c(60);
	for (int r = 0; r < 6; ++r) {
		size_t b = c(2000 + 200 * c.size); c.op("push", b); try { while (b--) { uint64_t k = c(keys); q->push(mk(k, id)); m[k].insert(id++); ++sz; } } catch (tpie::exception & e) { full(c, e, sz); return; }
		size_t p = c(keys); c.op("pop_equals", p);
		while (p-- && !m.empty()) {
			std::vector<item> out; struct F { std::vector<item> * o; void operator()(const item & x) { o->push_back(x); } } f = {&out};
			q->pop_equals(f);
			auto i = m.begin(); std::set<uint64_t> got; for (item & x : out) { CHECK(c, x.key == i->first, "pop-equals-key", x.key, i->first); got.insert(x.id); }
			CHECK(c, out.size() == got.size() && got == i->second, "pop-equals", "key", i->first, "gave", out.size(), "of", i->second.size());
			sz -= out.size(); m.erase(i);
			CHECK(c, q->size() == sz, "pq-size", q->size(), sz);
			c.nontrivial = true;
		}
	}
}
// the insertion buffer
static void overflow_s(Case & c) {
	size_t cap = 1 + c(60); c.op("capacity", cap);
	pq_overflow_heap<item, bykey> h(cap); std::map<uint64_t, std::set<uint64_t>> m; size_t sz = 0; uint64_t id = 0;
	size_t n = 50 + c(c.size * 30); bool grow = true;
	for (size_t k = 0; k < n; ++k) {
		if (c.p(1, 12)) grow = !grow;
		CHECK(c, h.size() == sz && h.full() == (sz == cap), "overflow-size", h.size(), sz);
		if (sz < cap && c.p(grow ? 3 : 1, 4)) { uint64_t x = c(20); c.op("push", x); h.push(mk(x, id)); m[x].insert(id++); ++sz; }
		else if (sz == cap && c.p(1, 3)) {
			c.op("sorted"); item * a = h.sorted_array(); CHECK(c, h.sorted_size() == sz, "overflow-sorted-size");
			std::map<uint64_t, std::set<uint64_t>> g; for (size_t i = 0; i < sz; ++i) { if (i) CHECK(c, a[i - 1].key <= a[i].key, "overflow-sorted", i); g[a[i].key].insert(a[i].id); }
			CHECK(c, g == m, "overflow-contents"); h.sorted_pop(); m.clear(); sz = 0; c.nontrivial = true;
		} else if (sz) {
			item t = h.top(); CHECK(c, t.key == m.begin()->first && m.begin()->second.count(t.id), "overflow-top", t.key, m.begin()->first);
			if (c.p(3, 4)) { c.op("pop"); h.pop(); auto i = m.begin(); i->second.erase(t.id); if (i->second.empty()) m.erase(i); --sz; }
		}
	}
}

int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"pq", pq_s, 3}, {"equals", equals_s}, {"overflow", overflow_s}},
	              [] { set_block_size(640); tpie_init(ALL & ~JOB_MANAGER & ~DEFAULT_LOGGING); get_memory_manager().set_limit(1 << 30); });
}
