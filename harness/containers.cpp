// Bounded differential driver for the in-memory containers.
#include "h.h"
#include <algorithm>
#include <deque>
#include <map>
#include <tpie/tpie.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/disjoint_sets.h>
#include <tpie/memory.h>
using namespace tpie;
typedef std::pair<int, int> kv;          // compared by first only: ties are distinguishable
struct bykey { bool operator()(const kv & a, const kv & b) const { return a.first < b.first; } };

static void queue(Case & c) {
	size_t cap = c(c.size) + 1;
	c.op("internal_queue", cap);
	internal_queue<uint64_t> q(cap);
	std::deque<uint64_t> m;
	size_t n = 10 + c(c.size * 6);
	for (size_t i = 0; i < n; ++i) {
		int w = c(20);
		if (w < 9) {
			if (m.size() < cap) { uint64_t v = c.u(); c.op("push", v % 1000); q.push(v); m.push_back(v); }
		} else if (w < 16) {
			if (!m.empty()) { c.op("pop"); q.pop(); m.pop_front(); c.nontrivial = true; }
		} else if (w == 16 && c.p(1, 8)) { c.op("clear"); q.clear(); m.clear(); }
		else if (w == 17 && c.p(1, 12)) { cap = c(c.size) + 1; c.op("resize", cap); q.resize(cap); m.clear(); }
		CHECK(c, q.size() == m.size(), "queue-size", q.size(), m.size());
		CHECK(c, q.empty() == m.empty(), "queue-empty");
		CHECK(c, q.full() == (m.size() == cap), "queue-full", m.size(), cap);
		if (!m.empty()) {
			CHECK(c, q.front() == m.front(), "queue-front");
			CHECK(c, q.back() == m.back(), "queue-back");
		}
	}
	while (!m.empty()) {
		CHECK(c, q.front() == m.front(), "queue-order");
		CHECK(c, !q.empty(), "queue-empty");
		q.pop(); m.pop_front();
	}
	CHECK(c, q.empty(), "queue-empty");
}

static void stack(Case & c) {
	size_t cap = c(c.size) + 1;
	c.op("internal_stack", cap);
	internal_stack<uint64_t> q(cap);
	std::vector<uint64_t> m;
	size_t n = 10 + c(c.size * 6);
	for (size_t i = 0; i < n; ++i) {
		int w = c(20);
		if (w < 10) {
			if (m.size() < cap) { uint64_t v = c.u(); c.op("push", v % 1000); q.push(v); m.push_back(v); }
		} else if (w < 16) {
			if (!m.empty()) { c.op("pop"); q.pop(); m.pop_back(); c.nontrivial = true; }
		} else if (w == 16 && c.p(1, 8)) { c.op("clear"); q.clear(); m.clear(); }
		else if (w == 17 && c.p(1, 12)) { cap = c(c.size) + 1; c.op("resize", cap); q.resize(cap); m.clear(); }
		CHECK(c, q.size() == m.size(), "stack-size", q.size(), m.size());
		CHECK(c, q.empty() == m.empty(), "stack-empty");
		if (!m.empty()) CHECK(c, q.top() == m.back(), "stack-top");
	}
	while (!m.empty()) { CHECK(c, q.top() == m.back(), "stack-order"); q.pop(); m.pop_back(); }
	CHECK(c, q.empty(), "stack-empty");
}

static void vector(Case & c) {
	size_t cap = c(c.size) + 1;
	c.op("internal_vector", cap);
	internal_vector<uint64_t> q(cap);
	std::vector<uint64_t> m;
	size_t n = 10 + c(c.size * 6);
	for (size_t i = 0; i < n; ++i) {
		int w = c(20);
		if (w < 10) {
			if (m.size() < cap) {
				uint64_t v = c.u();
				if (c.p(1, 4)) { c.op("push_back()=", v % 1000); q.push_back() = v; }
				else { c.op("push_back", v % 1000); uint64_t & r = q.push_back(v); CHECK(c, &r == &q.back(), "vector-ref"); }
				m.push_back(v);
			}
		} else if (w < 15) {
			if (!m.empty()) { c.op("pop_back"); q.pop_back(); m.pop_back(); c.nontrivial = true; }
		} else if (w == 16 && c.p(1, 8)) { c.op("clear"); q.clear(); m.clear(); }
		else if (w == 17 && c.p(1, 12)) { cap = c(c.size) + 1; c.op("resize", cap); q.resize(cap); m.clear(); }
		else if (!m.empty()) { size_t k = c(m.size()); uint64_t v = c.u(); c.op("set", k); q[k] = v; m[k] = v; }
		CHECK(c, q.size() == m.size(), "vector-size", q.size(), m.size());
		CHECK(c, q.empty() == m.empty(), "vector-empty");
		const internal_vector<uint64_t> & cq = q;
		if (!m.empty()) {
			CHECK(c, q.front() == m.front() && cq.front() == m.front(), "vector-front");
			CHECK(c, q.back() == m.back() && cq.back() == m.back(), "vector-back");
			size_t k = c(m.size());
			CHECK(c, q[k] == m[k] && cq[k] == m[k], "vector-index");
		}
		CHECK(c, size_t(q.end() - q.begin()) == m.size() && size_t(cq.end() - cq.begin()) == m.size(), "vector-range");
		CHECK(c, std::equal(m.begin(), m.end(), q.begin()), "vector-contents");
	}
}

static void ipq(Case & c) {
	size_t cap = c(c.size) + 1;
	c.op("internal_priority_queue", cap);
	internal_priority_queue<kv, bykey> q(cap);
	std::vector<kv> m;
	int range = 1 + c(c.p(1, 2) ? 6 : 1000);
	size_t n = 10 + c(c.size * 5);
	auto val = [&]() { return kv((int)c(range), (int)c.u()); };
	auto take = [&](const char * what) {
		kv t = q.top();
		auto it = std::find(m.begin(), m.end(), t);
		CHECK(c, it != m.end(), std::string("ipq-lost-") + what);
		for (auto & x : m) CHECK(c, !bykey()(x, t), std::string("ipq-min-") + what, t.first, x.first);
		return it;
	};
	for (size_t i = 0; i < n; ++i) {
		int w = c(20);
		if (w < 8 && m.size() < cap) { kv v = val(); c.op("push", v.first); q.push(v); m.push_back(v); }
		else if (w < 13 && !m.empty()) { c.op("pop"); auto it = take("pop"); m.erase(it); q.pop(); c.nontrivial = true; }
		else if (w < 17 && !m.empty()) { kv v = val(); c.op("pop_and_push", v.first); auto it = take("pop_and_push"); *it = v; q.pop_and_push(v); }
		else if (w == 17 && c.p(1, 4)) {
			size_t k = c(cap - m.size() + 1);
			std::vector<kv> xs;
			while (xs.size() < k) xs.push_back(val());
			if (c.p(1, 2)) { c.op("insert", k); q.insert(xs.begin(), xs.end()); }
			else { c.op("unsafe_push*", k, "make_safe"); for (auto & x : xs) q.unsafe_push(x); q.make_safe(); }
			m.insert(m.end(), xs.begin(), xs.end());
		} else if (w == 18 && c.p(1, 8)) { c.op("clear"); q.clear(); m.clear(); }
		else if (w == 19 && c.p(1, 8)) { cap = c(c.size) + 1; c.op("resize", cap); q.resize(cap); m.clear(); }
		CHECK(c, q.size() == m.size(), "ipq-size", q.size(), m.size());
		CHECK(c, q.empty() == m.empty(), "ipq-empty");
		if (!m.empty()) take("top");
	}
	while (!m.empty()) { auto it = take("drain"); m.erase(it); q.pop(); }
	CHECK(c, q.empty(), "ipq-empty");
}

static void dsets(Case & c) {
	size_t n = c(c.size) + 1;
	c.op("disjoint_sets", n);
	disjoint_sets<uint64_t> d(n);
	std::vector<int> g(n, -1);
	size_t cnt = 0;
	size_t steps = 10 + c(c.size * 6);
	for (size_t i = 0; i < steps; ++i) {
		size_t a = c(n), b = c(n);
		CHECK(c, d.is_set(a) == (g[a] >= 0), "dsets-is_set");
		if (c.p(1, 60)) {
			if (c.p(1, 2)) { c.op("clear"); d.clear(); }
			else { n = c(c.size) + 1; c.op("resize", n); d.resize(n); g.resize(n); }
			g.assign(n, -1); cnt = 0;
			for (size_t x = 0; x < n; ++x) CHECK(c, !d.is_set(x), "dsets-clear", x);
			CHECK(c, d.count_sets() == 0, "dsets-count");
			continue;
		}
		if (g[a] < 0) { c.op("make_set", a); d.make_set(a); g[a] = a; ++cnt; }
		else if (g[b] >= 0) {
			if (c.p(2, 3)) {
				c.op("union", a, b);
				uint64_t r = c.p(1, 2) ? d.union_set(a, b) : d.link(d.find_set(a), d.find_set(b));
				if (g[a] != g[b]) { --cnt; int o = g[b], w = g[a]; for (auto & x : g) if (x == o) x = w; c.nontrivial = true; }
				CHECK(c, r < n && g[r] == g[a], "dsets-rep");
				CHECK(c, d.find_set(r) == r, "dsets-rep");
			} else { c.op("find", a); uint64_t r = d.find_set(a); CHECK(c, r < n && g[r] == g[a], "dsets-find"); CHECK(c, d.find_set(r) == r, "dsets-rep"); }
		}
		CHECK(c, d.count_sets() == cnt, "dsets-count", d.count_sets(), cnt);
		if (g[a] >= 0 && g[b] >= 0) CHECK(c, (d.find_set(a) == d.find_set(b)) == (g[a] == g[b]), "dsets-same");
	}
	for (size_t x = 0; x < n; ++x) for (size_t y = 0; y < n && y < 40; ++y)
		if (g[x] >= 0 && g[y] >= 0) CHECK(c, (d.find_set(x) == d.find_set(y)) == (g[x] == g[y]), "dsets-same");
}

int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"queue", queue}, {"stack", stack}, {"vector", vector}, {"ipq", ipq}, {"dsets", dsets}},
	              [] { tpie_init(ALL & ~JOB_MANAGER & ~STREAMS); get_memory_manager().set_limit(1 << 30); });
}
