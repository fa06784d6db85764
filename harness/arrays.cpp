// Bounded differential driver for arrays, packed arrays, tiny containers and maybe.
#include "h.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <tpie/tpie.h>
#include <tpie/array.h>
#include <tpie/array_view.h>
#include <tpie/memory.h>
#include <boost/iterator/iterator_facade.hpp>
#include <tpie/packed_array.h>
#include <tpie/bit_array.h>
#include <tpie/tiny.h>
#include <tpie/maybe.h>
using namespace tpie;

static std::set<const void *> live;      // constructed objects
struct obj {
	int v;
	obj(int v = 0) : v(v) { enter(); }
	obj(const obj & o) : v(o.get()) { enter(); }
	obj & operator=(const obj & o) { get(); v = o.get(); return *this; }
	~obj() { if (!live.erase(this)) throw_(); }
	int get() const { if (!live.count(this)) throw_(); return v; }
	void enter() { if (!live.insert(this).second) throw_(); }
	static void throw_() { fprintf(stderr, "object constructed, used or destroyed out of turn\n"); abort(); }
};
static int val(const obj & o) { return o.get(); }
static int val(int o) { return o; }
inline bool operator!=(const obj & a, const obj & b) { return a.get() != b.get(); }
inline bool operator==(const obj & a, const obj & b) { return a.get() == b.get(); }

template <class T, class A> static void arr_eq(Case & c, const A & a, const std::vector<int> & m) {
	CHECK(c, a.size() == m.size(), "array-size", a.size(), m.size());
	CHECK(c, a.empty() == m.empty(), "array-empty");
	size_t k = 0;
	for (auto i = a.begin(); i != a.end(); ++i, ++k) { CHECK(c, k < m.size(), "array-iter"); CHECK(c, val(*i) == m[k], "array-content", k, val(*i), m[k]); }
	CHECK(c, k == m.size(), "array-iter", k);
	for (size_t i = 0; i < m.size(); ++i) { CHECK(c, val(a[i]) == m[i], "array-content", i); CHECK(c, val(a.at(i)) == m[i], "array-content", i); CHECK(c, val(*a.find(i)) == m[i], "array-find", i); }
	if (!m.empty()) { CHECK(c, val(a.front()) == m.front(), "array-front"); CHECK(c, val(a.back()) == m.back(), "array-back"); }
}

template <class T> static void array_t(Case & c) {
	size_t live0 = live.size();
	memory_size_type used0 = get_memory_manager().used();
	{
		const int K = 3;
		std::vector<std::unique_ptr<array<T>>> a(K);
		std::vector<std::vector<int>> m(K);
		for (int i = 0; i < K; ++i) a[i].reset(new array<T>());
		size_t n = 6 + c(c.size * 3);
		for (size_t s = 0; s < n; ++s) {
			int i = c(K), j = c(K);
			array<T> & x = *a[i];
			switch (c(16)) {
			case 0: { size_t z = c(c.size + 1); c.op("resize", i, z); x.resize(z); { for (size_t k = 0; k < z; ++k) x[k] = T((int)k); m[i].resize(z); for (size_t k = 0; k < z; ++k) m[i][k] = k; } CHECK(c, x.size() == z, "array-resize"); break; }
			case 1: { size_t z = c(c.size + 1); int v = c(1000); c.op("resize-fill", i, z, v); x.resize(z, T(v)); m[i].assign(z, v); break; }
			case 2: { c.op("assign", i, j); x = *a[j]; m[i] = std::vector<int>(m[j]); c.nontrivial = true; break; }
			case 3: { c.op("self-assign", i); array<T> & y = x; x = y; break; }
			case 4: { c.op("copy", i, j); a[i].reset(new array<T>(*a[j])); m[i] = std::vector<int>(m[j]); break; }
			case 5: { c.op("swap", i, j); x.swap(*a[j]); m[i].swap(m[j]); break; }
			case 6: { c.op("std-swap", i, j); if (i != j) { std::swap(x, *a[j]); m[i].swap(m[j]); } break; }
			case 7: { c.op("move", i, j); if (i != j) { a[i].reset(new array<T>(std::move(*a[j]))); m[i] = m[j]; m[j].clear(); a[j]->resize(0); } break; }
			case 8: { c.op("move-assign", i, j); if (i != j) { x = std::move(*a[j]); m[i] = m[j]; a[j].reset(new array<T>()); m[j].clear(); } break; }
			case 9: { size_t z = c(c.size + 1); int v = c(1000); c.op("ctor-fill", i, z, v); a[i].reset(new array<T>(z, T(v))); m[i].assign(z, v); break; }
			case 10: { if (!m[i].empty()) { array_view<T> v(x); size_t l = c(m[i].size() + 1), h = l + c(m[i].size() - l + 1); c.op("view-copy", i, l, h); array_view<T> w(x, l, h); std::vector<int> mm(m[i].begin() + l, m[i].begin() + h); arr_eq<T>(c, w, mm); a[j].reset(new array<T>(w)); m[j] = mm; } break; }
			case 11: { if (!m[i].empty()) { c.op("reverse-copy", i, j); std::vector<T> b(m[i].size()); std::copy(x.rbegin(), x.rend(), b.begin()); for (size_t k = 0; k < b.size(); ++k) CHECK(c, val(b[k]) == m[i][m[i].size() - 1 - k], "array-reverse", k); std::copy(x.begin(), x.end(), b.begin()); for (size_t k = 0; k < b.size(); ++k) CHECK(c, val(b[k]) == m[i][k], "array-forward", k); if (i != j && m[j].size() >= m[i].size()) { std::copy(x.begin(), x.end(), a[j]->rbegin()); for (size_t k = 0; k < m[i].size(); ++k) m[j][m[j].size() - 1 - k] = m[i][k]; } } break; }
			case 12: { c.op("cmp", i, j); CHECK(c, (x == *a[j]) == (m[i] == m[j]), "array-equal"); CHECK(c, (x != *a[j]) == (m[i] != m[j]), "array-equal"); break; }
			case 13: { if (!m[i].empty()) { size_t k = c(m[i].size()); c.op("rset", i, k); *(x.rbegin() + k) = T(7); m[i][m[i].size() - 1 - k] = 7; CHECK(c, x.rend() - x.rbegin() == (ptrdiff_t)m[i].size(), "array-span"); CHECK(c, (x.find(k) < x.end()), "array-less"); } break; }
			case 14: {
				size_t z = (c(40) + 1) * 4096;
				c.op("resize-over-limit", i, z);
				if (z == m[i].size()) break;
				get_memory_manager().set_enforcement(memory_manager::ENFORCE_THROW);
				size_t lim = get_memory_manager().limit();
				get_memory_manager().set_limit(get_memory_manager().used() + 100);
				bool th = false;
				try { x.resize(z); } catch (std::exception &) { th = true; }
				get_memory_manager().set_limit(lim);
				get_memory_manager().set_enforcement(memory_manager::ENFORCE_IGNORE);
				if (th) { CHECK(c, x.size() == 0 || x.size() == m[i].size(), "array-throw-size", x.size()); if (x.size() == 0) m[i].clear(); }
				else { m[i].resize(z); for (size_t k = 0; k < z; ++k) { x[k] = T((int)k); m[i][k] = k; } x.resize(0); m[i].clear(); }
				break; }
			default: if (!m[i].empty()) { size_t k = c(m[i].size()); int v = c(1000); c.op("set", i, k, v); switch (c(4)) { case 0: x[k] = T(v); break; case 1: x.at(k) = T(v); break; case 2: *x.find(k) = T(v); break; default: *(x.end() - (m[i].size() - k)) = T(v); } m[i][k] = v; }
			}
			for (int k = 0; k < K; ++k) arr_eq<T>(c, *a[k], m[k]);
		}
	}
	CHECK(c, live.size() == live0, "array-objects", live.size(), live0);
	CHECK(c, get_memory_manager().used() == used0, "array-memory", get_memory_manager().used(), used0);
}
static void array_s(Case & c) { if (c.p(1, 2)) array_t<int>(c); else array_t<obj>(c); }

template <class T, int B> static void packed_t(Case & c) {
	typedef packed_array<T, B> P;
	const size_t perword = 64 / B;
	const uint64_t top = B == 64 ? ~0ull : (1ull << B) - 1;
	auto rnd = [&] { return (uint64_t)(T)(c.u() & (B > 32 && sizeof(T) == 4 ? 0xffffffffull : top)); };
	P a, b;
	std::vector<uint64_t> ma, mb;
	size_t n = 10 + c(c.size * 4);
	auto eq = [&](const P & x, const std::vector<uint64_t> & m) {
		CHECK(c, x.size() == m.size(), "packed-size", x.size(), m.size());
		CHECK(c, x.empty() == m.empty(), "packed-size");
		for (size_t i = 0; i < m.size(); ++i) CHECK(c, (uint64_t)x[i] == m[i], "packed-content", B, i, (uint64_t)x[i], m[i]);
		size_t k = 0;
		for (auto i = x.begin(); i != x.end(); ++i, ++k) CHECK(c, k < m.size() && (uint64_t)(T)*i == m[k], "packed-iter", B, k);
		CHECK(c, k == m.size(), "packed-iter", k);
		k = m.size();
		if (!m.empty()) for (auto i = x.rbegin(); i != x.rend(); ++i) { --k; CHECK(c, (uint64_t)(T)*i == m[k], "packed-riter", B, k); }
	};
	for (size_t s = 0; s < n; ++s) {
		switch (c(14)) {
		case 0: { size_t z = c(perword * 3 + 2); T v = (T)rnd(); c.op("fill", B, z, (uint64_t)v); a.resize(z, v); ma.assign(z, (uint64_t)v); break; }
		case 1: { c.op("copy"); P t(a); b = t; mb = std::vector<uint64_t>(ma); eq(t, ma); break; }
		case 2: { c.op("assign"); a = b; ma = std::vector<uint64_t>(mb); c.nontrivial = true; break; }
		case 3: { c.op("swap"); a.swap(b); ma.swap(mb); break; }
		case 4: { c.op("self"); P & t = a; a = t; break; }
		case 5: if (ma.size() > 1) { size_t i = c(ma.size()), j = c(ma.size()); c.op("elem-assign", i, j); a[i] = a[j]; ma[i] = ma[j]; } break;
		case 6: if (ma.size() > 1) { size_t i = c(ma.size()), j = c(ma.size()); c.op("iter-assign", i, j); auto x = a.begin() + i; *x = *(a.begin() + j); ma[i] = ma[j]; } break;
		case 7: if (!ma.empty()) { size_t i = c(ma.size()); T v = (T)rnd(); c.op("rset", i, (uint64_t)v); *(a.rbegin() + i) = v; ma[ma.size() - 1 - i] = (uint64_t)v; } break;
		case 8: { size_t i = c(ma.size() + 1), j = c(ma.size() + 1); c.op("arith", i, j);
			CHECK(c, a.find(i) - a.find(j) == (ptrdiff_t)i - (ptrdiff_t)j, "packed-distance"); auto x = a.begin(); x += i; x -= i; CHECK(c, x == a.begin(), "packed-arith");
			auto y = a.end(); y -= (ma.size() - i); CHECK(c, y == a.find(i), "packed-arith"); CHECK(c, (a.find(i) < a.find(j)) == (i < j), "packed-less"); CHECK(c, (a.find(i) >= a.find(j)) == (i >= j), "packed-less");
			if (i < ma.size()) { auto z = a.find(i); T v = *z++; CHECK(c, (uint64_t)v == ma[i], "packed-postinc"); CHECK(c, z - a.begin() == (ptrdiff_t)i + 1, "packed-postinc"); }
			break; }
		case 9: { size_t z = c(perword * 3 + 2); c.op("resize", z); if (z != ma.size()) { a.resize(z); ma.assign(z, 0); a.fill((T)0); } break; }
		default: if (!ma.empty()) { size_t i = c(ma.size()); T v = (T)rnd(); c.op("set", i, (uint64_t)v); if (c.p(1, 2)) a[i] = v; else *(a.begin() + i) = v; ma[i] = (uint64_t)v; }
		}
		eq(a, ma);
	}
	eq(b, mb);
}
static void packed_s(Case & c) {
	switch (c(8)) {
	case 0: return packed_t<bool, 1>(c);
	case 1: return packed_t<unsigned, 1>(c);
	case 2: return packed_t<unsigned, 2>(c);
	case 3: return packed_t<unsigned, 4>(c);
	case 4: return packed_t<unsigned, 8>(c);
	case 5: return packed_t<unsigned, 16>(c);
	case 6: return packed_t<unsigned, 32>(c);
	default: return packed_t<unsigned long, 64>(c);
	}
}

// ---------------------------------------------------------------- tiny
struct cmp { bool rev; cmp(bool r = false) : rev(r) {} bool operator()(int a, int b) const { return rev ? b / 2 < a / 2 : a / 2 < b / 2; } };   // ties between 2k and 2k+1
template <class S> static std::vector<int> keys(const S & s) { return std::vector<int>(s.begin(), s.end()); }

template <class S, class M, bool multi> static void tiny_set_t(Case & c) {
	bool rev = c.p(1, 2);
	S s{cmp(rev)}; M m{cmp(rev)};
	size_t n = 6 + c(c.size * 4); int R = 4 + c(30);
	auto same = [&](const S & s, const M & m) {
		CHECK(c, s.size() == m.size() && s.empty() == m.empty(), "tiny-size", s.size(), m.size());
		auto i = s.begin(); for (int v : m) { CHECK(c, i != s.end(), "tiny-content"); CHECK(c, *i == v, "tiny-content", *i, v); ++i; }
	};
	for (size_t k = 0; k < n; ++k) {
		int v = c(R);
		switch (c(12)) {
		case 0: { c.op("erase", v); size_t a = s.erase(v), b = m.erase(v); CHECK(c, a == b, "tiny-erase-count", a, b); break; }
		case 1: if (!m.empty()) { size_t p = c(m.size()); c.op("erase-at", p); auto i = s.erase(s.begin() + p); auto j = m.erase(std::next(m.begin(), p)); CHECK(c, i - s.begin() == std::distance(m.begin(), j), "tiny-erase-iter"); } break;
		case 2: if (!m.empty()) { size_t l = c(m.size() + 1), h = l + c(m.size() - l + 1); if (c.p(1, 2) && h > l + 2) h = l + 2; c.op("erase-range", l, h); auto i = s.erase(s.begin() + l, s.begin() + h); auto j = m.erase(std::next(m.begin(), l), std::next(m.begin(), h)); CHECK(c, i - s.begin() == std::distance(m.begin(), j), "tiny-erase-iter", i - s.begin(), std::distance(m.begin(), j)); c.nontrivial = true; } break;
		case 3: { c.op("lookup", v); auto i = s.find(v); auto j = m.find(v); CHECK(c, (i == s.end()) == (j == m.end()), "tiny-find"); if (j != m.end()) CHECK(c, !cmp()(*i, v) && !cmp()(v, *i), "tiny-find");
			const S & cs = s; auto ci = cs.find(v); CHECK(c, (ci == cs.end()) == (j == m.end()), "tiny-find");
			CHECK(c, s.count(v) == m.count(v), "tiny-count", s.count(v), m.count(v));
			CHECK(c, s.lower_bound(v) - s.begin() == std::distance(m.begin(), m.lower_bound(v)), "tiny-lower"); CHECK(c, s.upper_bound(v) - s.begin() == std::distance(m.begin(), m.upper_bound(v)), "tiny-upper");
			CHECK(c, cs.lower_bound(v) - cs.begin() == std::distance(m.begin(), m.lower_bound(v)), "tiny-lower"); CHECK(c, cs.upper_bound(v) - cs.begin() == std::distance(m.begin(), m.upper_bound(v)), "tiny-upper");
			auto e = s.equal_range(v); CHECK(c, e.first - s.begin() == std::distance(m.begin(), m.lower_bound(v)) && e.second - s.begin() == std::distance(m.begin(), m.upper_bound(v)), "tiny-range"); break; }
		case 4: { c.op("copy"); S t(s); same(t, m); S u{cmp(rev)}; u = t; same(u, m); S w(std::move(t)); same(w, m); CHECK(c, (w == s) && !(w != s), "tiny-equal"); swap(w, u); same(w, m); break; }
		case 5: { std::vector<int> x; for (size_t i = c(4); i; --i) x.push_back(c(R)); c.op("insert-range", x.size()); for (int i : x) c.op(i); s.insert(x.begin(), x.end()); m.insert(x.begin(), x.end()); break; }
		case 6: if (c.p(1, 10)) { c.op("clear"); s.clear(); m.clear(); } break;
		default: {
			c.op("insert", v);
			if constexpr (multi) { auto i = c.p(1, 2) ? s.insert(v) : s.emplace(v); auto j = m.insert(v); CHECK(c, i - s.begin() == std::distance(m.begin(), j), "tiny-insert-iter"); }
			else { auto i = c.p(1, 2) ? s.insert(v) : s.emplace(v); auto j = m.insert(v); CHECK(c, i.second == j.second, "tiny-insert-new"); CHECK(c, i.first - s.begin() == std::distance(m.begin(), j.first), "tiny-insert-iter"); }
		} }
		same(s, m);
		{ auto i = s.rbegin(); for (auto j = m.rbegin(); j != m.rend(); ++j, ++i) { CHECK(c, i != s.rend(), "tiny-reverse"); CHECK(c, *i == *j, "tiny-reverse"); } CHECK(c, i == s.rend(), "tiny-reverse"); }
	}
}
static void tiny_map_s(Case & c) {
	tiny::map<int, char, cmp> s; std::map<int, char, cmp> m; tiny::multimap<int, char, cmp> ss; std::multimap<int, char, cmp> mm;
	size_t n = 6 + c(c.size * 4); int R = c.p(1, 2) ? 2000 : 12;
	for (size_t k = 0; k < n; ++k) {
		int v = c(R); char x = 'a' + c(26);
		switch (c(7)) {
		case 0: { c.op("erase", v); CHECK(c, s.erase(v) == m.erase(v), "tiny-map-erase"); CHECK(c, ss.erase(v) == mm.erase(v), "tiny-map-erase"); break; }
		case 1: { c.op("at", v); bool a = false, b = false; char p = 0, q = 0; try { p = s.at(v); } catch (std::out_of_range &) { a = true; } try { q = m.at(v); } catch (std::out_of_range &) { b = true; } CHECK(c, a == b && p == q, "tiny-map-at"); const auto & cs = s; a = false; try { p = cs.at(v); } catch (std::out_of_range &) { a = true; } CHECK(c, a == b && p == q, "tiny-map-at"); break; }
		case 2: { c.op("index", v); s[v] = x; m[v] = x; break; }
		case 3: { c.op("lookup", v); CHECK(c, (s.find(v) == s.end()) == (m.find(v) == m.end()), "tiny-map-find"); CHECK(c, s.count(v) == m.count(v), "tiny-map-count"); CHECK(c, ss.count(v) == mm.count(v), "tiny-map-count");
			CHECK(c, s.lower_bound(v) - s.begin() == std::distance(m.begin(), m.lower_bound(v)), "tiny-map-lower"); CHECK(c, ss.upper_bound(v) - ss.begin() == std::distance(mm.begin(), mm.upper_bound(v)), "tiny-map-upper"); auto e = ss.equal_range(v); CHECK(c, e.second - e.first == (ptrdiff_t)mm.count(v), "tiny-map-range"); break; }
		default: { c.op("insert", v, x); auto i = s.insert(std::make_pair(v, x)); auto j = m.insert(std::make_pair(v, x)); CHECK(c, i.second == j.second, "tiny-map-insert"); CHECK(c, i.first->second == j.first->second, "tiny-map-insert"); ss.insert(std::make_pair(v, x)); mm.insert(std::make_pair(v, x)); c.nontrivial = true; }
		}
		CHECK(c, s.size() == m.size() && ss.size() == mm.size(), "tiny-map-size");
		auto i = s.begin(); for (auto & p : m) { CHECK(c, i->first == p.first && i->second == p.second, "tiny-map-content"); ++i; }
		auto j = ss.begin(); for (auto & p : mm) { CHECK(c, j->first == p.first && j->second == p.second, "tiny-multimap-content", j->first, j->second, p.first, p.second); ++j; }
	}
}
static void tiny_s(Case & c) {
	switch (c(4)) {
	case 0: return tiny_set_t<tiny::set<int, cmp>, std::set<int, cmp>, false>(c);
	case 1: return tiny_set_t<tiny::multiset<int, cmp>, std::multiset<int, cmp>, true>(c);
	case 2: return tiny_map_s(c);
	default: {
		size_t n = c(c.size * 3); std::vector<std::pair<int, int>> a, b;
		for (size_t i = 0; i < n; ++i) a.push_back({(int)c(8), (int)i});
		b = a; c.op("sort", n); for (auto & p : a) c.op(p.first);
		tiny::sort(a.begin(), a.end(), [](const std::pair<int, int> & x, const std::pair<int, int> & y) { return x.first > y.first; });
		std::stable_sort(b.begin(), b.end(), [](const std::pair<int, int> & x, const std::pair<int, int> & y) { return x.first > y.first; });
		CHECK(c, a == b, "tiny-sort"); tiny::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(c, a == b, "tiny-sort"); c.nontrivial = n > 2;
	} }
}

// ---------------------------------------------------------------- maybe
struct mobj : obj { mobj(int a, int b) : obj(a * 1000 + b) {} explicit mobj(std::unique_ptr<int> p) : obj(*p) {} };
static void maybe_s(Case & c) {
	size_t live0 = live.size();
	{
		std::unique_ptr<maybe<mobj>> m[2] = {std::unique_ptr<maybe<mobj>>(new maybe<mobj>()), std::unique_ptr<maybe<mobj>>(new maybe<mobj>())};
		bool on[2] = {false, false}; int v[2] = {0, 0};
		size_t n = 4 + c(c.size * 3);
		for (size_t s = 0; s < n; ++s) {
			int i = c(2), j = 1 - i;
			switch (c(7)) {
			case 0: case 1: { int a = c(100), b = c(100); c.op("construct", i, a, b); bool th = false; try { if (c.p(1, 2)) m[i]->construct(a, b); else { m[i]->construct(std::unique_ptr<int>(new int(a * 1000 + b))); } } catch (maybe_exception &) { th = true; } CHECK(c, th == on[i], "maybe-construct"); if (!th) { on[i] = true; v[i] = a * 1000 + b; } else c.nontrivial = true; break; }
			case 2: c.op("destruct", i); m[i]->destruct(); on[i] = false; break;
			case 3: { c.op("assign", i, j); bool th = false; try { *m[i] = *m[j]; } catch (maybe_exception &) { th = true; } CHECK(c, th == (on[i] || on[j]), "maybe-assign"); break; }
			case 4: { c.op("copy", i); bool th = false; try { maybe<mobj> t(*m[i]); CHECK(c, !t.is_constructed(), "maybe-copy"); } catch (maybe_exception &) { th = true; } CHECK(c, th == on[i], "maybe-copy"); th = false; try { maybe<mobj> t(std::move(*m[i])); CHECK(c, !t.is_constructed(), "maybe-move"); } catch (maybe_exception &) { th = true; } CHECK(c, th == on[i], "maybe-move"); break; }
			case 5: c.op("renew", i); m[i].reset(new maybe<mobj>()); on[i] = false; break;
			default: if (on[i]) { int a = c(1000); c.op("set", i, a); (**m[i]).v = a; v[i] = a; }
			}
			for (int k = 0; k < 2; ++k) {
				CHECK(c, m[k]->is_constructed() == on[k], "maybe-state", k);
				if (on[k]) { CHECK(c, (**m[k]).get() == v[k], "maybe-value"); CHECK(c, (*m[k])->get() == v[k], "maybe-value"); const maybe<mobj> & cm = *m[k]; CHECK(c, cm->get() == v[k] && (*cm).get() == v[k], "maybe-value"); }
			}
			CHECK(c, live.size() == live0 + on[0] + on[1], "maybe-live", live.size() - live0);
		}
	}
	CHECK(c, live.size() == live0, "maybe-live");
}

int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"array", array_s}, {"packed", packed_s}, {"tiny", tiny_s}, {"maybe", maybe_s}},
	              [] { tpie_init(ALL & ~JOB_MANAGER & ~STREAMS); get_memory_manager().set_limit(1 << 30); });
}
