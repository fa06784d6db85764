// Bounded differential driver for B-trees and the bulk builder.
#include "h.h"
#include <algorithm>
#include <map>
#include <memory>
#include <filesystem>
#include <tpie/tpie.h>
#include <tpie/btree.h>
#include <tpie/tempname.h>
#include <tpie/file_accessor/file_accessor.h>
using namespace tpie;
static const bool FIRST = true;

struct val { uint32_t key, id; bool operator==(const val & o) const { return key == o.key && id == o.id; } };
struct keyx { uint32_t operator()(const val & v) const { return v.key; } };
struct bless { bool operator()(uint32_t a, uint32_t b) const { return a < b; } };
struct bgreater { bool operator()(uint32_t a, uint32_t b) const { return a > b; } };

// an augmentation that depends on every item and on their order
struct aug { uint64_t n, sum, pw, hash; };
static uint64_t mix(const val & v) { uint64_t x = (uint64_t(v.key) << 32 | v.id) * 0x9E3779B97F4A7C15ull; return x ^ (x >> 29); }
static const uint64_t B = 1099511628211ull;
static void app(aug & a, const aug & b) { a.n += b.n; a.sum += b.sum; a.hash = a.hash * b.pw + b.hash; a.pw *= b.pw; }
struct augm {
	template <class N> aug operator()(const N & n) {
		aug a = {0, 0, 1, 0};
		for (size_t i = 0; i < n.count(); ++i) if (n.is_leaf()) app(a, aug{1, n.value(i).key, B, mix(n.value(i))}); else app(a, n.get_augmentation(i));
		return a;
	}
};
static bool same(const aug & a, const aug & b) { return a.n == b.n && a.sum == b.sum && a.hash == b.hash && a.pw == b.pw; }

struct limits { size_t minl, maxl, mini, maxi; };
static std::string show(const val & v) { std::ostringstream o; o << v.key << "/" << v.id; return o.str(); }

template <class N, class C> static aug walk(Case & c, const N & n, size_t depth, size_t & ld, const limits & L, std::vector<val> & out, bool root, C comp, bool ordered) {
	aug a = {0, 0, 1, 0}; size_t z = n.count();
	if (n.is_leaf()) {
		CHECK(c, ld == 0 || ld == depth, "tree-balance", "leaves at depth", ld, "and", depth); ld = depth;
		CHECK(c, z >= 1 && z <= L.maxl && (root || z >= L.minl), "tree-node-size", "a leaf has", z, "items; limits", L.minl, L.maxl, root ? "root" : "");
		for (size_t i = 0; i < z; ++i) { out.push_back(n.value(i)); app(a, aug{1, n.value(i).key, B, mix(n.value(i))}); }
		return a;
	}
	CHECK(c, z >= (root ? std::min<size_t>(2, L.mini < 2 ? 1 : 2) : L.mini) && z <= L.maxi, "tree-node-size", "an inner node has", z, "children; limits", L.mini, L.maxi, root ? "root" : "");
	for (size_t i = 0; i < z; ++i) {
		size_t at = out.size();
		N k = n.get_child(i);
		CHECK(c, k.has_parent() && k.index() == i, "tree-node-index", i);
		aug b = walk(c, k, depth + 1, ld, L, out, false, comp, ordered);
		CHECK(c, same(b, n.get_augmentation(i)), "tree-augment", "augmentation stored for child", i, "of", z, "counts", n.get_augmentation(i).n, "items, sum", n.get_augmentation(i).sum, "its subtree has", b.n, b.sum);
		if constexpr (!std::is_same<C, int>::value) CHECK(c, n.min_key(i) == out[at].key, "tree-minkey", "least key stored for child", i, "is", n.min_key(i), "its subtree starts at", out[at].key);
		app(a, b);
	}
	return a;
}
template <class T, class C> static void structure(Case & c, const T & t, const std::vector<val> & m, const limits & L, C comp, bool ordered = true) {
	CHECK(c, t.size() == m.size() && t.empty() == m.empty(), "tree-size", t.size(), "expected", m.size());
	std::vector<val> out; size_t ld = 0;
	if (!m.empty()) { auto r = t.root(); walk(c, r, 1, ld, L, out, true, comp, ordered); }
	CHECK(c, out.size() == m.size(), "tree-items", "tree has", out.size(), "items; expected", m.size());
	for (size_t i = 0; i < m.size(); ++i) CHECK(c, out[i] == m[i], "tree-items", "item", i, "of", m.size(), "is", show(out[i]), "expected", show(m[i]));
}
template <class T> static void iterate(Case & c, const T & t, const std::vector<val> & m) {
	size_t i = 0; auto e = t.end(), it = t.begin();
	for (; it != e; ++it, ++i) { CHECK(c, i < m.size(), "tree-iterate", "iteration does not end at", i); CHECK(c, *it == m[i], "tree-iterate", "item", i, "is", show(*it), "expected", show(m[i])); }
	CHECK(c, i == m.size(), "tree-iterate", "iteration ended after", i, "of", m.size());
	if (!m.empty()) for (it = t.end(); i > 0;) { --it; --i; CHECK(c, *it == m[i], "tree-iterate-back", "item", i, "is", show(*it), "expected", show(m[i])); }
	CHECK(c, it == t.begin(), "tree-iterate-back", "begin not reached");
}
template <class C> static size_t lbm(const std::vector<val> & m, uint32_t k, C comp) { return std::lower_bound(m.begin(), m.end(), k, [&](const val & a, uint32_t b) { return comp(a.key, b); }) - m.begin(); }
template <class C> static size_t ubm(const std::vector<val> & m, uint32_t k, C comp) { return std::upper_bound(m.begin(), m.end(), k, [&](uint32_t b, const val & a) { return comp(b, a.key); }) - m.begin(); }
template <class T, class I> static void at(Case & c, const T & t, I it, const std::vector<val> & m, size_t i, const char * w, uint32_t k) {
	CHECK(c, (it == t.end()) == (i == m.size()), w, "key", k, "result", it == t.end() ? "end" : "an item", "expected position", i, "of", m.size());
	if (i < m.size()) CHECK(c, *it == m[i], w, "key", k, "gives", show(*it), "expected", show(m[i]));
}
template <class T, class C> static void lookup(Case & c, const T & t, const std::vector<val> & m, uint32_t k, C comp) {
	size_t l = lbm(m, k, comp), u = ubm(m, k, comp);
	at(c, t, t.lower_bound(k), m, l, "tree-lower-bound", k);
	at(c, t, t.upper_bound(k), m, u, "tree-upper-bound", k);
	auto f = t.find(k);
	CHECK(c, (f == t.end()) == (l == u), "tree-find", "key", k, f == t.end() ? "not found" : "found", "occurs", u - l, "times");
	if (FIRST && l != u) CHECK(c, *f == m[l], "tree-find-first", "key", k, "find gives", show(*f), "the first item with the key is", show(m[l]));
	if (c.p(1, 3)) { // step from the bound
		auto it = t.lower_bound(k); if (l < m.size()) { ++it; at(c, t, it, m, l + 1, "tree-step", k); --it; at(c, t, it, m, l, "tree-step-back", k); }
		it = t.upper_bound(k); if (u > 0) { --it; CHECK(c, *it == m[u - 1], "tree-step-back", "before the upper bound of", k); }
	}
}

static uint32_t draw(Case & c, int mode, uint32_t n) {
	switch (mode) { case 0: return c(1 << 20); case 1: return c(6); case 2: return n; case 3: return 1000000 - n; case 4: return n / 9; default: return c(200); }
}
template <class T, class C> static void history(Case & c, T & t, std::vector<val> & m, size_t steps, const limits & L, C comp, uint32_t id0 = 0) {
	int mode = c(6); bool grow = c.p(2, 3), multi = c.p(1, 2); uint32_t id = id0; size_t every = 1 + c(40);
	for (size_t s = 0; s < steps; ++s) {
		if (c.p(1, 40)) { grow = !grow; }
		if (c.p(1, 30)) mode = c(6);
		if (c.p(grow ? 4 : 1, 5)) {
			uint32_t k = draw(c, mode, id); size_t l = lbm(m, k, comp), u = ubm(m, k, comp);
			if (!multi && l != u) continue;
			val v = {k, id++}; c.op("insert", show(v)); t.insert(v); m.insert(m.begin() + u, v);
		} else if (m.size()) {
			if (c.p(1, 2)) {
				size_t i = c(m.size()); uint32_t k = m[i].key; size_t l = lbm(m, k, comp), u = ubm(m, k, comp);
				if (u - l > 20 && c.p(9, 10)) continue;
				c.op("erase key", k); size_t n = t.erase(k);
				CHECK(c, n == u - l, "tree-erase-count", "key", k, "erased", n, "occurred", u - l);
				m.erase(m.begin() + l, m.begin() + u);
			} else {
				size_t i = c(m.size()); uint32_t k = m[i].key; size_t l = lbm(m, k, comp); if (i - l > 200) continue;
				auto it = t.lower_bound(k); for (size_t j = l; j < i; ++j) ++it;
				CHECK(c, it != t.end() && *it == m[i], "tree-step", "to", show(m[i]));
				c.op("erase item", show(m[i])); t.erase(it); m.erase(m.begin() + i);
			}
		} else { uint32_t k = draw(c, 0, 0); c.op("erase absent", k); CHECK(c, t.erase(k) == 0, "tree-erase-count", "from the empty tree"); }
		CHECK(c, t.size() == m.size(), "tree-size", t.size(), "expected", m.size());
		if (s % every == 0) { structure(c, t, m, L, comp); lookup(c, t, m, draw(c, mode, c(id + 1)), comp); if (m.size()) lookup(c, t, m, m[c(m.size())].key, comp); }
		if (m.size() > 30) c.nontrivial = true;
	}
	structure(c, t, m, L, comp); iterate(c, t, m);
	for (int i = 0; i < 20; ++i) { lookup(c, t, m, draw(c, mode, c(id + 1)), comp); if (m.size()) lookup(c, t, m, m[c(m.size())].key, comp); }
	if (c.p(1, 4)) { // down to the empty tree and up again
		c.op("erase all");
		while (m.size()) { size_t i = c(m.size()); uint32_t k = m[i].key; size_t l = lbm(m, k, comp), u = ubm(m, k, comp); t.erase(k); m.erase(m.begin() + l, m.begin() + u); if (m.size() % 16 == 0) structure(c, t, m, L, comp); }
		structure(c, t, m, L, comp); iterate(c, t, m); lookup(c, t, m, 5, comp);
		for (int i = 0; i < 12; ++i) { val v = {uint32_t(i * 7 % 11), id++}; t.insert(v); m.insert(m.begin() + ubm(m, v.key, comp), v); structure(c, t, m, L, comp); }
	}
}
static std::string fresh() { static int n = 0; std::ostringstream o; o << tempname::get_actual_path() << "/bt" << getpid() << "_" << n++; return o.str(); }
struct gone { std::string p; ~gone() { ::unlink(p.c_str()); } };

template <int a, int b, class C> static void int_t(Case & c) {
	C comp; limits L = {a, b, a, b}; std::vector<val> m;
	c.op("internal tree", a, b); btree<val, btree_internal, btree_key<keyx>, btree_comp<C>, btree_augment<augm>, btree_fanout<a, b>> t(comp);
	history(c, t, m, 20 + c(c.size * 12), L, comp);
}
static void internal_s(Case & c) {
	switch (c(9)) {
	case 0: int_t<2, 4, bless>(c); break;
	case 1: int_t<2, 4, bgreater>(c); break;
	case 2: int_t<2, 5, bless>(c); break;
	case 3: int_t<3, 6, bgreater>(c); break;
	case 4: int_t<3, 7, bless>(c); break;
	case 5: int_t<4, 12, bless>(c); break;
	case 6: int_t<2, 7, bless>(c); break;
	case 7: int_t<2, 3, bless>(c); break;
	case 8: int_t<3, 5, bgreater>(c); break;
	}
}
template <int a, int b, size_t bs, class C> static void ext_t(Case & c, limits L) {
	C comp; std::vector<val> m; std::string p = fresh(); gone g{p};
	typedef btree<val, btree_external, btree_key<keyx>, btree_comp<C>, btree_augment<augm>, btree_fanout<a, b>, btree_blocksize<bs>> T;
	c.op("external tree", a, b, "block", bs);
	uint32_t id = 0;
	for (int r = 1 + c(3); r > 0; --r) {
		T t(p, comp); if (id) { c.op("reopen"); structure(c, t, m, L, comp); iterate(c, t, m); }
		history(c, t, m, 20 + c(c.size * 6), L, comp, id); id += 1000000;
	}
}
// the inner node's entry is a block handle (16 bytes), the key and the augmentation
static void external_s(Case & c) {
	switch (c(5)) {
	case 0: ext_t<2, 4, 0, bless>(c, {2, 4, 2, 4}); break;
	case 1: ext_t<3, 6, 1024, bgreater>(c, {3, 6, 3, 6}); break;
	case 2: ext_t<0, 0, 520, bless>(c, {16, 64, 2, 9}); break;
	case 3: ext_t<4, 9, 0, bless>(c, {4, 9, 4, 9}); break;
	case 4: ext_t<3, 5, 0, bless>(c, {3, 5, 3, 5}); break;
	}
}

static std::vector<val> sorted_vals(Case & c, size_t n, bool desc) {
	std::vector<val> v; bool dup = c.p(1, 2); uint32_t k = desc ? 4000000 : 3;
	for (size_t i = 0; i < n; ++i) { v.push_back({k, uint32_t(i)}); uint32_t d = dup ? c(2) : 1 + c(3); k = desc ? k - d : k + d; }
	return v;
}
#define TREE(N, ...) typedef btree<val, btree_key<keyx>, btree_augment<augm>, __VA_ARGS__> N; typedef btree_builder<val, btree_key<keyx>, btree_augment<augm>, __VA_ARGS__> N##_b;
static size_t bsize(Case & c, size_t b) {
	switch (c(4)) { case 0: return c(3 * b); case 1: { size_t n = 1; for (int k = 1 + c(4); k > 0; --k) n *= b; n += c(5); return std::min<size_t>(n - std::min<size_t>(n, 2), 9000); } case 2: return c(40 * b); default: return c(c.size * 20); }
}
template <class BB, class T, class C, bool dyn> static void bi_t(Case & c, limits L, size_t fan) {
	size_t n = bsize(c, fan); C comp; c.op("build internal: items", n, "fanout", fan, "dynamic", dyn);
	BB b(comp); auto m = sorted_vals(c, n, comp(2, 1));
	for (auto & v : m) b.push(v);
	std::string meta = c.p(1, 3) ? std::string(1 + c(100), 'm') : std::string();
	T t(b.build(meta)); CHECK(c, t.get_metadata() == meta, "tree-metadata", t.get_metadata().size(), meta.size());
	if (m.size() > 5) c.nontrivial = true;
	structure(c, t, m, L, comp); iterate(c, t, m);
	for (int i = 0; i < 20; ++i) lookup(c, t, m, m.size() ? m[c(m.size())].key + c(3) : c(9), comp);
	if constexpr (dyn) history(c, t, m, 200, L, comp, 5000000);
}
template <class BB, class T, class C, bool dyn> static void be_t(Case & c, limits L, size_t fan, btree_flags fl = btree_flags::defaults, bool hasmeta = false) {
	size_t n = bsize(c, fan); if (!FIRST && !n) n = 1; C comp; std::string p = fresh(); gone g{p}; c.op("build external: items", n, "fanout", fan, "dynamic", dyn, "flags", uint64_t(fl));
	auto m = sorted_vals(c, n, comp(2, 1)); augm au;
	std::string meta = hasmeta && FIRST && c.p(1, 2) ? std::string(1 + c(100), 'm') : std::string();
	{
		BB b(p, comp, au, fl);
		for (auto & v : m) b.push(v);
		T t(b.build(meta)); if (hasmeta) CHECK(c, t.get_metadata() == meta, "tree-metadata", t.get_metadata().size(), meta.size());
		structure(c, t, m, L, comp); iterate(c, t, m);
		for (int i = 0; i < 20; ++i) lookup(c, t, m, m.size() ? m[c(m.size())].key + c(3) : c(9), comp);
		if constexpr (dyn) history(c, t, m, 150, L, comp, 5000000);
	}
	if (m.size() > 5) c.nontrivial = true;
	if (c.p(1, 2)) {
		c.op("reopen"); T t(p, comp); if (hasmeta) CHECK(c, t.get_metadata() == meta, "tree-metadata", t.get_metadata().size(), meta.size());
		structure(c, t, m, L, comp); iterate(c, t, m);
		for (int i = 0; i < 20; ++i) lookup(c, t, m, m.size() ? m[c(m.size())].key + c(3) : c(9), comp);
	}
}
static void build_s(Case & c) {
	switch (c(9)) {
	case 0: { TREE(A, btree_internal, btree_comp<bless>, btree_fanout<2, 4>) bi_t<A_b, A, bless, true>(c, {2, 4, 2, 4}, 4); break; }
	case 1: { TREE(A, btree_internal, btree_static, btree_comp<bgreater>, btree_fanout<2, 4>) bi_t<A_b, A, bgreater, false>(c, {2, 4, 2, 4}, 4); break; }
	case 2: { TREE(A, btree_internal, btree_comp<bless>, btree_fanout<3, 7>) bi_t<A_b, A, bless, true>(c, {3, 7, 3, 7}, 7); break; }
	case 3: { TREE(A, btree_internal, btree_static, btree_comp<bless>, btree_fanout<5, 10>) bi_t<A_b, A, bless, false>(c, {5, 10, 5, 10}, 10); break; }
	case 4: { TREE(A, btree_external, btree_comp<bless>, btree_fanout<2, 5>) be_t<A_b, A, bless, true>(c, {2, 5, 2, 5}, 5); break; }
	case 5: { TREE(A, btree_external, btree_static, btree_comp<bless>, btree_blocksize<520>) be_t<A_b, A, bless, false>(c, {16, 64, 2, 9}, 64); break; }
	case 6: { TREE(A, btree_external, btree_comp<bgreater>, btree_blocksize<520>) be_t<A_b, A, bgreater, true>(c, {16, 64, 2, 9}, 64); break; }
	default: {
		btree_flags f[] = {btree_flags::compress_none, btree_flags::compress_snappy};
		btree_flags fl = f[c(2)] | btree_flags::defaults;
		if (c.p(1, 2)) { TREE(A, btree_external, btree_static, btree_serialized, btree_comp<bless>, btree_fanout<4, 6>) be_t<A_b, A, bless, false>(c, {1, 6, 1, 4}, 6, fl, true); }
		else { TREE(A, btree_external, btree_static, btree_serialized, btree_comp<bgreater>, btree_blocksize<400>) be_t<A_b, A, bgreater, false>(c, {1, 400, 1, 400}, 48, fl, true); }
	} }
}
// an unordered tree keeps the order its items were given in
static void unordered_s(Case & c) {
	typedef btree<val, btree_internal, btree_unordered, btree_augment<augm>> T; T t; std::vector<val> m; limits L = {2, 4, 2, 4};
	size_t steps = 20 + c(c.size * 10); uint32_t id = 0; bool grow = true; c.op("unordered tree");
	auto goto_ = [&](size_t i) { auto it = t.begin(); if (i > m.size() / 2) { it = t.end(); for (size_t j = m.size(); j > i; --j) --it; } else for (size_t j = 0; j < i; ++j) ++it; return it; };
	for (size_t s = 0; s < steps; ++s) {
		if (c.p(1, 60)) grow = !grow;
		if (m.empty() || c.p(grow ? 4 : 1, 5)) {
			size_t i = c.p(1, 4) ? 0 : c.p(1, 3) ? m.size() : c(m.size() + 1); val v = {uint32_t(c(100)), id++};
			c.op("insert", show(v), "at", i); t.insert_before(v, m.empty() ? t.begin() : goto_(i)); m.insert(m.begin() + i, v);
		} else { size_t i = c(m.size()); c.op("erase at", i); t.erase(goto_(i)); m.erase(m.begin() + i); }
		if (s % 8 == 0) structure(c, t, m, L, 0, false);
		if (m.size() > 30) c.nontrivial = true;
	}
	structure(c, t, m, L, 0, false); iterate(c, t, m);
}

static std::string scratch;
int main(int argc, char ** argv) {
	char d[] = "/tmp/tpv-btree-XXXXXX"; scratch = mkdtemp(d);
	int rc = h_main(argc, argv, {{"internal", internal_s, 3}, {"external", external_s, 2}, {"build", build_s, 3}, {"unordered", unordered_s}},
		[] { tpie::tpie_init(tpie::ALL & ~tpie::JOB_MANAGER); tpie::get_memory_manager().set_limit(1 << 30); tempname::set_default_path(scratch); },
		[] {}, 60, 60);
	std::error_code ec; std::filesystem::remove_all(scratch, ec);
	return rc;
}
