// Bounded differential driver for the external sorters: merge_sorter, serialization_sorter,
// tpie::sort, parallel_sort and the run position store.
#include "h.h"
#include <algorithm>
#include <map>
#include <memory>
#include <filesystem>
#include <tpie/tpie.h>
#include <tpie/tempname.h>
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/sort.h>
#include <tpie/parallel_sort.h>
#include <tpie/serialization_sorter.h>
#include <tpie/pipelining/merge_sorter.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/dummy_progress.h>
using namespace tpie;

template <size_t P> struct item { uint64_t key, id; char pad[P]; };
template <size_t P> bool operator<(const item<P> & a, const item<P> & b) { return a.key < b.key; }
struct bykey { template <class T> bool operator()(const T & a, const T & b) const { return a.key < b.key; } };
struct bykeyd { template <class T> bool operator()(const T & a, const T & b) const { return a.key > b.key; } };
typedef std::pair<uint64_t, uint64_t> kid;
template <class T> struct mk;
template <size_t P> struct mk<item<P>> { static item<P> of(uint64_t k, uint64_t i) { item<P> x; memset(&x, 0, sizeof x); x.key = k; x.id = i; x.pad[P - 1] = (char)(k * 31 + i); return x; }
	static kid key(Case & c, const item<P> & x) { CHECK(c, x.pad[P - 1] == (char)(x.key * 31 + x.id), "sort-torn", "item content mixed up", x.key, x.id); return {x.key, x.id}; } };

static uint64_t draw(Case & c, int mode, uint64_t n) {
	switch (mode) { case 0: return c(1 << 30); case 1: return c(5); case 2: return n; case 3: return ~n; case 4: return n / 7; default: return c.u(); }
}
static std::vector<kid> keys(Case & c, size_t n, int & mode) {
	std::vector<kid> v; mode = c(6); bool mix = c.p(1, 4);
	for (size_t i = 0; i < n; ++i) { if (mix && c.p(1, 50)) mode = c(6); v.push_back({draw(c, mode, i), i}); }
	return v;
}
// the output is the input in order: keys sorted, (key, id) the same multiset
static void compare(Case & c, std::vector<kid> in, std::vector<kid> out, bool desc, const char * w) {
	CHECK(c, in.size() == out.size(), "sort-size", w, "pushed", in.size(), "pulled", out.size());
	for (size_t i = 1; i < out.size(); ++i)
		CHECK(c, desc ? out[i - 1].first >= out[i].first : out[i - 1].first <= out[i].first, "sort-order", w, "item", i, "of", out.size(), "has key", out[i].first, "after", out[i - 1].first);
	std::sort(in.begin(), in.end()); std::sort(out.begin(), out.end());
	for (size_t i = 0; i < in.size(); ++i)
		CHECK(c, in[i] == out[i], "sort-permutation", w, "an item was lost, duplicated or changed: expected", in[i].first, in[i].second, "got", out[i].first, out[i].second);
}

template <class T, class C> static void ms_t(Case & c) {
	tpie::dummy_progress_indicator pi;
	merge_sorter<T, false, C> s;
	size_t run = 1 + c(c.p(1, 2) ? 6 : 60), fan = 2 + c(c.p(2, 3) ? 3 : 9), n;
	size_t mem = 0;
	switch (c(5)) {
	case 0: n = run * c(fan * fan + 2); break;
	case 1: { n = run; for (int k = c(4); k > 0; --k) n *= fan; n += c(3); n -= std::min<size_t>(n, 1); break; }
	case 2: n = c(3); break;
	default: n = c(run * fan * (c.p(1, 3) ? fan : 2) + 4);
	}
	n = std::min<size_t>(n, 9000);
	if (c.p(1, 6)) { // real parameter computation
		mem = 20 * 1024 * 1024 + c(40 * 1024 * 1024); n = c(4) ? c(2000) : 20000 + c(200000);
		size_t m2 = mem + c(1 << 24), m3 = 14 * 1024 * 1024 + c(mem);
		if (c.p(1, 2)) { s.set_available_memory(mem, m2, m3); c.op("memory", mem, m2, m3); } else { s.set_available_memory(mem); c.op("memory", mem); }
		if (c.p(1, 2)) { size_t f = 6 + c(30); s.set_available_files(f); c.op("files", f); }
		if (c.p(1, 3)) { s.set_items(n); c.op("set_items", n); }
	} else {
		s.set_available_memory(1 << 29);
		s.set_parameters(run, fan); c.op("run length", run, "fanout", fan);
	}
	int mode; auto in = keys(c, n, mode); c.op("items", n, "keys", mode, "size", sizeof(T));
	s.begin();
	for (auto & k : in) s.push(mk<T>::of(k.first, k.second));
	s.end();
	CHECK(c, s.item_count() == n, "sort-count", s.item_count(), n);
	if (c.p(1, 3)) { c.op("evacuate before merging"); if (c.p(1, 2)) s.evacuate_before_merging(); else s.evacuate(); }
	s.calc(pi);
	if (c.p(1, 3)) { c.op("evacuate before reporting"); if (c.p(1, 2)) s.evacuate_before_reporting(); else s.evacuate(); }
	std::vector<kid> out;
	while (s.can_pull()) { T t = s.pull(); out.push_back(mk<T>::key(c, t)); CHECK(c, out.size() <= n, "sort-size", "more items than were pushed", n); }
	CHECK(c, !s.can_pull(), "sort-end", "can_pull after the end");
	if (n > run) c.nontrivial = true;
	compare(c, in, out, std::is_same<C, bykeyd>::value, "merge_sorter");
}
static void merge_s(Case & c) {
	switch (c(4)) {
	case 0: ms_t<item<8>, bykey>(c); break;
	case 1: ms_t<item<8>, bykeyd>(c); break;
	case 2: ms_t<item<1000>, bykey>(c); break;
	case 3: ms_t<item<8>, std::less<item<8>>>(c); break;
	}
}

// tpie::sort on streams: in place and to another stream
template <class S, class T> static void stream_t(Case & c) {
	temp_file a, b; S x, y; x.open(a); y.open(b);
	size_t n = c.p(1, 8) ? 3000 + c(60000) : c(c.p(1, 3) ? 4 : 800); int mode; auto in = keys(c, n, mode);
	bool inplace = c.p(1, 2), desc = c.p(1, 2), junk = c.p(1, 2);
	c.op("items", n, "keys", mode, inplace ? "in place" : "to another stream", "size", sizeof(T), desc ? "descending" : "ascending");
	for (auto & k : in) x.write(mk<T>::of(k.first, k.second));
	if (junk) { size_t j = c(n + 20); for (size_t i = 0; i < j; ++i) y.write(mk<T>::of(1, 1)); c.op("output had", j); }
	if (n && c.p(1, 2)) x.seek(c(n));
	tpie::progress_indicator_null pi;
	const bool fs = std::is_same<S, file_stream<T>>::value;
	if constexpr (std::is_same<S, file_stream<T>>::value) {
		if (inplace && desc) { bykeyd d; tpie::sort(x, d, pi); } else if (inplace) { if (c.p(1, 2)) tpie::sort(x, pi); else { bykey d; tpie::sort(x, d, pi); } }
		else if (!desc && c.p(1, 2)) tpie::sort(x, y);
		else if (desc) bits::generic_sort<S, T, bykeyd>(x, y, bykeyd(), &pi); else bits::generic_sort<S, T, bykey>(x, y, bykey(), &pi);
	} else {
		S & o = inplace ? x : y;
		if (desc) bits::generic_sort<S, T, bykeyd>(x, o, bykeyd(), &pi); else bits::generic_sort<S, T, bykey>(x, o, bykey(), &pi);
	}
	(void)fs;
	S & z = inplace ? x : y;
	CHECK(c, z.offset() == 0, "sort-offset", z.offset());
	CHECK(c, z.size() == n, "sort-size", "output stream has", z.size(), "input had", n);
	std::vector<kid> out; z.seek(0);
	while (z.can_read()) { T t = z.read(); out.push_back(mk<T>::key(c, t)); }
	compare(c, in, out, desc, "tpie::sort");
	if (!inplace) {
		x.seek(0); CHECK(c, x.size() == n, "sort-input", "input stream changed size");
		for (size_t i = 0; i < n; ++i) CHECK(c, mk<T>::key(c, x.read()) == in[i], "sort-input", "input stream changed at", i);
	}
	if (n > 1) c.nontrivial = true;
}
static void stream_s(Case & c) {
	switch (c(2)) {
	case 0: stream_t<file_stream<item<8>>, item<8>>(c); break;
	case 1: stream_t<uncompressed_stream<item<24>>, item<24>>(c); break;
	}
}

// serialization sorter
struct sless { bool operator()(const std::string & a, const std::string & b) const { return a < b; } };
struct sgreater { bool operator()(const std::string & a, const std::string & b) const { return a > b; } };
static std::string str(Case & c, int mode, size_t i, size_t big) {
	switch (mode) {
	case 0: return std::string(c(20), 'a' + c(26));
	case 1: return std::string("x");
	case 2: { char b[40]; snprintf(b, sizeof b, "%08zu", i); return b; }
	case 3: { char b[40]; snprintf(b, sizeof b, "%08zu", 99999999 - i); return b; }
	case 4: { std::string s(c(big), 'k'); for (auto & x : s) x = 'a' + c(26); return s; }
	default: { std::string s(c(200), 'q'); if (s.size()) s[c(s.size())] = 'a' + c(26); return s; }
	}
}
template <class P> static void ser_t(Case & c) {
	const size_t W = serialization_writer::memory_usage(), R = serialization_reader::memory_usage();
	size_t big = c.p(1, 6) ? 100000 : 3000;
	size_t base = W + 2 * R + 2 * big + 65536;
	size_t m1 = W + 32768 + big * 3 + c(c.p(1, 2) ? 60000 : 600000), m2 = base + c(4) * R + c(big * 8), m3 = base + c(4) * R + c(big * 8);
	serialization_sorter<std::string, P> s;
	size_t files = 4 + c(8);
	s.set_available_memory(m1, m2, m3); s.set_available_files(files);
	size_t n = c(5) ? c(c.size * 30) : c(3); int mode = c(6); if (mode == 4 && n > 300) n = 300 + c(100);
	if (c.p(1, 6)) { n = 5000 + c(20000); if (mode == 4) mode = 5; }
	c.op("memory", m1, m2, m3, "files", files, "strings", n, "kind", mode);
	std::vector<std::string> in;
	s.begin();
	for (size_t i = 0; i < n; ++i) { if (c.p(1, 200) && mode != 4) mode = c(4); in.push_back(str(c, mode, i, big)); s.push(in.back()); }
	s.end();
	CHECK(c, s.item_count() == n, "sort-count", s.item_count(), n);
	if (c.p(1, 3)) { c.op("evacuate before merging"); s.evacuate(); }
	s.merge_runs();
	if (c.p(1, 3)) { c.op("evacuate before reporting"); s.evacuate(); }
	std::vector<std::string> out;
	while (s.can_pull()) { out.push_back(s.pull()); CHECK(c, out.size() <= n, "ssort-size", "more items than were pushed", n); }
	CHECK(c, out.size() == n, "ssort-size", "pushed", n, "pulled", out.size());
	P less;
	for (size_t i = 1; i < n; ++i) CHECK(c, !less(out[i], out[i - 1]), "ssort-order", "position", i, "of", n);
	std::sort(in.begin(), in.end()); std::sort(out.begin(), out.end());
	for (size_t i = 0; i < n; ++i) CHECK(c, in[i] == out[i], "ssort-permutation", "a string was lost, duplicated or changed", in[i].substr(0, 40), out[i].substr(0, 40));
	if (n > 50) c.nontrivial = true;
}
static void ser_s(Case & c) { if (c.p(1, 2)) ser_t<sless>(c); else ser_t<sgreater>(c); }

// parallel quick sort
template <class T, class C> static void par_t(Case & c) {
	size_t n = c.p(1, 3) ? c(5) : c.p(2, 3) ? c(5000) : 100000 + c(c.size * 40000); int mode; auto in = keys(c, n, mode);
	c.op("parallel items", n, "keys", mode, "size", sizeof(T));
	std::vector<T> v; for (auto & k : in) v.push_back(mk<T>::of(k.first, k.second));
	if (c.p(1, 2)) tpie::parallel_sort(v.begin(), v.end(), C());
	else { tpie::dummy_progress_indicator pi; tpie::parallel_sort<false>(v.begin(), v.end(), pi, C()); }
	std::vector<kid> out; for (auto & t : v) out.push_back(mk<T>::key(c, t));
	if (n > 1) c.nontrivial = true;
	compare(c, in, out, std::is_same<C, bykeyd>::value, "parallel_sort");
}
static void par_s(Case & c) {
	switch (c(3)) { case 0: par_t<item<8>, bykey>(c); break; case 1: par_t<item<8>, bykeyd>(c); break; case 2: par_t<item<200>, bykey>(c); break; }
}

// run positions: what was stored for (level, run) is what is fetched
static void pos_s(Case & c) {
	tpie::temp_file tf; file_stream<uint64_t> fs; fs.open(tf);
	std::vector<stream_position> sp; size_t w = 1 + c(40);
	for (size_t i = 0; i < w; ++i) { sp.push_back(fs.get_position()); for (size_t k = c(3000); k > 0; --k) fs.write(k); }
	bits::run_positions rp; rp.open();
	size_t fan = 2 + c(6), runs = 1 + c(c.p(1, 4) ? 4000 : 80); c.op("positions: fanout", fan, "runs", runs);
	auto chk = [&](const stream_position & a, const stream_position & b, const char * s, size_t l, size_t r) { CHECK(c, a == b, "run-position", s, "level", l, "run", r); };
	std::vector<size_t> cur;
	auto evac = [&]() { if (c.p(1, 10)) { rp.evacuate(); if (c.p(1, 2)) rp.evacuate(); rp.unevacuate(); if (c.p(1, 2)) rp.unevacuate(); } };
	for (size_t i = 0; i < runs; ++i) { if (i % 64 == 0) evac(); size_t k = c(w); rp.set_position(0, i, sp[k]); cur.push_back(k); }
	size_t level = 0;
	while (cur.size() > fan && c.p(5, 6)) {
		rp.next_level(); c.op("level with", cur.size());
		std::vector<size_t> nx;
		for (size_t r = 0, o = 0; r < cur.size(); ++o) {
			for (size_t j = 0; j < fan && r < cur.size(); ++j, ++r) { auto p = rp.get_position(level, r); chk(p, sp[cur[r]], "inner", level, r); }
			if (c.p(1, 20)) evac();
			size_t k = c(w); rp.set_position(level + 1, o, sp[k]); nx.push_back(k);
		}
		cur = nx; ++level; c.nontrivial = true;
	}
	size_t f = cur.size();
	if (f < 2000) {
		rp.next_level(); rp.final_level(f); evac();
		size_t r0 = c(f);
		for (size_t t = 0; t < f; ++t) { size_t r = (t + r0) % f; auto p = rp.get_position(level, r); chk(p, sp[cur[r]], "final", level, r); if (c.p(1, 30)) evac(); }
		if (c.p(1, 2)) { size_t k = c(w); rp.set_position(level + 1, 0, sp[k]); evac();  }
	}
	rp.close();
}

static std::string scratch;
int main(int argc, char ** argv) {
	char d[] = "/tmp/tpv-sort-XXXXXX"; scratch = mkdtemp(d);
	int rc = h_main(argc, argv, {{"merge", merge_s, 4}, {"stream", stream_s}, {"ser", ser_s, 2}, {"parallel", par_s}, {"positions", pos_s}},
		[] { tpie::tpie_init(); tpie::get_memory_manager().set_limit(1 << 30); tempname::set_default_path(scratch); },
		[] {}, 100, 60);
	std::error_code ec; std::filesystem::remove_all(scratch, ec);
	return rc;
}
