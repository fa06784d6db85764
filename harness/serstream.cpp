// Bounded driver for serialization streams, inside a scratch directory.
#include "h.h"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <memory>
#include <tpie/tpie.h>
#include <tpie/serialization_stream.h>
#include <tpie/tempname.h>
using namespace tpie;
namespace fs = std::filesystem;
static std::string root;
static const size_t BS = 2 * 1024 * 1024;
static void fresh() {
	char b[4096]; std::string d = getenv("TMPDIR");
	if (realpath(d.c_str(), b)) d = b;
	root = d + "/s" + std::to_string(getpid());
	fs::remove_all(root);
	fs::create_directory(root);
	tempname::set_default_path(root);
}
struct V { int k; uint64_t n; std::vector<char> b; std::vector<uint32_t> r; size_t len() const { return k == 0 ? 8 : k == 1 ? 1 : k == 2 ? 8 + b.size() : k == 3 ? 8 + b.size() : 4 * r.size(); } };
static V val(Case & c, size_t total, bool small) {
	V v; v.n = c.u(); v.k = c.p(1, 3) ? 0 : c(5);
	if (v.k == 2 || v.k == 3) {
		size_t left = BS - total % BS, n;
		if (small) n = c(40);
		else switch (c(8)) {
			case 0: n = 0; break;
			case 1: n = left + c(24) - std::min<size_t>(left, 16); break;      // ends around the block boundary
			case 2: n = left > 8 ? left - 8 : 0; break;                        // ends exactly on it
			case 3: n = left + BS + c(20) - std::min<size_t>(left, 16); break; // covers a whole block
			case 4: n = BS - c(20); break;
			case 5: n = BS + c(20); break;
			default: n = c(c.p(1, 4) ? 300000 : 60);
		}
		v.b.resize(n);
		uint64_t x = c.u() | 1;
		for (auto & ch : v.b) { x = x * 6364136223846793005ull + 1442695040888963407ull; ch = (char)(x >> 56); }
	}
	if (v.k == 4) { v.r.resize(c(9)); for (auto & x : v.r) x = (uint32_t)c.u(); }
	return v;
}
template <class W> static void put(W & w, const V & v) {
	switch (v.k) {
	case 0: w.serialize(v.n); break;
	case 1: w.serialize((char)v.n); break;
	case 2: w.serialize(v.b); break;
	case 3: w.serialize(std::string(v.b.begin(), v.b.end())); break;
	case 4: w.serialize(v.r.begin(), v.r.end()); break;
	}
}
template <class R> static bool get(R & r, const V & v) {
	switch (v.k) {
	case 0: { uint64_t x = ~v.n; r.unserialize(x); return x == v.n; }
	case 1: { char x = (char)~v.n; r.unserialize(x); return x == (char)v.n; }
	case 2: { std::vector<char> x(3, 'x'); r.unserialize(x); return x == v.b; }
	case 3: { std::string x("junk"); r.unserialize(x); return x.size() == v.b.size() && std::equal(x.begin(), x.end(), v.b.begin()); }
	default: { std::vector<uint32_t> x(v.r.size(), 7); r.unserialize(x.begin(), x.end()); return x == v.r; }
	}
}
template <class R> static void ends(Case & c, R & r, size_t total) {
	for (int k = 0; k < 2; ++k) {
		CHECK(c, !r.can_read(), "can-read-at-end", total);
		bool eos = false; char x = 0;
		try { r.unserialize(x); } catch (end_of_stream_exception &) { eos = true; }
		CHECK(c, eos, "read-past-end", total);
	}
}
template <class R> static void check(Case & c, R & r, std::vector<V> vs, bool rev, bool partial) {
	size_t total = 0; for (auto & v : vs) total += v.len();
	if (rev) std::reverse(vs.begin(), vs.end());
	CHECK(c, r.size() == total, "size", r.size(), total);
	CHECK(c, r.file_size() == total + 4096, "file-size", r.file_size());
	size_t at = 0, stop = partial ? c(vs.size() + 1) : vs.size();
	bool each = c.p(1, 2);
	for (size_t i = 0; i < stop; ++i) {
		if (each) { CHECK(c, r.offset() == at, "offset", r.offset(), at); CHECK(c, r.can_read() == (at < total), "can-read", at, total); }
		bool ok = false;
		try { ok = get(r, vs[i]); } catch (end_of_stream_exception &) { c.fail("early-end", "end of stream at value", i, "of", vs.size(), "offset", at, "of", total); }
		CHECK(c, ok, "value", "value", i, "kind", vs[i].k, "offset", at, "length", vs[i].len());
		at += vs[i].len();
	}
	CHECK(c, r.offset() == at, "offset", r.offset(), at);
	CHECK(c, r.can_read() == (at < total), "can-read", at, total);
	CHECK(c, r.size() == total, "size", r.size(), total);
	if (!partial) ends(c, r, total);
}
// every file holds what its writer was given, whichever way writers and readers are reused
template <class W, class R> static void history(Case & c, bool rev, bool small) {
	fresh();
	struct F { std::string p; std::vector<V> v; bool there = false; };
	std::vector<F> f(3);
	std::vector<std::unique_ptr<temp_file>> tf;
	for (auto & x : f) { tf.emplace_back(new temp_file()); }
	for (size_t i = 0; i < 3; ++i) f[i].p = i == 2 ? tf[2]->path() : root + "/f" + std::to_string(i);
	{
		std::unique_ptr<W> w(new W); R r, r2;
		int cur = -1; size_t total = 0;
		size_t steps = 2 + c(small ? 14 : 5);
		for (size_t s = 0; s < steps; ++s) switch (c(8)) {
		case 0: case 1: case 2: {
			int i = c(3);
			c.op("open", i);
			if (i == 2 && c.p(1, 2)) w->open(*tf[2]); else w->open(f[i].p);
			if (cur >= 0) f[cur].there = true;
			cur = i; f[i].v.clear(); f[i].there = false; total = 0;
			size_t n = small ? c(c.size * 4) : c(7);
			for (size_t k = 0; k < n; ++k) {
				V v = val(c, total, small); put(*w, v); total += v.len(); f[i].v.push_back(v);
				c.op("put", v.k, v.len());
				// while writing, only whole blocks are in the file
				if (k + 1 == n) CHECK(c, w->file_size() <= 4096 + total && w->file_size() + BS >= 4096 + total, "writer-file-size", w->file_size(), total);
			}
			if (total > BS) c.nontrivial = true;
			break;
		}
		case 3: c.op("close"); w->close(); if (cur >= 0) { f[cur].there = true; CHECK(c, w->file_size() == 4096 + total, "writer-file-size", w->file_size(), total); } cur = -1; break;
		case 4: c.op("destroy writer"); w.reset(); if (cur >= 0) f[cur].there = true; cur = -1; w.reset(new W); break;
		case 5: {
			bool thrown = false;
			c.op("open nowhere");
			try { w->open(root + "/none/x"); } catch (std::exception &) { thrown = true; }
			CHECK(c, thrown, "open-nowhere");
			if (cur >= 0) f[cur].there = true;
			cur = -1; break;
		}
		default: {
			int i = c(3);
			if (!f[i].there) break;
			bool part = c.p(1, 3);
			c.op("read", i, part);
			CHECK(c, fs::file_size(f[i].p) >= 4096, "disk-size");
			R & x = c.p(1, 2) ? r : r2;
			if (i == 2 && c.p(1, 2)) x.open(*tf[2]); else x.open(f[i].p);
			check(c, x, f[i].v, rev, part);
			if (c.p(1, 2)) x.close();
			if (small && f[i].v.size() > 2) c.nontrivial = true;
		}
		}
		w.reset(); if (cur >= 0) f[cur].there = true;
		for (int i = 0; i < 3; ++i) if (f[i].there) { c.op("final", i); r.open(f[i].p); check(c, r, f[i].v, rev, false); if (c.p(1, 2)) r.close(); }
	}
	tf.clear();
	fs::remove_all(root);
}
static void fwd(Case & c) { history<serialization_writer, serialization_reader>(c, false, c.p(1, 2)); }
static void rev(Case & c) { history<serialization_reverse_writer, serialization_reverse_reader>(c, true, c.p(1, 2)); }
static std::string slurp(const std::string & p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string & p, const std::string & b) { std::ofstream o(p, std::ios::binary | std::ios::trunc); o << b; }
template <class R> static bool refused(const std::string & p, R & r) { try { r.open(p); } catch (std::exception &) { return true; } return false; }
// only a file that was closed properly, in the right direction, is accepted
template <class W, class R, class O> static void header(Case & c, bool rev) {
	fresh();
	std::vector<V> v; size_t total = 0;
	std::string p = root + "/f", q = root + "/g";
	std::string open_image;
	{
		W w; w.open(p);
		for (size_t n = c(6); n--; ) { v.push_back(val(c, total, !c.p(1, 4))); put(w, v.back()); total += v.back().len(); }
		open_image = slurp(p);
		c.op(total);
	}
	std::string img = slurp(p);
	CHECK(c, img.size() == 4096 + total, "disk-size", img.size(), total);
	R r; O o;
	{ c.op("other direction"); CHECK(c, refused(p, o), "other-direction"); }
	if (c.p(1, 2)) { c.op("not closed"); spit(q, open_image); CHECK(c, refused(q, r), "not-closed"); }
	for (size_t n = 1 + c(3); n--; ) {
		std::string x = img;
		size_t k = c(5);
		switch (k) {
		case 0: x[c(8)] ^= (char)(1 + c(255)); break;           // magic
		case 1: x[8 + c(8)] ^= (char)(1 + c(255)); break;       // version
		case 2: x[24] = c.p(1, 2) ? 0 : (char)(2 + c(254)); break;  // closed flag
		case 3: x[25] = (char)(2 + c(254)); break;              // direction
		case 4: x.resize(c(26)); break;
		}
		c.op("corrupt", k);
		spit(q, x);
		CHECK(c, refused(q, r), "corrupt-header", k);
	}
	c.op("intact");
	r.open(p); check(c, r, v, rev, false);
	if (total) {
		// data missing from the file is reported
		std::string x = img; x.resize(4096 + c(total));
		c.op("truncated to", x.size());
		spit(q, x);
		r.open(q);
		bool thrown = false;
		try { std::vector<char> b(total); r.read(b.data(), total); } catch (std::exception &) { thrown = true; }
		CHECK(c, thrown, "missing-data");
	}
	r.open(p); check(c, r, v, rev, false);
	r.close(); o.close();
	c.nontrivial = total > 0;
	fs::remove_all(root);
}
static void head(Case & c) { if (c.p(1, 2)) header<serialization_writer, serialization_reader, serialization_reverse_reader>(c, false); else header<serialization_reverse_writer, serialization_reverse_reader, serialization_reader>(c, true); }
// raw reads of any length see the same bytes
static void raw(Case & c) {
	fresh();
	std::string p = root + "/f";
	bool fwd = c.p(1, 2);
	size_t n = c.p(1, 2) ? BS * (1 + c(2)) + c(20) - 10 : c(5000);
	std::vector<char> b(n); uint64_t x = c.u() | 1;
	for (auto & ch : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; ch = (char)(x >> 56); }
	size_t parts = 1 + c(5);
	std::vector<size_t> cut{0, n};
	while (cut.size() < parts + 1) cut.push_back(c.p(1, 2) ? c(n + 1) : std::min(n, (1 + c(2)) * BS));
	std::sort(cut.begin(), cut.end());
	c.op(fwd, n, parts);
	std::vector<char> want;
	if (fwd) {
		serialization_writer w; w.open(p);
		for (size_t i = 0; i + 1 < cut.size(); ++i) { serialization_writer::serializer s(w); s.write(b.data() + cut[i], cut[i + 1] - cut[i]); }
		want = b;
	} else {
		serialization_reverse_writer w; w.open(p);
		for (size_t i = 0; i + 1 < cut.size(); ++i) { serialization_reverse_writer::serializer s(w); size_t m = cut[i] + c(cut[i + 1] - cut[i] + 1); s.write(b.data() + cut[i], m - cut[i]); s.write(b.data() + m, cut[i + 1] - m); }
		for (size_t i = cut.size() - 1; i--; ) want.insert(want.end(), b.begin() + cut[i], b.begin() + cut[i + 1]);
	}
	auto rd = [&](auto & r) {
		r.open(p);
		size_t at = 0;
		std::vector<char> g(n + 1);
		while (at < n) {
			size_t k = c.p(1, 3) ? c(10) : c.p(1, 2) ? c(n - at + 1) : BS - at % BS + c(3) - 1;
			k = std::min(k, n - at);
			c.op(k);
			r.read(g.data() + at, k); at += k;
			CHECK(c, r.offset() == at, "offset", r.offset(), at);
			CHECK(c, r.can_read() == (at < n), "can-read", at, n);
		}
		g.resize(n);
		CHECK(c, g == want, "bytes");
		ends(c, r, n);
	};
	if (fwd) { serialization_reader r; rd(r); } else { serialization_reverse_reader r; rd(r); }
	c.nontrivial = n > 100;
	fs::remove_all(root);
}
int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"fwd", fwd}, {"rev", rev}, {"header", head}, {"raw", raw}},
		[] { tpie_init(ALL & ~JOB_MANAGER & ~STREAMS); get_memory_manager().set_limit(1 << 30); }, [] { tpie_finish(ALL & ~JOB_MANAGER & ~STREAMS); }, 60);
}
