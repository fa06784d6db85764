// Bounded differential driver for the pipelining stages.
#include "h.h"
#include <algorithm>
#include <memory>
#include <filesystem>
#include <numeric>
#include <tpie/tpie.h>
#include <tpie/tempname.h>
#include <tpie/file_stream.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/virtual.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/pipelining/chunker.h>
#include <tpie/pipelining/split.h>
#include <tpie/pipelining/join.h>
#include <tpie/pipelining/uniq.h>
#include <tpie/pipelining/merge.h>
#include <tpie/pipelining/ordered_merge.h>
#include <tpie/pipelining/filter.h>
#include <tpie/pipelining/map.h>
#include <tpie/pipelining/internal_buffer.h>
#include <tpie/pipelining/std_glue.h>
#include <tpie/pipelining/numeric.h>
using namespace tpie;
using namespace tpie::pipelining;
typedef uint64_t T;
typedef std::vector<T> V;

static std::string show(const V & v) { std::ostringstream o; for (size_t i = 0; i < v.size() && i < 12; ++i) o << v[i] << ","; if (v.size() > 12) o << "... (" << v.size() << ")"; return o.str(); }
static void same(Case & c, const V & got, const V & want, const char * sig) {
	size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
	CHECK(c, got == want, sig, "first difference at", i, "got", got.size(), "items", show(V(got.begin() + std::min(i, got.size()), got.end())), "want", want.size(), show(V(want.begin() + std::min(i, want.size()), want.end())));
}
static V input(Case & c, size_t cap = 100000) {
	size_t n = c.p(1, 6) ? c(3) : c.p(1, 12) ? 20000 + c(60000) : c(c.size * 8); n = std::min(n, cap);
	V v(n); int mode = c(5);
	for (size_t i = 0; i < n; ++i) switch (mode) { case 0: v[i] = i; break; case 1: v[i] = c(4); break; case 2: v[i] = c.u(); break; case 3: v[i] = i / 5; break; default: v[i] = c.p(3, 4) && i ? v[i - 1] : c(50); }
	c.op("input", n, "kind", mode);
	if (n > 5) c.nontrivial = true;
	return v;
}
struct hold { virtual ~hold() {} };
template <class X> struct box : hold { X x; template <class... A> explicit box(A &&... a) : x(std::forward<A>(a)...) {} };
struct ctx { // owns everything a chain of stages refers to, and the checks on side outputs
	std::vector<std::unique_ptr<hold>> own; std::vector<std::function<void()>> after;
	template <class X, class... A> X & mk(A &&... a) { auto b = std::make_unique<box<X>>(std::forward<A>(a)...); X & r = b->x; own.push_back(std::move(b)); return r; }
};
struct mulf { typedef T argument_type; typedef T result_type; T k; T operator()(T x) const { return x * 2654435761u + k; } };
struct exf { typedef T argument_type; typedef std::pair<T, bool> result_type; T k; result_type operator()(T x) const { return {x + 1, x % k != 0}; } };
struct eqmod { T k; bool operator()(T a, T b) const { return a / k == b / k; } };
template <class dest_t> class flatten_t : public node { dest_t dest; public: typedef V item_type; flatten_t(dest_t d) : dest(std::move(d)) { add_push_destination(this->dest); }
	void push(const V & v) { if (v.empty()) dest.push(T(0) - 7); for (T x : v) dest.push(x); dest.push(T(1000000) + v.size()); } };
template <class dest_t> class flatpair_t : public node { dest_t dest; public: typedef std::pair<T, T> item_type; flatpair_t(dest_t d) : dest(std::move(d)) { add_push_destination(this->dest); }
	void push(const item_type & v) { dest.push(v.first); dest.push(v.second); } };
template <class dest_t> class flatcount_t : public node { dest_t dest; public: typedef std::pair<T, uint64_t> item_type; flatcount_t(dest_t d) : dest(std::move(d)) { add_push_destination(this->dest); }
	void push(const item_type & v) { dest.push(v.first); dest.push(v.second); } };
template <class dest_t> class pairs_t : public node { dest_t dest; T k; public: typedef T item_type; pairs_t(dest_t d, T k) : dest(std::move(d)), k(k) { add_push_destination(this->dest); }
	void push(const T & v) { dest.push(std::make_pair(v, v * k)); } };
// an item-multiplying stage for parallel regions: k copies of x, k depends on x
template <class dest_t> class multi_t : public node { dest_t dest; public: typedef T item_type; multi_t(dest_t d) : dest(std::move(d)) { add_push_destination(this->dest); }
	void push(const T & v) { for (T i = 0; i < v % 4; ++i) dest.push(v + i); } };

typedef virtual_chunk<T, T> VC;
static VC stage(Case & c, ctx & x, V & m, int & sorts) {
	int k = c(25); V o;
	switch (k) {
	case 0: c.op("buffer"); return pipelining::buffer();
	case 1: c.op("reverser"); std::reverse(m.begin(), m.end()); return reverser();
	case 2: c.op("internal_reverser"); std::reverse(m.begin(), m.end()); return internal_reverser();
	case 3: { T d = 2 + c(4); c.op("filter", d); for (T y : m) if (y % d) o.push_back(y); m = o; return filter([d](T y) { return y % d != 0; }); }
	case 4: { T d = c(9); c.op("map", d); for (T & y : m) y = y * 3 + d; return map([d](T y) { return y * 3 + d; }); }
	case 5: { T d = c(9); c.op("lambda", d); mulf f; f.k = d; for (T & y : m) y = f(y); return lambda(f); }
	case 6: { exf f; f.k = 2 + c(4); c.op("exclude_lambda", f.k); for (T y : m) if (f(y).second) o.push_back(f(y).first); m = o; return exclude_lambda(f); }
	case 7: { T d = 1 + c(3); c.op("unique", d); for (T y : m) if (o.empty() || o.back() / d != y / d) o.push_back(y); m = o; return unique(eqmod{d}); }
	case 8: c.op("pipeuniq"); for (T y : m) if (o.empty() || o.back() != y) o.push_back(y); m = o; return VC(item_type<T>() | pipeuniq() | item_type<T>());
	case 9: { T a = 1 + c(5), b = c(9); c.op("linear", a, b); for (T & y : m) y = y * a + b; return linear<T>(a, b); }
	case 10: { if (sorts++ > 1) return VC(item_type<T>()); c.op("sort"); std::sort(m.begin(), m.end()); return VC(sort()); }
	case 11: { if (sorts++ > 1) return VC(item_type<T>()); c.op("sort descending"); std::sort(m.begin(), m.end(), std::greater<T>()); return VC(sort(std::greater<T>())); }
	case 12: { V & w = x.mk<V>(); for (size_t i = 0; i < m.size(); ++i) w.push_back(c(1000)); c.op("merge"); for (size_t i = 0; i < m.size(); ++i) { o.push_back(m[i]); o.push_back(w[i]); } m = o; if (m.size() > 200000) { m.resize(m.size()); }
		return VC(merge(pull_input_vector(w))); }
	case 13: { V & w = x.mk<V>(); c.op("fork"); V want = m; x.after.push_back([&c, &w, want] { same(c, w, want, "pipe-fork"); }); return VC(fork(output_vector(w))); }
	case 14: { auto & fs = x.mk<file_stream<T>>(); auto & tf = x.mk<temp_file>(); fs.open(tf); c.op("tee"); V want = m;
		x.after.push_back([&c, &fs, want] { fs.seek(0); V g; while (fs.can_read()) g.push_back(fs.read()); fs.close(); same(c, g, want, "pipe-tee"); }); return VC(tee(fs)); }
	case 15: c.op("serialization_buffer"); return VC(serialization_buffer());
	case 16: c.op("serialization_reverser"); std::reverse(m.begin(), m.end()); return VC(serialization_reverser());
	case 17: { size_t d = 1 + c(7); c.op("chunker", d); for (size_t i = 0; i < m.size(); ++i) { o.push_back(m[i]); if (i % d == d - 1 || i + 1 == m.size()) o.push_back(T(1000000) + i % d + 1); } m = o;
		return VC(item_type<T>() | chunker(d) | make_pipe_middle<flatten_t>()); }
	case 18: { V & w = x.mk<V>(); T d = 2 + c(5); c.op("unzip", d); V want; for (T y : m) want.push_back(y * d); x.after.push_back([&c, &w, want] { same(c, w, want, "pipe-unzip"); });
		return VC(make_pipe_middle<pairs_t>(d) | unzip(output_vector(w))); }
	case 19: { V & w = x.mk<V>(); for (size_t i = 0; i < m.size(); ++i) w.push_back(c(1000)); c.op("zip"); for (size_t i = 0; i < m.size(); ++i) { o.push_back(m[i]); o.push_back(w[i]); } m = o;
		return VC(item_type<T>() | zip(pull_input_vector(w)) | make_pipe_middle<flatpair_t>()); }
	case 20: { size_t w = 1 + c(6), b = 1 + c(c.p(1, 2) ? 4 : 3000); c.op("parallel map, order kept, workers", w, "buffer", b); for (T & y : m) y = y * 5 + 1; return VC(parallel(map([](T y) { return y * 5 + 1; }), maintain_order, w, b)); }
	case 21: { size_t w = 1 + c(6), b = 1 + c(c.p(1, 2) ? 4 : 3000); c.op("parallel multi, order kept, workers", w, "buffer", b); for (T y : m) for (T i = 0; i < y % 4; ++i) o.push_back(y + i); m = o; return VC(parallel(make_pipe_middle<multi_t>(), maintain_order, w, b)); }
	case 22: { size_t w = 1 + c(6), b = 1 + c(c.p(1, 2) ? 4 : 3000); if (sorts++ > 1) return VC(item_type<T>()); c.op("parallel multi, arbitrary order, sort, workers", w, "buffer", b); for (T y : m) for (T i = 0; i < y % 4; ++i) o.push_back(y + i); m = o; std::sort(m.begin(), m.end());
		return VC(parallel(make_pipe_middle<multi_t>(), arbitrary_order, w, b) | sort()); }
	case 23: { c.op("count_consecutive"); for (size_t i = 0; i < m.size();) { size_t j = i; while (j < m.size() && m[j] == m[i]) ++j; o.push_back(m[i]); o.push_back(j - i); i = j; } m = o; return VC(item_type<T>() | make_pipe_middle<pipelining::bits::count_consecutive_t>() | make_pipe_middle<flatcount_t>()); }
	default: { V & w = x.mk<V>(); std::sort(m.begin(), m.end()); if (sorts++ > 1) { c.op("internal sorted");} size_t n = c(m.size() + 4); for (size_t i = 0; i < n; ++i) w.push_back(m.size() && c.p(3, 4) ? m[c(m.size())] + c(2) : c(100)); std::sort(w.begin(), w.end()); c.op("sort, ordered_merge with", n); o.resize(m.size() + n);
		std::merge(w.begin(), w.end(), m.begin(), m.end(), o.begin()); m = o; return VC(sort() | ordered_merge(pull_input_vector(w) | pull_peek())); }
	}
}
static void chain_s(Case & c) {
	ctx x; V in = input(c), m = in, out; int sorts = 0; size_t n = 1 + c(c.p(1, 2) ? 2 : 5);
	virtual_chunk_begin<T> b = input_vector(in);
	for (size_t i = 0; i < n && m.size() < 300000; ++i) b = b | stage(c, x, m, sorts);
	pipeline p = b | virtual_chunk_end<T>(output_vector(out));
	p();
	same(c, out, m, "pipe-chain"); for (auto & f : x.after) f();
}
// single stages, not behind virtual chunks
static void direct_s(Case & c) {
	V in = input(c), out, m = in, o;
	switch (c(16)) {
	case 0: { c.op("buffer"); pipeline p = input_vector(in) | pipelining::buffer() | output_vector(out); p(); break; }
	case 1: { c.op("reverser"); pipeline p = input_vector(in) | reverser() | output_vector(out); p(); std::reverse(m.begin(), m.end()); break; }
	case 2: { c.op("passive_buffer"); passive_buffer<T> b; pipeline p1 = input_vector(in) | b.input(), p2 = b.output() | pull_output_iterator(std::back_inserter(out)); p1(); break; }
	case 3: { c.op("passive_reverser"); passive_reverser<T> b; pipeline p1 = input_vector(in) | b.input(), p2 = b.output() | pull_output_iterator(std::back_inserter(out)); p1(); std::reverse(m.begin(), m.end()); break; }
	case 4: { c.op("internal_passive_reverser"); internal_passive_reverser<T> b; pipeline p1 = input_vector(in) | b.input(), p2 = b.output() | pull_output_iterator(std::back_inserter(out)); p1(); std::reverse(m.begin(), m.end()); break; }
	case 5: { c.op("passive_serialization_buffer"); passive_serialization_buffer<T> b; pipeline p1 = input_vector(in) | b.input(), p2 = b.output() | pull_output_iterator(std::back_inserter(out)); p1(); break; }
	case 6: { c.op("passive_serialization_reverser"); passive_serialization_reverser<T> b; pipeline p1 = input_vector(in) | b.input(), p2 = b.output() | pull_output_iterator(std::back_inserter(out)); p1(); std::reverse(m.begin(), m.end()); break; }
	case 7: { c.op("passive_sorter"); passive_sorter<T> b; pipeline p1 = input_vector(in) | b.input(), p2 = b.output() | pull_output_iterator(std::back_inserter(out)); p1(); std::sort(m.begin(), m.end()); break; }
	case 8: { T d = 1 + c(3); c.op("pull_unique", d); pipeline p = pull_input_vector(in) | pull_unique(eqmod{d}) | pull_output_iterator(std::back_inserter(out)); p(); for (T y : m) if (o.empty() || o.back() / d != y / d) o.push_back(y); m = o; break; }
	case 9: { c.op("pull_map, pull_peek"); pipeline p = pull_input_vector(in) | pull_map([](T y) { return y * 7 + 1; }) | pull_peek() | pull_output_iterator(std::back_inserter(out)); p(); for (T & y : m) y = y * 7 + 1; break; }
	case 10: { c.op("pull_fork"); V w; pipeline p = pull_input_vector(in) | pull_fork(output_vector(w)) | pull_output_iterator(std::back_inserter(out)); p(); same(c, w, m, "pipe-pull-fork"); break; }
	case 11: { c.op("pull_source"); pipeline p = pull_source(pull_input_vector(in)) | output_vector(out); p(); break; }
	case 12: { T a = c(100), b = a + c(300), d = 1 + c(7); c.op("range", a, b, d); pipeline p = range<T>(a, b, d) | output_vector(out); p(); m.clear(); for (T i = a; i < b; i += d) m.push_back(i); break; }
	case 13: { c.op("iterators"); pipeline p = push_input_iterator(in.begin(), in.end()) | item_type<T>() | typed_push_output_iterator<T>(std::back_inserter(out)); p(); break; }
	case 14: { c.op("pull_input_iterator"); pipeline p = pull_input_iterator(in.begin(), in.end()) | pull_output_iterator(std::back_inserter(out)); p(); break; }
	case 15: { c.op("zero_source"); pipeline p = pull_source(zero_source<T>()) | output_vector(out); p(); m.clear(); break; }
	}
	same(c, out, m, "pipe-direct");
}
// duplication over a join or a split
static void joins_s(Case & c) {
	size_t k = 1 + c(3); std::vector<V> in(k); for (auto & v : in) v = input(c, 3000);
	if (c.p(1, 2)) {
		c.op("join", k); join<T> j; std::vector<pipeline> ps; V out;
		for (auto & v : in) ps.push_back(input_vector(v) | j.sink());
		pipeline p = j.source() | output_vector(out); p();
		// each input arrives once and in its own order, one after another
		size_t n = 0; for (auto & v : in) n += v.size();
		CHECK(c, out.size() == n, "pipe-join", "got", out.size(), "items, pushed", n);
		std::vector<size_t> ord(k); std::iota(ord.begin(), ord.end(), 0); bool ok = false;
		do { V w; for (size_t i : ord) w.insert(w.end(), in[i].begin(), in[i].end()); ok = ok || w == out; } while (std::next_permutation(ord.begin(), ord.end()));
		CHECK(c, ok, "pipe-join", "the items are not those of the inputs, each in order");
	} else {
		c.op("split", k); split<T> s; std::vector<V> out(k); std::vector<pipeline> ps;
		pipeline p = input_vector(in[0]) | s.sink();
		for (auto & o : out) ps.push_back(s.source() | output_vector(o));
		p(); for (auto & o : out) same(c, o, in[0], "pipe-split");
	}
}
// file streams as sources and sinks
static void file_s(Case & c) {
	V in = input(c), out, m = in; temp_file a, b; file_stream<T> fi, fo;
	fi.open(a); fo.open(b); for (T y : in) fi.write(y);
	auto rd = [&](file_stream<T> & f) { f.seek(0); while (f.can_read()) out.push_back(f.read()); };
	size_t off = c.p(1, 2) ? 0 : c(in.size() + 1); bool reset = c.p(1, 3);
	switch (c(8)) {
	case 0: { fi.seek(off); c.op("input, output from", off, reset); pipeline p = pipelining::input(fi, reset ? stream_options(STREAM_RESET) : stream_options()) | output(fo); p(); rd(fo); if (!reset) m.erase(m.begin(), m.begin() + off); break; }
	case 1: { fi.seek(off); c.op("pull_input, pull_output from", off, reset); pipeline p = pull_input(fi, reset ? stream_options(STREAM_RESET) : stream_options()) | pull_output(fo); p(); rd(fo); if (!reset) m.erase(m.begin(), m.begin() + off); break; }
	case 2: { c.op("pull_reverse_input", reset); bool e = reset; if (e) fi.seek(off); else fi.seek(off); pipeline p = pull_reverse_input(fi, e ? stream_options(STREAM_RESET) : stream_options()) | pull_output(fo); p(); rd(fo); if (!e) m.resize(off); std::reverse(m.begin(), m.end()); break; }
	case 3: { fi.close(); fo.close(); c.op("named_input, named_output"); pipeline p = named_input(a.path()) | named_output<T>(b.path()); p(); file_stream<T> r; r.open(b.path()); rd(r); break; }
	case 4: { fi.close(); c.op("named_pull_input"); pipeline p = named_pull_input<T>(a.path()) | pull_output(fo); p(); rd(fo); break; }
	case 5: { fi.seek(0); c.op("input, tee"); V w; pipeline p = pipelining::input(fi) | tee(fo) | output_vector(w); p(); rd(fo); same(c, w, m, "pipe-file"); break; }
	case 6: { serialization_writer wr; std::string f = a.path() + ".ser"; wr.open(f); c.op("serialization_output, serialization_input"); { pipeline p = input_vector(in) | serialization_output<T>(wr); p(); } wr.close(); serialization_reader r; r.open(f); { pipeline p = serialization_input(r) | output_vector(out); p(); } r.close(); ::unlink(f.c_str()); break; }
	case 7: { fi.seek(off); c.op("closed after", off); pipeline p = pipelining::input(fi, stream_options(STREAM_CLOSE)) | output_vector(out); p(); CHECK(c, !fi.is_open(), "pipe-file-close", "stream still open"); m.erase(m.begin(), m.begin() + off); break; }
	}
	same(c, out, m, "pipe-file");
}
// a bounded internal queue between two halves that run in the same phase
template <class dest_t, class fact_t> class drain_t : public node { dest_t dest; typename fact_t::constructed_type src; size_t k, n = 0; public: typedef T item_type;
	drain_t(dest_t d, fact_t f, size_t k) : dest(std::move(d)), src(f.construct()), k(k) { add_push_destination(this->dest); add_pull_source(src); }
	void push(const T & y) { dest.push(y); if (++n % k == 0) while (src.can_pull()) dest.push(src.pull()); } };
static void sers_s(Case & c) {
	std::vector<std::string> in, out; size_t n = c(5) ? c(c.size * 6) : c(2); for (size_t i = 0; i < n; ++i) in.push_back(std::string(c(c.p(1, 20) ? 5000 : 30), 'a' + c(26))); auto m = in;
	c.op("strings", n); if (n > 5) c.nontrivial = true;
	switch (c(4)) {
	case 0: { c.op("serialization_sort"); pipeline p = input_vector(in) | serialization_sort() | output_vector(out); p(); std::sort(m.begin(), m.end()); break; }
	case 1: { c.op("serialization_reverser"); pipeline p = input_vector(in) | serialization_reverser() | output_vector(out); p(); std::reverse(m.begin(), m.end()); break; }
	case 2: { c.op("serialization_buffer"); pipeline p = input_vector(in) | serialization_buffer() | output_vector(out); p(); break; }
	case 3: { c.op("serialization_passive_sorter"); serialization_passive_sorter<std::string> s; pipeline p1 = input_vector(in) | s.input(), p2 = s.output() | pull_output_iterator(std::back_inserter(out)); p1(); std::sort(m.begin(), m.end()); break; }
	}
	CHECK(c, out.size() == m.size(), "pipe-strings", "got", out.size(), "want", m.size());
	for (size_t i = 0; i < m.size(); ++i) CHECK(c, out[i] == m[i], "pipe-strings", "item", i, out[i].substr(0, 30), m[i].substr(0, 30));
}

static std::string scratch;
int main(int argc, char ** argv) {
	char d[] = "/tmp/tpv-pipe-XXXXXX"; scratch = mkdtemp(d);
	int rc = h_main(argc, argv, {{"chain", chain_s, 4}, {"direct", direct_s, 2}, {"joins", joins_s}, {"file", file_s, 2}, {"strings", sers_s}},
		[] { tpie::tpie_init(); tpie::get_memory_manager().set_limit(1 << 30); tempname::set_default_path(scratch); },
		[] {}, 60, 60);
	std::error_code ec; std::filesystem::remove_all(scratch, ec);
	return rc;
}
