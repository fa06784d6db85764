// Bounded differential driver for streams, shared files, external stack and queue.
#include "h.h"
#include <algorithm>
#include <deque>
#include <memory>
#include <tpie/tpie.h>
#include <tpie/file.h>
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/tempname.h>
using namespace tpie;

struct five { unsigned char c[5]; bool operator==(const five & o) const { return !memcmp(c, o.c, 5); } };
struct big { uint64_t a[5]; bool operator==(const big & o) const { return !memcmp(a, o.a, sizeof a); } };
template <class T> static T val(Case & c) { T t; unsigned char * p = (unsigned char *)&t; uint64_t x = c.u(); for (size_t i = 0; i < sizeof t; ++i) p[i] = i < 8 ? x >> (8 * i) : x >> (i % 8); return t; }
static std::string show(uint64_t v) { return std::to_string(v); }
template <class T> static std::string show(const T & t) { std::string s; for (size_t i = 0; i < sizeof t; ++i) s += "0123456789abcdef"[((unsigned char *)&t)[i] & 15]; return s; }
template <class T> static double factor(Case & c) { size_t bi = 1 + c(c.p(1, 3) ? 3 : 12); if (c.p(1, 8)) bi = get_block_size() / sizeof(T) + 1 + c(4); return (bi * sizeof(T) + (c.p(1, 2) ? c(sizeof(T)) : 0) + 0.5) / (double)get_block_size(); }
static std::string tmpname(int i) { return std::string(getenv("TMPDIR")) + "/s" + std::to_string(i); }

// one stream against a vector; X: extra checks for shared files
template <class S, class T> struct Follow {
	S & s; std::vector<T> & m; size_t pos = 0; const char * who; bool cap; // cap: may append
	Follow(S & s, std::vector<T> & m, const char * w) : s(s), m(m), who(w), cap(true) {}
	void state(Case & c, bool sized = true) {
		CHECK(c, s.offset() == pos, std::string(who) + "-offset", s.offset(), pos);
		CHECK(c, s.can_read() == (pos < m.size()), std::string(who) + "-can-read", pos, m.size());
		CHECK(c, s.can_read_back() == (pos > 0), std::string(who) + "-can-read-back", pos);
		if (sized) CHECK(c, s.size() == m.size(), std::string(who) + "-size", s.size(), m.size());
	}
	void read(Case & c) {
		c.op("read");
		bool e = false;
		try { T v = s.read(); CHECK(c, pos < m.size(), std::string(who) + "-read-past-end", pos, m.size(), "returned", show(v)); CHECK(c, v == m[pos], std::string(who) + "-read", pos, show(v), "stored", show(m[pos])); ++pos; }
		catch (end_of_stream_exception &) { e = true; }
		if (e) { CHECK(c, pos >= m.size(), std::string(who) + "-read-end", pos, m.size()); c.nontrivial = true; }
	}
	void back(Case & c) {
		c.op("read_back");
		bool e = false;
		try { T v = s.read_back(); CHECK(c, pos > 0, std::string(who) + "-back-before-start"); CHECK(c, v == m[pos - 1], std::string(who) + "-back", pos, show(v), "stored", show(m[pos - 1])); --pos; }
		catch (end_of_stream_exception &) { e = true; }
		if (e) CHECK(c, pos == 0, std::string(who) + "-back-end", pos);
	}
	void put(Case & c, T v) { if (pos == m.size()) m.push_back(v); else m[pos] = v; ++pos; }
	void write(Case & c) { T v = val<T>(c); c.op("write", show(v)); s.write(v); put(c, v); }
	void writes(Case & c, size_t n) { std::vector<T> d; for (size_t i = 0; i < n; ++i) d.push_back(val<T>(c)); c.op("write-array", n); s.write(d.begin(), d.end()); for (auto & v : d) put(c, v); }
	void reads(Case & c, size_t n) {
		c.op("read-array", n);
		std::vector<T> d(n); bool e = false;
		try { s.read(d.begin(), d.end()); } catch (end_of_stream_exception &) { e = true; }
		CHECK(c, e == (pos + n > m.size()), std::string(who) + "-read-array-end", pos, n, m.size(), e);
		if (!e) { for (size_t i = 0; i < n; ++i) CHECK(c, d[i] == m[pos + i], std::string(who) + "-read-array", pos + i); pos += n; }
		else { c.nontrivial = true; resync(c); }
	}
	void resync(Case & c) { pos = s.offset(); CHECK(c, pos <= m.size(), std::string(who) + "-offset-past-end", pos, m.size()); }
};

template <class S> struct kind { static const bool compressed_api = true; };
template <class T> struct kind<uncompressed_stream<T>> { static const bool compressed_api = false; };

template <class T> static void ustream_t(Case & c) {
	typedef uncompressed_stream<T> S;
	double f = factor<T>(c);
	temp_file tf; // outlives the stream
	std::unique_ptr<S> s(new S(f)); std::vector<T> m;
	bool named = c.p(1, 2);
	if (named) s->open(tf); else s->open();
	const size_t bi = s->block_items();
	c.op("block-items", bi, "item", sizeof(T));
	std::unique_ptr<Follow<S, T>> g(new Follow<S, T>(*s, m, "ustream"));
	size_t n = 8 + c(c.size * 2);
	bool rw = true;
	for (size_t k = 0; k < n; ++k) {
		size_t & pos = g->pos;
		switch (c(14)) {
		case 0: case 1: for (size_t i = 1 + c(3); i--; ) g->read(c); break;
		case 2: case 3: for (size_t i = 1 + c(3); i--; ) g->back(c); break;
		case 4: case 5: if (rw) for (size_t i = 1 + c(c.p(1, 3) ? bi + 2 : 3); i--; ) g->write(c); break;
		case 6: if (rw) g->writes(c, c(2 * bi + 2)); break;
		case 7: g->reads(c, c(2 * bi + 2)); break;
		case 8: { // absolute
			stream_offset_type o = c.p(1, 6) ? (stream_offset_type)(m.size() + 1 + c(3)) : c.p(1, 10) ? -1 - (stream_offset_type)c(3) : (stream_offset_type)c(m.size() + 1);
			c.op("seek", o); bool t = false; try { s->seek(o); } catch (io_exception &) { t = true; }
			CHECK(c, t == (o < 0 || o > (stream_offset_type)m.size()), "ustream-seek-range", o, m.size()); if (!t) pos = o; break; }
		case 9: { stream_offset_type o = c.p(1, 6) ? 1 : -(stream_offset_type)c(m.size() + 2); c.op("seek-end", o); bool t = false; try { s->seek(o, S::end); } catch (io_exception &) { t = true; }
			bool bad = o > 0 || -o > (stream_offset_type)m.size(); CHECK(c, t == bad, "ustream-seek-end-range", o, m.size()); if (!t) pos = m.size() + o; break; }
		case 10: case 11: { stream_offset_type o = c.p(1, 3) ? (stream_offset_type)c(2 * m.size() + 3) - (stream_offset_type)m.size() - 1 : (stream_offset_type)c(5) - 2; c.op("seek-current", o);
			bool t = false; try { s->seek(o, S::current); } catch (io_exception &) { t = true; }
			stream_offset_type to = (stream_offset_type)pos + o; bool bad = to < 0 || to > (stream_offset_type)m.size(); CHECK(c, t == bad, "ustream-seek-current-range", "from", pos, "by", o, "size", m.size()); if (!t) pos = to; break; }
		case 12: if (rw) { size_t z = c(m.size() + 1); c.op("truncate", z); s->truncate(z); m.resize(z); pos = std::min(pos, z); } break;
		case 13: if (pos < m.size()) { c.op("peek"); T v = s->peek(); CHECK(c, v == m[pos], "ustream-peek", pos); } else if (named && c.p(1, 3)) {
			c.op("reopen"); s->close(); rw = c.p(3, 4); s->open(tf, rw ? access_read_write : access_read); pos = 0; c.nontrivial = true; } break;
		}
		if (m.size() > bi) c.nontrivial = true;
		g->state(c);
	}
	s->seek(0); g->pos = 0;
	while (g->pos < m.size()) g->read(c);
	g->state(c);
}
static void ustream_s(Case & c) {
	switch (c(4)) { case 0: ustream_t<uint64_t>(c); break; case 1: ustream_t<uint32_t>(c); break; case 2: ustream_t<five>(c); break; case 3: ustream_t<big>(c); break; }
}

// several streams on one file
template <class T> static void shared_t(Case & c) {
	typedef file<T> F; typedef typename F::stream S;
	double f = factor<T>(c);
	temp_file tf;
	F fl(f); std::vector<T> m;
	fl.open(tf.path(), access_read_write);
	const size_t bi = fl.block_items(), K = 1 + c(4);
	c.op("block-items", bi, "item", sizeof(T), "streams", K);
	std::vector<std::unique_ptr<S>> st(K); std::vector<size_t> pos(K, 0);
	auto fresh = [&](size_t k) { if (c.p(1, 2)) st[k].reset(new S(fl)); else { st[k].reset(new S()); st[k]->attach(fl); } pos[k] = 0; };
	for (size_t k = 0; k < K; ++k) fresh(k);
	size_t n = 8 + c(c.size * 3);
	for (size_t q = 0; q < n; ++q) {
		size_t k = c(K);
		if (st[k]) {
			Follow<S, T> g(*st[k], m, "shared"); g.pos = pos[k]; S * s = st[k].get();
			c.op("s", k);
			switch (c(13)) {
			case 0: case 1: for (size_t i = 1 + c(3); i--; ) g.read(c); break;
			case 2: for (size_t i = 1 + c(3); i--; ) g.back(c); break;
			case 3: case 4: if (g.pos <= m.size()) for (size_t i = 1 + c(c.p(1, 3) ? bi + 2 : 3); i--; ) g.write(c); break;
			case 5: if (g.pos <= m.size()) g.writes(c, c(2 * bi + 2)); break;
			case 6: if (g.pos <= m.size()) g.reads(c, c(2 * bi + 2)); break;
			case 7: { stream_offset_type o = c.p(1, 6) ? (stream_offset_type)(m.size() + 1 + c(3)) : (stream_offset_type)c(m.size() + 1); c.op("seek", o); bool t = false; try { s->seek(o); } catch (io_exception &) { t = true; }
				CHECK(c, t == (o > (stream_offset_type)m.size()), "shared-seek-range", o, m.size()); if (!t) g.pos = o; break; }
			case 8: { stream_offset_type o = -(stream_offset_type)c(m.size() + 2); c.op("seek-end", o); bool t = false; try { s->seek(o, S::end); } catch (io_exception &) { t = true; }
				bool bad = -o > (stream_offset_type)m.size(); CHECK(c, t == bad, "shared-seek-end-range", o, m.size()); if (!t) g.pos = m.size() + o; break; }
			case 9: { stream_offset_type o = c.p(1, 3) ? (stream_offset_type)c(2 * m.size() + 3) - (stream_offset_type)m.size() - 1 : (stream_offset_type)c(5) - 2; c.op("seek-current", o);
				bool t = false; try { s->seek(o, S::current); } catch (io_exception &) { t = true; }
				stream_offset_type to = (stream_offset_type)g.pos + o; bool bad = to < 0 || to > (stream_offset_type)m.size(); CHECK(c, t == bad, "shared-seek-current-range", "from", g.pos, "by", o, "size", m.size()); if (!t) g.pos = to; break; }
			case 10: c.op("drop"); st[k].reset(); break;
			case 11: c.op("detach"); s->detach(); CHECK(c, !s->attached(), "shared-detached"); s->attach(fl); g.pos = 0; break;
			case 12: if (g.pos < m.size()) { T v = val<T>(c); c.op("mutable", show(v)); if (c.p(0, 1)) {} s->seek(0, S::current); T & r = s->read_mutable(); CHECK(c, r == m[g.pos], "shared-read-mutable"); ++g.pos; } break;
			}
			pos[k] = g.pos;
			if (st[k]) g.state(c);
		} else {
			if (c.p(1, 5)) { // with no stream in between the file can be truncated and reopened
				bool none = true; for (auto & x : st) if (x) none = false;
				if (none) { if (c.p(1, 2)) { size_t z = c(m.size() + 1); c.op("truncate", z); fl.truncate(z); m.resize(z); } c.op("reopen"); fl.close(); fl.open(tf.path(), access_read_write); c.nontrivial = true; CHECK(c, fl.size() == m.size(), "shared-reopen-size", fl.size(), m.size()); }
			}
			c.op("new", k); fresh(k);
			if (m.size() && c.p(1, 3)) { stream_offset_type o = c(m.size() + 1); c.op("at", o); st[k].reset(new S(fl, o)); pos[k] = o; }
		}
		if (K > 1 && m.size() > bi) c.nontrivial = true;
		CHECK(c, fl.size() == m.size(), "shared-file-size", fl.size(), m.size());
	}
	for (auto & x : st) x.reset();
	{ S s(fl); Follow<S, T> g(s, m, "shared"); while (g.pos < m.size()) g.read(c); g.state(c); }
	fl.close();
	uncompressed_stream<T> u(f); u.open(tf.path(), access_read); // another view of the file on disk
	CHECK(c, u.size() == m.size(), "shared-disk-size", u.size(), m.size());
	for (size_t i = 0; i < m.size(); ++i) CHECK(c, u.read() == m[i], "shared-disk-item", i);
}
static void shared_s(Case & c) {
	switch (c(3)) { case 0: shared_t<uint64_t>(c); break; case 1: shared_t<uint32_t>(c); break; case 2: shared_t<five>(c); break; }
}

// the library's default stream, not compressed and compressed
template <class T> static void cstream_t(Case & c) {
	typedef file_stream<T> S;
	double f = factor<T>(c);
	temp_file tf; std::unique_ptr<S> s(new S(f)); std::vector<T> m;
	int cf = c(3); compression_flags fl = cf == 0 ? compression_none : cf == 1 ? compression_normal : compression_all;
	auto open = [&](bool rw) { s->open(tf, rw ? access_read_write : access_read, 0, access_sequential, fl); };
	open(true);
	const size_t bi = s->block_items();
	c.op("block-items", bi, "item", sizeof(T), "compression", cf);
	const bool comp = cf != 0;
	std::unique_ptr<Follow<S, T>> g(new Follow<S, T>(*s, m, comp ? "cstream" : "fstream"));
	std::vector<std::pair<stream_position, size_t>> marks;
	size_t n = 8 + c(c.size * 2); bool rw = true; bool dull = c.p(1, 3);
	for (size_t k = 0; k < n; ++k) {
		size_t & pos = g->pos;
		switch (c(13)) {
		case 0: case 1: for (size_t i = 1 + c(c.p(1, 4) ? bi + 1 : 3); i--; ) g->read(c); break;
		case 2: case 3: for (size_t i = 1 + c(c.p(1, 4) ? bi + 1 : 3); i--; ) g->back(c); break;
		case 4: case 5: if (rw) { if (comp && pos != m.size()) { c.op("seek-end"); s->seek(0, S::end); pos = m.size(); }
			for (size_t i = 1 + c(c.p(1, 3) ? 2 * bi + 2 : 3); i--; ) { if (dull) { T v; memset(&v, 3, sizeof v); c.op("write-same"); s->write(v); g->put(c, v); } else g->write(c); } } break;
		case 6: if (rw && (!comp || pos == m.size())) g->writes(c, c(2 * bi + 2)); break;
		case 7: g->reads(c, c(2 * bi + 2)); break;
		case 8: { if (comp) { bool e = c.p(1, 2); c.op(e ? "seek-end" : "seek-begin"); s->seek(0, e ? S::end : S::beginning); pos = e ? m.size() : 0; }
			else { stream_offset_type o = c(m.size() + 1); c.op("seek", o); s->seek(o); pos = o; } break; }
		case 9: { c.op("mark"); marks.push_back({s->get_position(), pos}); CHECK(c, marks.back().first.offset() == pos, "cstream-position-offset", marks.back().first.offset(), pos); break; }
		case 10: if (!marks.empty()) { size_t i = c(marks.size()); c.op("to-mark", marks[i].second); s->set_position(marks[i].first); pos = marks[i].second; } break;
		case 11: if (rw) { // truncate to nothing, here, a mark, or anywhere if not compressed
			int how = c(comp ? 3 : 4); size_t z = 0; 
			if (how == 0) { if (c.p(1, 2)) { c.op("truncate-0"); s->truncate(0); } else break; }
			else if (how == 1) { z = pos; c.op("truncate-here", z); s->truncate(s->get_position()); }
			else if (how == 2) { if (marks.empty()) break; size_t i = c(marks.size()); z = marks[i].second; c.op("truncate-mark", z); s->truncate(marks[i].first); }
			else { z = c(m.size() + 1); c.op("truncate", z); s->truncate(z); }
			m.resize(z); pos = std::min(pos, z); c.nontrivial = true;
			std::vector<std::pair<stream_position, size_t>> keep; for (auto & x : marks) if (x.second < z) keep.push_back(x); marks = keep; } break;
		case 12: if (pos < m.size()) { c.op("peek"); T v = s->peek(); CHECK(c, v == m[pos], "cstream-peek", pos); } else if (c.p(1, 3)) {
			c.op("reopen"); s->close(); rw = c.p(3, 4); if (c.p(1, 2)) { g.reset(); s.reset(new S(f)); } open(rw); g.reset(new Follow<S, T>(*s, m, comp ? "cstream" : "fstream")); c.nontrivial = true; } break;
		}
		if (m.size() > 2 * bi) c.nontrivial = true;
		g->state(c);
	}
	g->state(c);
	s->seek(0); g->pos = 0;
	while (g->pos < m.size()) g->read(c);
	g->read(c);
	while (g->pos > 0) g->back(c);
	g->state(c);
}
static void cstream_s(Case & c) {
	switch (c(4)) { case 0: cstream_t<uint64_t>(c); break; case 1: cstream_t<uint32_t>(c); break; case 2: cstream_t<five>(c); break; case 3: cstream_t<big>(c); break; }
}

template <class T> static void xstack_t(Case & c) {
	double f = factor<T>(c); temp_file tf; std::vector<T> m;
	std::unique_ptr<tpie::stack<T>> s(new tpie::stack<T>(tf, f));
	size_t n = 10 + c(c.size * 4); bool grow = true;
	const size_t bi = file_stream<T>::block_size(f) / sizeof(T);
	c.op("block-items", bi, "item", sizeof(T));
	for (size_t k = 0; k < n; ++k) {
		if (c.p(1, 10)) grow = !grow;
		int w = c(12);
		if (w < (grow ? 6 : 3)) { size_t i = 1 + c(c.p(1, 4) ? 2 * bi + 2 : 3); c.op("push", i); while (i--) { T v = val<T>(c); s->push(v); m.push_back(v); } }
		else if (w < 10) { size_t i = 1 + c(c.p(1, 4) ? 2 * bi + 2 : 3); c.op("pop", i);
			while (i--) { bool e = false; try { T v = s->pop(); CHECK(c, !m.empty(), "stack-pop-empty"); CHECK(c, v == m.back(), "stack-pop", m.size(), show(v), show(m.back())); m.pop_back(); } catch (end_of_stream_exception &) { e = true; } if (e) { CHECK(c, m.empty(), "stack-pop-end", m.size()); break; } } }
		else if (w == 10) { bool e = false; c.op("top"); try { T v = s->top(); CHECK(c, !m.empty(), "stack-top-empty"); CHECK(c, v == m.back(), "stack-top", m.size()); } catch (end_of_stream_exception &) { e = true; } if (e) CHECK(c, m.empty(), "stack-top-end"); }
		else if (c.p(1, 2)) { c.op("reopen"); s.reset(); s.reset(new tpie::stack<T>(tf, f)); c.nontrivial = true; }
		CHECK(c, s->size() == m.size() && s->empty() == m.empty(), "stack-size", s->size(), m.size());
		if (m.size() > bi) c.nontrivial = true;
	}
	while (!m.empty()) { T v = s->pop(); CHECK(c, v == m.back(), "stack-pop", m.size()); m.pop_back(); }
	CHECK(c, s->empty(), "stack-empty");
}
static void stack_s(Case & c) { switch (c(3)) { case 0: xstack_t<uint64_t>(c); break; case 1: xstack_t<five>(c); break; case 2: xstack_t<big>(c); break; } }

template <class T> static void queue_t(Case & c) {
	std::unique_ptr<tpie::queue<T>> q(new tpie::queue<T>(access_sequential, c.p(1, 2) ? compression_normal : compression_none));
	std::deque<T> m; const size_t bi = get_block_size() / sizeof(T);
	size_t n = 20 + c(c.size * 2); bool grow = true;
	for (size_t k = 0; k < n; ++k) {
		if (c.p(1, 6)) grow = !grow;
		size_t i = 1 + c(c.p(1, 3) ? 2 * bi + 2 : c.p(1, 2) ? bi / 2 + 1 : 5);
		if (c.p(grow ? 3 : 1, 4)) { c.op("push", i); while (i--) { T v = val<T>(c); q->push(v); m.push_back(v); } }
		else { c.op("pop", i); while (i-- && !m.empty()) { if (c.p(1, 8)) { T w = q->front(); CHECK(c, w == m.front(), "queue-front", m.size()); } T v = q->pop(); CHECK(c, v == m.front(), "queue-pop", m.size(), show(v), show(m.front())); m.pop_front(); } }
		if (m.empty() && c.p(1, 2)) { bool e = false, f = c.p(1, 3); c.op(f ? "front-empty" : "pop-empty"); try { if (f) q->front(); else q->pop(); } catch (end_of_stream_exception &) { e = true; } CHECK(c, e, "queue-end"); }
		CHECK(c, q->size() == m.size() && q->empty() == m.empty(), "queue-size", q->size(), m.size());
		if (m.size() > 2 * bi) c.nontrivial = true;
	}
	while (!m.empty()) { T v = q->pop(); CHECK(c, v == m.front(), "queue-pop", m.size()); m.pop_front(); }
	CHECK(c, q->empty() && q->size() == 0, "queue-empty");
}
static void queue_s(Case & c) {
	
	if (c.p(1, 2)) queue_t<uint64_t>(c); else queue_t<big>(c);
}

int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"ustream", ustream_s}, {"shared", shared_s}, {"cstream", cstream_s}, {"stack", stack_s}, {"queue", queue_s}},
	              [] { set_block_size(640); tpie_init(ALL & ~JOB_MANAGER); get_memory_manager().set_limit(1 << 30); });
}
