// Bounded differential driver for file accessors: partial transfers, OS errors,
// reopening stream files, headers, byte streams.
// LINK: -Wl,--wrap=open -Wl,--wrap=open64 -Wl,--wrap=close -Wl,--wrap=read -Wl,--wrap=write -Wl,--wrap=lseek64 -Wl,--wrap=lseek -Wl,--wrap=ftruncate64 -Wl,--wrap=ftruncate -Wl,--wrap=fstat64 -Wl,--wrap=fstat
#include "h.h"
#include <algorithm>
#include <map>
#include <memory>
#include <fcntl.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/stat.h>
#include <tpie/tpie.h>
#include <tpie/file_manager.h>
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/stream_header.h>
#include <tpie/file_accessor/file_accessor.h>
#include <tpie/file_accessor/byte_stream_accessor.h>
using namespace tpie;

// what the operating system does for the next calls
static int fds = 0;
static Case * part = 0;              // partial transfers, drawn from this case
static int countdown = -1, err = 0;  // the countdown-th call fails with err
static bool failed = false;
static bool trip() { if (countdown < 0) return false; if (countdown-- > 0) return false; failed = true; errno = err; return true; }
extern "C" {
int __real_close(int); int __real_open64(const char *, int, ...);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
off64_t __real_lseek64(int, off64_t, int); int __real_ftruncate64(int, off64_t); int __real_fstat64(int, struct stat64 *);
int __wrap_open64(const char * p, int f, ...) {
	va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
	if (trip()) return -1;
	int r = __real_open64(p, f, m);
	if (r >= 0) ++fds;
	return r;
}
int __wrap_open(const char * p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __wrap_open64(p, f, m); }
int __wrap_close(int fd) { int r = __real_close(fd); if (r == 0) --fds; if (trip()) return -1; return r; }
ssize_t __wrap_read(int fd, void * d, size_t n) { if (trip()) return -1; if (part && n > 1 && (*part)(3)) n = 1 + (*part)(std::min<size_t>(n, (*part)(2) ? 9 : n)); return __real_read(fd, d, n); }
ssize_t __wrap_write(int fd, const void * d, size_t n) { if (trip()) return -1; if (part && n > 1 && (*part)(3)) n = 1 + (*part)(std::min<size_t>(n, (*part)(2) ? 9 : n)); return __real_write(fd, d, n); }
off64_t __wrap_lseek64(int fd, off64_t o, int w) { if (trip()) return -1; return __real_lseek64(fd, o, w); }
off64_t __wrap_lseek(int fd, off64_t o, int w) { return __wrap_lseek64(fd, o, w); }
int __wrap_ftruncate64(int fd, off64_t o) { if (trip()) return -1; return __real_ftruncate64(fd, o); }
int __wrap_ftruncate(int fd, off64_t o) { return __wrap_ftruncate64(fd, o); }
int __wrap_fstat64(int fd, struct stat64 * s) { if (trip()) return -1; return __real_fstat64(fd, s); }
int __wrap_fstat(int fd, struct stat64 * s) { return __wrap_fstat64(fd, s); }
}
struct Os { Os(Case & c) { part = &c; countdown = -1; failed = false; } ~Os() { part = 0; countdown = -1; } };

static std::string tmpname(int i) { return std::string(getenv("TMPDIR")) + "/x" + std::to_string(i); }
typedef std::vector<unsigned char> bytes;
static bytes slurp(const std::string & p) {
	bytes b; FILE * f = fopen(p.c_str(), "rb");
	if (!f) return b;
	unsigned char t[4096]; size_t n;
	while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n);
	fclose(f); return b;
}
static void spit(const std::string & p, const bytes & b) { FILE * f = fopen(p.c_str(), "wb"); if (!b.empty()) fwrite(&b[0], 1, b.size(), f); fclose(f); }
static bytes rnd(Case & c, size_t n) { bytes b(n); for (auto & x : b) x = c.u(); return b; }

// raw accessor: transfers, position, size and truncation, with partial transfers and errors
static void raw_s(Case & c) {
	Os os(c);
	std::string p = tmpname(0);
	unlink(p.c_str());
	{
		file_accessor::raw_file_accessor a;
		a.open_rw_new(p);
		bytes m; size_t pos = 0; bool known = true;
		size_t n = 4 + c(c.size);
		auto blank = [&] { a.seek_i(0); pos = 0; };
		for (size_t s = 0; s < n; ++s) {
			if (c.p(1, 12)) { countdown = c(4); err = c.p(1, 3) ? ENOSPC : EIO; }
			failed = false;
			bool want_err = false; bool threw = false; int k = c(6);
			size_t len = c.p(1, 30) ? c(20000) : c(120);
			bytes keep = m;
			size_t lo = 0, hi = 0;
			try {
				switch (k) {
				case 0: { bytes d = rnd(c, len); c.op("write", pos, len); lo = pos; hi = pos + len; a.write_i(d.data(), len); if (len) { if (m.size() < hi) m.resize(hi, 0); std::copy(d.begin(), d.end(), m.begin() + pos); } pos += len; break; }
				case 1: case 2: { c.op("read", pos, len); bytes d(len + 8, 7); want_err = len > 0 && pos + len > m.size();
					a.read_i(d.data(), len);
					CHECK(c, !want_err, "raw-read-past-end", pos, len, m.size());
					for (size_t i = 0; i < len; ++i) CHECK(c, d[i] == m[pos + i], "raw-read-content", "at", pos + i);
					for (size_t i = len; i < len + 8; ++i) CHECK(c, d[i] == 7, "raw-read-beyond-buffer");
					pos += len; break; }
				case 3: { size_t to = c(m.size() + 20); c.op("seek", to); a.seek_i(to); pos = to; break; }
				case 4: { c.op("size"); size_t z = a.file_size_i(); CHECK(c, z == m.size(), "raw-size", z, m.size()); break; }
				case 5: { size_t to = c(m.size() + 30); c.op("truncate", to); lo = std::min(to, m.size()); hi = std::max(to, m.size()); a.truncate_i(to); m.resize(to, 0); break; }
				}
			} catch (io_exception & e) {
				threw = true;
				CHECK(c, failed || want_err, "raw-spurious-error", e.what());
				if (failed) CHECK(c, (err == ENOSPC) == (dynamic_cast<out_of_space_exception *>(&e) != 0), "raw-error-kind");
			}
			if (failed) { c.nontrivial = true; CHECK(c, threw, "raw-error-swallowed", "errno", err, "operation", k); }
			if (threw) {
				// outside the range being written nothing may have changed
				countdown = -1;
				bytes now = slurp(p);
				for (size_t i = 0; i < keep.size(); ++i) if (i < lo || i >= hi) CHECK(c, i < now.size() && now[i] == keep[i], "raw-error-damage", i);
				CHECK(c, now.size() <= std::max(keep.size(), hi), "raw-error-size");
				m = now; blank();
			}
		}
		countdown = -1;
		if (c.p(1, 4)) { countdown = 0; err = EIO; failed = false; bool t = false; try { a.close_i(); } catch (io_exception &) { t = true; } CHECK(c, t, "raw-close-error-swallowed"); }
		else a.close_i();
		countdown = -1;
		CHECK(c, !a.is_open(), "raw-still-open");
		CHECK(c, slurp(p) == m, "raw-final-content");
		c.nontrivial = true; (void)known;
	}
}

// opening and closing under errors: count of open files == open descriptors
static void opens_s(Case & c) {
	Os os(c);
	file_manager & fm = get_file_manager();
	size_t used0 = fm.used(); int fds0 = fds;
	unlink(tmpname(0).c_str()); unlink(tmpname(1).c_str());
	{
		typedef file_accessor::raw_file_accessor raw;
		raw f[2]; bool on[2] = {false, false};
		std::unique_ptr<file_accessor::stream_accessor<raw>> sa; bool son = false;
		size_t n = 3 + c(12);
		for (size_t s = 0; s < n; ++s) {
			int i = c(2), j = c(2); failed = false; countdown = -1;
			if (c.p(1, 3)) { countdown = c(5); err = c.p(1, 3) ? EMFILE : EIO; }
			bool ok = false, threw = false, ex = access(tmpname(j).c_str(), F_OK) == 0; int k = c(6);
			size_t before = ex ? slurp(tmpname(j)).size() : 0;
			try {
				switch (k) {
				case 0: case 1: if (on[i]) break; {
					int how = c(4); c.op("open", i, how, j); ok = true;
					if (how == 0) f[i].open_wo(tmpname(j)); else if (how == 1) f[i].open_rw_new(tmpname(j)); else if (how == 2) f[i].open_ro(tmpname(j)); else ok = f[i].try_open_rw(tmpname(j));
					CHECK(c, ok == (how < 2 || ex), "opens-result", how, ex);
					if (ok) { on[i] = true; size_t z = slurp(tmpname(j)).size(); CHECK(c, z == (how == 0 ? 0 : before), "opens-size", how, z, before); }
					} break;
				case 2: c.op("close", i); on[i] = false; f[i].close_i(); break;
				case 3: if (son) break; { c.op("stream-open", j); sa.reset(new file_accessor::stream_accessor<raw>());
					sa->open(tmpname(j), true, true, 4, 64, 10, access_normal, 0); son = true; } break;
				case 4: if (!son) break; c.op("stream-close"); son = false; sa->close(); break;
				case 5: if (!on[i]) break; { c.op("write", i); unsigned char d[100] = {1, 2, 3}; try { f[i].write_i(d, 100); } catch (io_exception &) { CHECK(c, failed || true, "x"); } } break;
				}
			} catch (io_exception &) { threw = true; } catch (invalid_file_exception &) { CHECK(c, k == 3 && ex, "opens-spurious"); threw = true; }
			catch (stream_exception &) { threw = true; }
			countdown = -1;
			if (failed) c.nontrivial = true;
			if (k == 4 && threw) { // the accessor may still hold the file after an error: close again
				try { sa->close(); } catch (std::exception &) {} sa.reset(); }
			size_t open = on[0] + on[1] + son;
			CHECK(c, fm.used() == used0 + open, "opens-count", fm.used() - used0, open, "operation", k);
			CHECK(c, fds - fds0 == (int)open, "opens-descriptors", fds - fds0, open, "operation", k);
		}
	}
	CHECK(c, fm.used() == used0 && fds == fds0, "opens-end", fm.used(), used0, fds, fds0);
}

typedef file_accessor::raw_file_accessor raw;
typedef file_accessor::stream_accessor<raw> SA;

// stream accessor: blocks, sizes, user data, truncation, reopen
static void blocks_s(Case & c) {
	Os os(c);
	std::string p = tmpname(0); unlink(p.c_str());
	size_t isz = 1 + c(c.p(1, 4) ? 40 : 9), bi = 1 + c(8), bsz = isz * bi + (c.p(1, 2) ? c(isz) : 0), mud = c.p(1, 3) ? 0 : c(c.p(1, 6) ? 9000 : 60);
	std::unique_ptr<SA> a(new SA());
	std::vector<bytes> items; bytes ud; bool fresh = true, ro = false;
	auto open = [&](bool r, bool w, size_t m) { a->open(p, r, w, isz, bsz, m, access_normal, 0); ro = !w; if (fresh || !r) { items.clear(); ud.clear(); mud = m; } fresh = false; };
	c.op("item", isz, "block", bsz, "user", mud);
	open(c.p(1, 2), true, mud);
	size_t n = 5 + c(c.size);
	for (size_t s = 0; s < n; ++s) {
		switch (c(9)) {
		case 0: case 1: if (!ro) {
			size_t b = c(items.size() / bi + 1), cnt = 1 + c(bi);
			if (b * bi + cnt < items.size() && 0) {}
			bytes d = rnd(c, cnt * isz);
			c.op("write_block", b, cnt); a->write_block(d.data(), b, cnt);
			if (items.size() < b * bi + cnt) items.resize(b * bi + cnt, bytes(isz, 0));
			for (size_t i = 0; i < cnt; ++i) items[b * bi + i] = bytes(d.begin() + i * isz, d.begin() + (i + 1) * isz);
			} break;
		case 2: case 3: {
			size_t b = c(items.size() / bi + 1), cnt = c(bi + 1);
			c.op("read_block", b, cnt);
			if (b * bi > items.size()) break;
			bytes d(cnt * isz + 8, 5); size_t want = std::min(cnt, items.size() - b * bi);
			size_t got = a->read_block(d.data(), b, cnt);
			CHECK(c, got == want, "blocks-read-count", got, want);
			for (size_t i = 0; i < want; ++i) CHECK(c, std::equal(items[b * bi + i].begin(), items[b * bi + i].end(), d.begin() + i * isz), "blocks-read-content", "item", b * bi + i);
			for (size_t i = want * isz; i < d.size(); ++i) CHECK(c, d[i] == 5, "blocks-read-beyond");
			} break;
		case 4: if (!ro) { size_t k = c(mud + 1 + (c.p(1, 4) ? 5 : 0)); bytes d = rnd(c, k); c.op("write_user_data", k); bool t = false;
			try { a->write_user_data(d.data(), k); ud = d; } catch (stream_exception &) { t = true; }
			CHECK(c, t == (k > mud), "blocks-user-limit", k, mud); } break;
		case 5: { size_t k = c(mud + 6); bytes d(k + 4, 9); c.op("read_user_data", k); size_t got = a->read_user_data(d.data(), k); size_t want = std::min(k, ud.size());
			CHECK(c, got == want, "blocks-user-count", got, want); CHECK(c, std::equal(ud.begin(), ud.begin() + want, d.begin()), "blocks-user-content");
			for (size_t i = want; i < d.size(); ++i) CHECK(c, d[i] == 9, "blocks-user-beyond"); } break;
		case 6: if (!ro) { size_t k = c(items.size() + 1); c.op("truncate", k); a->truncate(k); items.resize(k); } break;
		case 7: case 8: {
			bool w = c.p(3, 4); c.op("reopen", w); a->close(); if (c.p(1, 2)) a.reset(new SA());
			c.nontrivial = true;
			if (c.p(1, 6)) { size_t m = mud + 1 + c(50); bool t = false; c.op("reopen-bigger-user-data", m); try { open(true, true, m); } catch (invalid_file_exception &) { t = true; } CHECK(c, t, "blocks-user-room"); a.reset(new SA()); }
			open(true, w, c(mud + 1)); } break;
		}
		CHECK(c, a->size() == items.size(), "blocks-size", a->size(), items.size());
		CHECK(c, a->user_data_size() == ud.size() && a->max_user_data_size() == mud, "blocks-user-size", a->user_data_size(), ud.size(), a->max_user_data_size(), mud);
	}
	a->close();
	SA r; r.open(p, true, false, isz, bsz, 0, access_normal, 0);
	CHECK(c, r.size() == items.size() && r.user_data_size() == ud.size(), "blocks-reopened");
	bytes d(isz * bi + 1), u(ud.size() + 1);
	r.read_user_data(u.data(), ud.size()); CHECK(c, std::equal(ud.begin(), ud.end(), u.begin()), "blocks-user-reopened");
	for (size_t b = 0; b * bi < items.size(); ++b) { size_t want = std::min(bi, items.size() - b * bi); CHECK(c, r.read_block(d.data(), b, bi) == want, "blocks-final-count"); for (size_t i = 0; i < want; ++i) CHECK(c, std::equal(items[b * bi + i].begin(), items[b * bi + i].end(), d.begin() + i * isz), "blocks-final-content", b * bi + i); }
}

struct five { unsigned char c[5]; bool operator==(const five & o) const { return !memcmp(c, o.c, 5); } };
template <class T> static T val(uint64_t x) { T t; memset(&t, 0, sizeof t); memcpy(&t, &x, std::min(sizeof t, sizeof x)); return t; }

// whole streams: contents and user data survive closing and reopening
template <class S, class T> static void reopen_t(Case & c) {
	std::string p = tmpname(0); unlink(p.c_str());
	size_t mud = c.p(1, 3) ? 0 : c(100);
	std::unique_ptr<S> s(new S(c.p(1, 2) ? 1.0 / 4096 : 1.0 / 65536));
	std::vector<T> m; bytes ud;
	s->open(p, access_read_write, mud);
	size_t rounds = 1 + c(5);
	for (size_t r = 0; r < rounds; ++r) {
		size_t k = c.p(1, 3) ? s->block_items() + c(5) - 2 : c(c.size * 30); c.op("append", k);
		if (c.p(1, 3)) { size_t t = c(m.size() + 1); if (std::is_same<S, uncompressed_stream<T>>::value || t == 0) { c.op("truncate", t); s->truncate(t); m.resize(t); } }
		s->seek(0, S::end);
		for (size_t i = 0; i < k; ++i) { T v = val<T>(c.u()); s->write(v); m.push_back(v); }
		if (mud && c.p(1, 2)) { ud = rnd(c, c(mud + 1)); c.op("user", ud.size()); s->write_user_data(ud.data(), ud.size()); }
		s->close();
		if (c.p(1, 2)) s.reset(new S(1.0 / 65536 * (1 + c(4))));
		c.nontrivial = true;
		bool ro = c.p(1, 3);
		try { s->open(p, ro ? access_read : access_read_write, ro ? 0 : mud); } catch (invalid_file_exception &) {
			// another block size is not the same stream; must be opened with the old one
			s.reset(new S()); bool t = false;
			for (int q = 0; q < 6 && !t; ++q) { s.reset(new S(q < 4 ? 1.0 / 65536 * (1 + q) : q == 4 ? 1.0 / 4096 : 1.0)); try { s->open(p, ro ? access_read : access_read_write, ro ? 0 : mud); t = true; } catch (invalid_file_exception &) {} }
			CHECK(c, t, "reopen-refused");
		}
		CHECK(c, s->size() == m.size(), "reopen-size", s->size(), m.size());
		CHECK(c, s->user_data_size() == ud.size(), "reopen-user-size", s->user_data_size(), ud.size());
		bytes u(ud.size() + 4, 3); size_t ug = s->read_user_data(u.data(), ud.size()); CHECK(c, ug == ud.size() && std::equal(ud.begin(), ud.end(), u.begin()), "reopen-user-data", ug, ud.size());
		for (size_t i = 0; i < m.size(); ++i) { CHECK(c, s->can_read(), "reopen-short", i, m.size()); T v = s->read(); CHECK(c, v == m[i], "reopen-item", i); }
		CHECK(c, !s->can_read(), "reopen-long");
		if (ro) { s->close(); s->open(p, access_read_write, mud); }
	}
}
static void reopen_s(Case & c) {
	switch (c(4)) {
	case 0: c.op("uncompressed u64"); reopen_t<uncompressed_stream<uint64_t>, uint64_t>(c); break;
	case 1: c.op("uncompressed 5"); reopen_t<uncompressed_stream<five>, five>(c); break;
	case 2: c.op("u32"); reopen_t<file_stream<uint32_t>, uint32_t>(c); break;
	case 3: c.op("5"); reopen_t<file_stream<five>, five>(c); break;
	}
}

// files that are not valid streams are rejected
static void headers_s(Case & c) {
	std::string p = tmpname(0); unlink(p.c_str());
	size_t n = c(40), mud = c(20);
	std::vector<uint64_t> m;
	{ uncompressed_stream<uint64_t> s; s.open(p, access_read_write, mud); for (size_t i = 0; i < n; ++i) { m.push_back(c.u()); s.write(m.back()); } bytes u = rnd(c, mud); s.write_user_data(u.data(), c(mud + 1)); }
	bytes f = slurp(p);
	uint64_t h[9]; memcpy(h, f.data(), sizeof h);
	CHECK(c, h[6] == n, "headers-size", h[6]);
	int k = c(9); bool bad = true;
	switch (k) {
	case 0: f[c(8)] ^= 1 + c(255); break;                       // magic
	case 1: f[8 + c(8)] ^= 1 + c(255); break;                   // version
	case 2: f[16 + c(8)] ^= 1 + c(255); break;                  // item size
	case 3: f[24 + c(8)] ^= 1 + c(255); break;                  // block size
	case 4: { uint64_t x = h[5] + 1 + c(1000); memcpy(&f[32], &x, 8); break; } // user data beyond its limit
	case 5: f[56] &= ~1; break;                                 // not cleanly closed
	case 6: f.resize(c(72)); break;                             // shorter than a header
	case 7: f = rnd(c, c(5000)); break;
	case 8: bad = false; break;
	}
	c.op("damage", k, n); c.nontrivial = bad;
	spit(p, f);
	size_t used = get_file_manager().used();
	bool t = false;
	uncompressed_stream<uint64_t> s;
	try { s.open(p, c.p(1, 2) ? access_read : access_read_write, 0); } catch (stream_exception &) { t = true; }
	CHECK(c, t == bad, "headers-accepted", "damage", k, "opened", !t);
	if (bad) { CHECK(c, !s.is_open() && get_file_manager().used() == used, "headers-left-open"); }
	else { CHECK(c, s.size() == n, "headers-size"); for (size_t i = 0; i < n; ++i) CHECK(c, s.read() == m[i], "headers-item"); }
	if (!bad) { // another item size
		s.close(); uncompressed_stream<uint32_t> q; bool u = false; try { q.open(p); } catch (stream_exception &) { u = true; } CHECK(c, u, "headers-item-size");
	}
}

// byte streams
static void bytes_s(Case & c) {
	Os os(c);
	typedef file_accessor::byte_stream_accessor<raw> BA;
	std::string p = tmpname(0); unlink(p.c_str());
	std::unique_ptr<BA> a(new BA()); bytes m; size_t items = 0, mud = c(30); bytes ud; uint64_t lbro = ~0ull;
	int cf = c(2);
	a->open(p, true, true, 4, 64, mud, access_normal, cf);
	size_t n = 5 + c(c.size);
	for (size_t s = 0; s < n; ++s) {
		size_t len = c(60);
		switch (c(9)) {
		case 0: { size_t o = c(m.size() + 10); bytes d = rnd(c, len); c.op("write", o, len); a->write(o, d.data(), len); if (len) { if (m.size() < o + len) m.resize(o + len, 0); std::copy(d.begin(), d.end(), m.begin() + o); } break; }
		case 1: { bytes d = rnd(c, len); c.op("append", len); a->append(d.data(), len); m.insert(m.end(), d.begin(), d.end()); break; }
		case 2: case 3: { size_t o = c(m.size() + 1); bytes d(len + 4, 1); c.op("read", o, len); size_t w = std::min(len, m.size() - o), g = a->read(o, d.data(), len); CHECK(c, g == w, "bytes-read-count", g, w);
			CHECK(c, std::equal(m.begin() + o, m.begin() + o + w, d.begin()), "bytes-read-content"); for (size_t i = w; i < d.size(); ++i) CHECK(c, d[i] == 1, "bytes-read-beyond"); break; }
		case 4: { size_t k = c(m.size() + 5); c.op("truncate_bytes", k); a->truncate_bytes(k); m.resize(k, 0); break; }
		case 5: { c.op("file_size"); CHECK(c, a->file_size() == m.size(), "bytes-size", a->file_size(), m.size()); break; }
		case 6: { items = c(1000); c.op("set_size", items); a->set_size(items); break; }
		case 7: { lbro = c(1 << 20); c.op("last-block", lbro); a->set_last_block_read_offset(lbro); break; }
		case 8: { c.op("reopen"); c.nontrivial = true; bool u = c.p(1, 2); if (u) { ud = rnd(c, c(mud + 1)); a->write_user_data(ud.data(), ud.size()); if (m.empty()) {} }
			a->close(); if (c.p(1, 2)) a.reset(new BA()); a->open(p, true, true, 4, 64, mud, access_normal, c(2));
			bytes x(ud.size() + 1); CHECK(c, a->read_user_data(x.data(), ud.size()) == ud.size() && std::equal(ud.begin(), ud.end(), x.begin()), "bytes-user"); break; }
		}
		CHECK(c, a->size() == items && a->empty() == (items == 0), "bytes-items");
		CHECK(c, a->get_last_block_read_offset() == lbro, "bytes-last-block");
		CHECK(c, a->get_compressed() == (cf != 0), "bytes-compressed");
	}
}

int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"raw", raw_s}, {"opens", opens_s}, {"blocks", blocks_s}, {"reopen", reopen_s}, {"headers", headers_s}, {"bytes", bytes_s}},
	              [] { tpie_init(ALL & ~JOB_MANAGER); get_memory_manager().set_limit(1 << 30); });
}
