// Serialization round trips through a byte buffer.
#include "h.h"
#include <tpie/tpie.h>
#include <tpie/serialization2.h>
#include <array>
#include <tuple>
#include <cmath>
#include <limits>
using tpie::serialize; using tpie::unserialize;
struct Sink { std::string b; void write(const void * p, size_t n) { b.append((const char *)p, n); } };
struct Overrun {};
struct Src { const std::string & b; size_t at; void read(void * p, size_t n) { if (n > b.size() - at) throw Overrun(); if (n) memcpy(p, b.data() + at, n); at += n; } };
struct pod { int a; unsigned char b; double c; bool operator==(const pod & o) const { return a == o.a && b == o.b && memcmp(&c, &o.c, 8) == 0; } };
namespace usr {
struct rec { std::string name; std::vector<uint32_t> v; std::pair<char, uint64_t> p; std::vector<rec> kids;
	rec() : p(0, 0) {}
	bool operator==(const rec & o) const { return name == o.name && v == o.v && p == o.p && kids == o.kids; } };
template <class D> void serialize(D & d, const rec & r);
template <class S> void unserialize(S & s, rec & r);
template <class D> void serialize(D & d, const rec & r) { using tpie::serialize; serialize(d, r.name); serialize(d, r.v); serialize(d, r.p); serialize(d, r.kids); }
template <class S> void unserialize(S & s, rec & r) { using tpie::unserialize; unserialize(s, r.name); unserialize(s, r.v); unserialize(s, r.p); unserialize(s, r.kids); }
}
using usr::rec;
static size_t len(Case & c) { return c.p(1, 6) ? 0 : c.p(1, 8) ? c(5000) : c.p(1, 3) ? c(3) : c(c.size + 1); }
template <class T> T rnd(Case & c) { uint64_t x = c.u(); if (c.p(1, 5)) x = c.p(1, 2) ? 0 : ~0ull; T v; memcpy(&v, &x, sizeof v); return v; }
static std::string rstr(Case & c) { std::string s(len(c), 0); for (auto & ch : s) ch = (char)c(c.p(1, 2) ? 256 : 2); return s; }
template <class T> std::vector<T> rvec(Case & c) { std::vector<T> v(len(c)); for (auto & x : v) x = rnd<T>(c); return v; }
static rec rrec(Case & c, int depth) {
	rec r; r.name = rstr(c); r.v = rvec<uint32_t>(c); r.p = {(char)c(256), c.u()};
	if (depth) for (size_t i = c(4); i--; ) r.kids.push_back(rrec(c, depth - 1));
	return r;
}
template <class T> static std::vector<T> dirtyvec(Case & c) { return std::vector<T>(c(20)); }
template <class T> static bool eq(const T & a, const T & b) { return a == b; }
static bool eq(float a, float b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool eq(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class T> static bool eq(const tpie::array<T> & a, const tpie::array<T> & b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
// write several values in sequence, then read them all back
struct Seq {
	Case & c; Sink s; std::vector<std::function<void(Src &)>> checks; size_t total = 0;
	explicit Seq(Case & c) : c(c) {}
	template <class T> void add(const char * what, const T & v, T into, size_t expect = (size_t)-1) {
		c.op(what);
		size_t b = s.b.size();
		serialize(s, v);
		size_t n = s.b.size() - b;
		if (expect != (size_t)-1) CHECK(c, n == expect, "encoded-size", what, n, expect);
		size_t m = tpie::serialized_size(v);
		CHECK(c, m == n, "serialized-size", what, m, n);
		checks.push_back([this, v, into, b, n, what](Src & r) mutable {
			CHECK(c, r.at == b, "position", what, r.at, b);
			unserialize(r, into);
			CHECK(c, r.at == b + n, "consumed", what, r.at - b, n);
			CHECK(c, eq(into, v), "value", what);
		});
	}
	void finish() {
		Src r{s.b, 0};
		try { for (auto & f : checks) f(r); } catch (Overrun &) { c.fail("overrun", "read past the end of what was written"); }
		CHECK(c, r.at == s.b.size(), "all-consumed", r.at, s.b.size());
		c.nontrivial = checks.size() > 1;
	}
};
template <class T> static void num(Seq & q, const char * w) { q.add<T>(w, rnd<T>(q.c), rnd<T>(q.c), sizeof(T)); }
static void values(Case & c) {
	Seq q(c);
	for (size_t n = 1 + c(12); n--; ) switch (c(14)) {
		case 0: num<int8_t>(q, "i8"); break;
		case 1: num<uint16_t>(q, "u16"); break;
		case 2: num<int>(q, "int"); break;
		case 3: num<uint64_t>(q, "u64"); break;
		case 4: num<float>(q, "float"); break;
		case 5: num<double>(q, "double"); break;
		case 6: { bool b = c(2); q.add<bool>("bool", b, !b, 1); break; }
		case 7: { pod p; memset(&p, 0, sizeof p); p.a = (int)c.u(); p.b = (unsigned char)c(256); p.c = rnd<double>(c); pod z; memset(&z, 0, sizeof z); q.add("pod", p, z, sizeof(pod)); break; }
		case 8: { auto v = rvec<uint16_t>(c); q.add("vector<u16>", v, dirtyvec<uint16_t>(c), 8 + 2 * v.size()); break; }
		case 9: { auto v = rvec<uint64_t>(c); q.add("vector<u64>", v, dirtyvec<uint64_t>(c), 8 + 8 * v.size()); break; }
		case 10: { std::array<uint32_t, 7> a; for (auto & x : a) x = (uint32_t)c.u(); std::array<uint32_t, 7> b{}; q.add("std::array", a, b, 28); break; }
		case 11: { tpie::array<uint32_t> a(len(c)); for (auto & x : a) x = (uint32_t)c.u(); tpie::array<uint32_t> b(c(9)); q.add("tpie::array", a, b, 8 + 4 * a.size()); break; }
		case 12: { std::pair<char, uint64_t> a((char)c(256), c.u()), b; q.add("pair", a, b); break; }
		case 13: { std::tuple<char, uint64_t, uint16_t> a((char)c(256), c.u(), (uint16_t)c.u()), b; q.add("tuple", a, b); break; }
	}
	q.finish();
}
static void strings(Case & c) {
	Seq q(c);
	for (size_t n = 1 + c(6); n--; ) { std::string s = rstr(c), t = rstr(c); q.add("string", s, t, 8 + s.size()); if (c.p(1, 3)) { std::vector<char> v(s.begin(), s.end()); q.add("vector<char>", v, dirtyvec<char>(c), 8 + v.size()); } }
	q.finish();
}
static void nested(Case & c) {
	Seq q(c);
	for (size_t n = 1 + c(4); n--; ) switch (c(6)) {
		case 0: q.add("rec", rrec(c, 2), rrec(c, 1)); break;
		case 1: { std::vector<rec> v, d; for (size_t i = c(5); i--; ) v.push_back(rrec(c, 1)); for (size_t i = c(3); i--; ) d.push_back(rrec(c, 0)); q.add("vector<rec>", v, d); break; }
		case 2: { std::pair<std::string, rec> a(rstr(c), rrec(c, 1)), b(rstr(c), rrec(c, 0)); q.add("pair<string,rec>", a, b); break; }
		case 3: { std::tuple<rec, uint16_t, std::string, std::pair<std::string, std::vector<double>>> a(rrec(c, 0), (uint16_t)c.u(), rstr(c), {rstr(c), {}}), b; for (size_t i = c(5); i--; ) std::get<3>(a).second.push_back((double)c.u()); q.add("tuple", a, b); break; }
		case 4: { std::array<rec, 3> a, b; for (auto & x : a) x = rrec(c, 1); for (auto & x : b) x = rrec(c, 0); q.add("array<rec>", a, b); break; }
		case 5: { tpie::array<rec> a(c(5)), b(c(4)); for (auto & x : a) x = rrec(c, 0); q.add("tpie::array<rec>", a, b); break; }
	}
	q.finish();
}
// ranges and C arrays
static void sized(Case & c) {
	Sink s;
	size_t n = len(c), lo = n ? c(n) : 0, hi = lo + c(n - lo + 1);
	std::vector<uint32_t> v(n), w(n + 4, 77);
	for (auto & x : v) x = (uint32_t)c.u();
	uint64_t ca[6], cb[6]; for (auto & x : ca) x = c.u();
	rec ra[2], rb[2]; for (auto & x : ra) x = rrec(c, 1);
	c.op("range", lo, hi, "of", n);
	c.nontrivial = hi > lo;
	bool ptr = c(2);
	if (ptr) serialize(s, (const uint32_t *)v.data() + lo, (const uint32_t *)v.data() + hi); else serialize(s, v.begin() + lo, v.begin() + hi);
	CHECK(c, s.b.size() == 4 * (hi - lo), "range-size", s.b.size(), hi - lo);
	serialize(s, ca); serialize(s, ra);
	CHECK(c, tpie::serialized_size(ca) == sizeof ca, "c-array-size", tpie::serialized_size(ca));
	Src r{s.b, 0};
	try {
		if (c(2)) unserialize(r, w.data() + 2, w.data() + 2 + (hi - lo)); else unserialize(r, w.begin() + 2, w.begin() + 2 + (hi - lo));
		unserialize(r, cb); unserialize(r, rb);
	} catch (Overrun &) { c.fail("overrun", "read past the end of what was written"); }
	for (size_t i = 0; i < w.size(); ++i) CHECK(c, w[i] == (i >= 2 && i < 2 + hi - lo ? v[lo + i - 2] : 77u), "range-element", i);
	CHECK(c, memcmp(ca, cb, sizeof ca) == 0, "c-array");
	CHECK(c, ra[0] == rb[0] && ra[1] == rb[1], "c-array-of-user-types");
	CHECK(c, r.at == s.b.size(), "all-consumed", r.at, s.b.size());
}
int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"values", values, 2}, {"strings", strings}, {"nested", nested, 2}, {"sized", sized}},
		[] { tpie::tpie_init(tpie::ALL & ~tpie::JOB_MANAGER & ~tpie::STREAMS); tpie::get_memory_manager().set_limit(1ull << 30); }, [] { tpie::tpie_finish(tpie::ALL & ~tpie::JOB_MANAGER & ~tpie::STREAMS); });
}
