// Bounded differential driver for resource accounting: memory and open files.
// LINK: -Wl,--wrap=open -Wl,--wrap=open64 -Wl,--wrap=close
#include "h.h"
#include <algorithm>
#include <map>
#include <memory>
#include <typeinfo>
#include <fcntl.h>
#include <stdarg.h>
#include <tpie/tpie.h>
#include <tpie/array.h>
#include <tpie/memory.h>
#include <tpie/file_manager.h>
#include <tpie/stack.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/file_accessor/file_accessor.h>
using namespace tpie;

static int fds = 0, fail_open = 0;
extern "C" {
int __real_close(int);
int __real_open64(const char *, int, ...);
int __wrap_open64(const char * p, int f, ...) {
	va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
	if (fail_open) { errno = fail_open; return -1; }
	int r = __real_open64(p, f, m);
	if (r >= 0) ++fds;
	return r;
}
int __wrap_open(const char * p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __wrap_open64(p, f, m); }
int __wrap_close(int fd) { int r = __real_close(fd); if (r == 0) --fds; return r; }
}

struct boom {};
template <int N, bool V> struct T { char c[N]; T() {} T(bool b) { if (b) throw boom(); } };
struct base { uint64_t a; base(bool b = false) { if (b) throw boom(); } virtual ~base() {} };
struct side { uint64_t z[3]; virtual ~side() {} };
struct derived : side, base { uint64_t y[5]; derived(bool b = false) : base(false) { if (b) throw boom(); } };
struct bomb { static int left; int v; bomb() { if (left == 0) throw boom(); --left; } };
int bomb::left = -1;

struct Item { size_t bytes; std::function<void()> drop; };

static void memory_s(Case & c) {
	memory_manager & mm = get_memory_manager();
	const size_t used0 = mm.used();
	const size_t limit0 = mm.limit();
	std::vector<Item> items;
	size_t used = used0, limit = limit0;
	bool thr = false;
	std::vector<std::unique_ptr<array<uint64_t>>> arrs; std::vector<size_t> asz;
	memory_bucket bucket; size_t bk = 0;
	auto pops = [&](size_t n) {          // run f with n more bytes; -> allowed?
		return !(thr && limit > 0 && used + n > limit);
	};
	auto grow = [&](size_t n, const char * what, std::function<std::function<void()>()> f) {
		bool ok = true; std::function<void()> d;
		try { d = f(); } catch (out_of_memory_error &) { ok = false; }
		CHECK(c, ok == pops(n), "memory-limit", what, "bytes", n, "used", used, "limit", limit);
		if (ok) { used += n; items.push_back({n, d}); }
	};
	size_t n = 6 + c(c.size * 2);
	for (size_t s = 0; s < n; ++s) {
		switch (c(16)) {
		case 0: c.op("new24"); grow(24, "tpie_new", [] { auto * p = tpie_new<T<24, 0>>(); return [p] { tpie_delete(p); }; }); break;
		case 1: c.op("new-poly"); grow(sizeof(derived), "tpie_new", [] { side * p = tpie_new<derived>(); return [p] { tpie_delete(p); }; }); break;
		case 2: { size_t k = c(400); c.op("new-array", k); grow(k * 3, "tpie_new_array", [k] { auto * p = tpie_new_array<T<3, 0>>(k); return [p, k] { tpie_delete_array(p, k); }; }); break; }
		case 3: { c.op("ctor-throws"); c.nontrivial = true;
			int how = c(4); bool threw = false;
			try {
				if (how == 0) tpie_new<T<24, 0>>(true); else if (how == 1) tpie_new<derived>(true); else if (how == 2) make_unique<base>(true);
				else { bomb::left = c(5); tpie_new_array<bomb>(6); }
			} catch (boom &) { threw = true; } catch (out_of_memory_error &) { threw = thr; }
			bomb::left = -1;
			CHECK(c, threw, "memory-ctor-throw", how);
			break; }
		case 4: { size_t k = 1 + c(100); c.op("allocator", k); grow(k * 8, "allocator", [k] { allocator<uint64_t> a; auto * p = a.allocate(k); return [a, p, k]() mutable { a.deallocate(p, k); }; }); break; }
		case 5: { size_t k = 1 + c(100); c.op("bucket-allocator", k); bool ok = pops(k * 8); memory_bucket * b = &bucket;
			grow(k * 8, "allocator", [k, b] { allocator<uint64_t> a{memory_bucket_ref(b)}; auto * p = a.allocate(k); return [a, p, k]() mutable { a.deallocate(p, k); }; });
			if (ok) { bk += k * 8; auto d = items.back().drop; items.back().drop = [d, &bk, k] { d(); bk -= k * 8; }; }
			break; }
		case 6: { size_t k = c(1000); c.op("array", k); if (k && !pops(k * 8)) { bool t = false; try { array<uint64_t> x(k); } catch (out_of_memory_error &) { t = true; } CHECK(c, t, "memory-limit-array", k, used, limit); break; }
			arrs.emplace_back(new array<uint64_t>(k)); asz.push_back(k); used += k * 8; break; }
		case 7: if (!arrs.empty()) { size_t i = c(arrs.size()), k = c(1000); c.op("resize", i, k); size_t old = asz[i];
			used -= old * 8;
			bool ok = true; try { arrs[i]->resize(k); } catch (out_of_memory_error &) { ok = false; }
			// an equal size may keep the memory it has
			CHECK(c, ok == (!k || pops(k * 8)) || (ok && k == old), "memory-limit-array", k, used, limit);
			asz[i] = ok ? k : 0; CHECK(c, arrs[i]->size() == asz[i], "memory-array-size"); used += asz[i] * 8; } break;
		case 8: if (!arrs.empty()) { size_t i = c(arrs.size()); c.op("drop-array", i); used -= asz[i] * 8; arrs.erase(arrs.begin() + i); asz.erase(asz.begin() + i); } break;
		case 9: if (arrs.size() > 1) { size_t i = c(arrs.size()), j = c(arrs.size()); c.op("assign", i, j); if (i == j) { *arrs[i] = *arrs[j]; break; }
			used -= asz[i] * 8; bool ok = true; try { *arrs[i] = *arrs[j]; } catch (out_of_memory_error &) { ok = false; }
			CHECK(c, ok == (!asz[j] || pops(asz[j] * 8)) || (ok && asz[i] == asz[j]), "memory-limit-array", used, limit);
			asz[i] = ok ? asz[j] : 0; used += asz[i] * 8; } break;
		case 10: if (arrs.size() > 1) { size_t i = c(arrs.size()), j = c(arrs.size()); c.op("swap", i, j); std::swap(*arrs[i], *arrs[j]); std::swap(asz[i], asz[j]); } break;
		case 11: { c.op("limit"); limit = c.p(1, 4) ? limit0 : c.p(1, 6) ? 0 : used0 + c(20000); mm.set_limit(limit); break; }
		case 12: { int k = c(3); c.op("mode", k); thr = k == 0; mm.set_enforcement(k == 0 ? memory_manager::ENFORCE_THROW : memory_manager::ENFORCE_IGNORE); break; }
		case 13: { size_t k = c(50); c.op("vector", k);
			if (k && pops(k * 8)) { std::vector<uint64_t, allocator<uint64_t>> v; v.reserve(k); CHECK(c, mm.used() == used + k * 8, "memory-vector", mm.used(), used, k); } break; }
		default:
			if (!items.empty()) { size_t i = c(items.size()); c.op("drop", i); items[i].drop(); used -= items[i].bytes; items.erase(items.begin() + i); }
		}
		CHECK(c, mm.used() == used, "memory-usage", "reported", mm.used(), "acquired minus released", used);
		CHECK(c, bucket.count == bk, "memory-bucket", (size_t)bucket.count, bk);
		CHECK(c, mm.available() == (used < limit ? limit - used : 0), "memory-available", mm.available(), used, limit);
		CHECK(c, mm.limit() == limit, "memory-limit-value");
	}
	for (auto & i : items) i.drop();
	arrs.clear();
	CHECK(c, mm.used() == used0, "memory-usage-end", mm.used(), used0);
	CHECK(c, bucket.count == 0, "memory-bucket-end");
	mm.set_limit(limit0); mm.set_enforcement(memory_manager::ENFORCE_IGNORE);
}

// the usage of the file manager is the number of descriptors held by open TPIE files
static void files_s(Case & c) {
	file_manager & fm = get_file_manager();
	const size_t used0 = fm.used(), limit0 = fm.limit();
	const int fds0 = fds;
	size_t used = used0, limit = limit0; bool thr = false;
	typedef file_accessor::raw_file_accessor raw;
	const int K = 6;
	std::vector<std::unique_ptr<raw>> f(K);
	std::vector<int> on(K, 0);
	for (int i = 0; i < K; ++i) f[i].reset(new raw());
	std::vector<std::unique_ptr<file_stream<uint32_t>>> st(3);
	std::vector<int> son(3, 0);
	for (auto & s : st) s.reset(new file_stream<uint32_t>());
	std::vector<std::unique_ptr<temp_file>> tf(3);
	for (auto & t : tf) t.reset(new temp_file());
	size_t n = 6 + c(c.size);
	for (size_t s = 0; s < n; ++s) {
		int i = c(K), j = c(3);
		std::string path = std::string(getenv("TMPDIR")) + "/f" + std::to_string(c(4));
		bool room = !(thr && limit > 0 && used + 1 > limit);
		switch (c(9)) {
		case 0: case 1: if (!on[i]) {
			int how = c(4); bool bad = c.p(1, 5); c.op("open", i, how, path, bad); bool ok = true;
			fail_open = bad ? (c.p(1, 2) ? EACCES : EMFILE) : 0;
			bool exists = access(path.c_str(), F_OK) == 0;
			try {
				if (how == 0) f[i]->open_wo(path); else if (how == 1) f[i]->open_rw_new(path); else if (how == 2) f[i]->open_ro(path); else ok = f[i]->try_open_rw(path);
			} catch (out_of_files_error &) { ok = false; CHECK(c, !room, "files-limit-refused", used, limit); } catch (io_exception &) { ok = false; CHECK(c, bad || (how == 2 && !exists), "files-open-refused"); }
			fail_open = 0;
			bool want = !bad && (how < 2 || exists) && room;
			if (bad || !want) c.nontrivial = true;
			CHECK(c, ok == want, "files-open", ok, how, exists, used, limit);
			if (ok) { on[i] = 1; ++used; }
			} break;
		case 2: c.op("close", i); f[i]->close_i(); used -= on[i]; on[i] = 0; break;
		case 3: c.op("drop", i); f[i].reset(new raw()); used -= on[i]; on[i] = 0; break;
		case 4: if (!son[j]) {
			c.op("stream-open", j); bool ok = true; std::string why;
			std::string p2 = path + "s"; bool garbage = c.p(1, 4);
			if (garbage) { c.nontrivial = true; FILE * g = fopen(p2.c_str(), "wb"); for (int k = 0; k < 5000; ++k) fputc(77, g); fclose(g); }
			try { st[j]->open(p2); } catch (out_of_files_error &) { ok = false; CHECK(c, !room, "files-limit-refused", used, limit); } catch (std::exception & e) { ok = false; why = e.what(); }
			if (!room) CHECK(c, !ok, "files-limit-stream", used, limit);
			else CHECK(c, ok == !garbage, "files-stream-open", garbage, why);
			if (!ok) unlink(p2.c_str());
			CHECK(c, st[j]->is_open() == ok, "files-stream-is-open");
			if (ok) { son[j] = 1; ++used; unlink(p2.c_str()); }
			} break;
		case 5: c.op("stream-close", j); st[j]->close(); used -= son[j]; son[j] = 0; break;
		case 6: c.op("stream-drop", j); st[j].reset(new file_stream<uint32_t>()); used -= son[j]; son[j] = 0; break;
		case 7: { c.op("limit"); limit = c.p(1, 3) ? limit0 : used0 + c(6); fm.set_limit(limit); break; }
		case 8: { thr = c.p(2, 3); c.op("mode", thr); fm.set_enforcement(thr ? file_manager::ENFORCE_THROW : file_manager::ENFORCE_IGNORE); break; }
		}
		CHECK(c, fm.used() == used, "files-usage", "reported", fm.used(), "open", used);
		CHECK(c, fds == fds0 + int(used - used0), "files-descriptors", fds - fds0, used - used0);
		CHECK(c, fm.available() == (used < limit ? limit - used : 0), "files-available");
	}
	f.clear(); st.clear(); tf.clear();
	CHECK(c, fm.used() == used0, "files-usage-end", fm.used(), used0);
	CHECK(c, fds == fds0, "files-descriptors-end", fds, fds0);
	fm.set_limit(limit0); fm.set_enforcement(file_manager::ENFORCE_IGNORE);
}

int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"memory", memory_s}, {"files", files_s}},
	              [] { tpie_init(ALL & ~JOB_MANAGER); get_memory_manager().set_limit(1 << 30); get_memory_manager().set_enforcement(memory_manager::ENFORCE_IGNORE); });
}
