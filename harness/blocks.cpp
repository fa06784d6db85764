// Bounded differential driver for block collections and the block cache on real files.
// LINK: -Wl,--wrap=read -Wl,--wrap=write
#include "h.h"
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <fcntl.h>
#include <tpie/tpie.h>
#include <tpie/memory.h>
#include <tpie/blocks/freespace_collection.h>
#include <tpie/blocks/block_collection.h>
#include <tpie/blocks/block_collection_cache.h>
using namespace tpie;
using namespace tpie::blocks;

// data transfers of the block file (not of its .queue)
static std::string path;
static int reads = 0, writes = 0;
static bool ours(int fd) {
	char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
	ssize_t n = readlink(l, b, sizeof b);
	return n > 0 && std::string(b, n) == path;
}
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_read(int fd, void * d, size_t n) { if (ours(fd)) ++reads; return __real_read(fd, d, n); }
ssize_t __wrap_write(int fd, const void * d, size_t n) { if (ours(fd)) ++writes; return __real_write(fd, d, n); }
}

typedef std::vector<char> bytes;
static bytes rnd(Case & c, size_t n) { bytes b(n); uint64_t x = c.u() | 1; for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; b[i] = char(x >> 56); } return b; }
static void fresh() {
	char b[4096]; std::string d = getenv("TMPDIR");
	if (realpath(d.c_str(), b)) d = b;
	path = d + "/blk" + std::to_string(getpid());
	unlink(path.c_str()); unlink((path + ".queue").c_str());
}
static size_t bsize(Case & c) { switch (c(4)) { case 0: return 1 + c(9); case 1: return 64; case 2: return 1 + c(700); default: return 1000 + c(4001); } }

struct Model {
	std::map<uint64_t, bytes> live;   // in use; empty contents: not written yet
	std::vector<block_handle> freed;
	uint64_t end = 0;
	size_t bs;
	void fresh_handle(Case & c, const block_handle & h) {
		CHECK(c, h.size == bs, "alloc-size", h.size, bs);
		auto i = live.lower_bound(h.position);
		CHECK(c, i == live.end() || i->first >= h.position + bs, "alloc-overlap", h.position, "overlaps the block in use at", i == live.end() ? 0 : i->first);
		if (i != live.begin()) { --i; CHECK(c, i->first + bs <= h.position, "alloc-overlap", h.position, "overlaps the block in use at", i->first); }
		live[h.position] = bytes();
		end = std::max<uint64_t>(end, h.position + bs);
	}
	block_handle pick(Case & c) { auto i = live.begin(); std::advance(i, c(live.size())); return block_handle(i->first, bs); }
};

static void freespace_s(Case & c) {
	fresh();
	Model m; m.bs = bsize(c);
	c.op("block size", m.bs);
	std::unique_ptr<tpie::blocks::bits::freespace_collection> f(new tpie::blocks::bits::freespace_collection(path + ".queue", m.bs));
	size_t n = 10 + c(c.size * 8 + 300); bool grow = true; uint64_t top = 0; size_t nfree = 0;
	for (size_t k = 0; k < n; ++k) {
		if (c.p(1, 15)) grow = !grow;
		int w = c(20);
		if (w < (grow ? 12 : 6)) { c.op("alloc"); block_handle h = f->alloc(); m.fresh_handle(c, h); if (nfree) { --nfree; CHECK(c, h.position + m.bs <= top, "alloc-grows", "although blocks are free"); } top = std::max<uint64_t>(top, h.position + m.bs); }
		else if (w < 19) { if (m.live.empty()) continue; block_handle h = m.pick(c); c.op("free", h.position); f->free(h); m.live.erase(h.position); ++nfree; }
		else { c.op("reopen"); f.reset(); f.reset(new tpie::blocks::bits::freespace_collection(path + ".queue", m.bs)); c.nontrivial = true; }
		CHECK(c, f->size() == top, "freespace-size", f->size(), top);
	}
}

static void check_file(Case & c, Model & m) {
	for (auto & i : m.live) {
		if (i.second.empty()) continue;
		bytes b(i.second.size()); int fd = ::open(path.c_str(), O_RDONLY);
		ssize_t r = pread(fd, &b[0], b.size(), i.first); ::close(fd);
		CHECK(c, r == (ssize_t)b.size() && b == i.second, "file-contents", "block at", i.first, "is not in the file");
	}
}

static void collection_s(Case & c) {
	fresh();
	Model m; m.bs = bsize(c);
	c.op("block size", m.bs);
	std::unique_ptr<block_collection> f(new block_collection(path, m.bs, true));
	size_t n = 10 + c(c.size * 4 + 100); bool grow = true;
	block buf;
	auto readall = [&]() {
		for (auto & i : m.live) if (!i.second.empty()) {
			f->read_block(block_handle(i.first, m.bs), buf);
			CHECK(c, buf.size() == m.bs, "read-size", buf.size(), m.bs);
			CHECK(c, std::equal(i.second.begin(), i.second.end(), buf.begin()), "collection-contents", "block at", i.first);
		}
	};
	for (size_t k = 0; k < n; ++k) {
		if (c.p(1, 15)) grow = !grow;
		int w = c(40);
		if (w < (grow ? 16 : 6)) {
			c.op("alloc"); block_handle h = f->get_free_block(); m.fresh_handle(c, h);
			if (c.p(4, 5)) { c.op("write", h.position); block b(m.bs); bytes v = rnd(c, m.bs); std::copy(v.begin(), v.end(), b.begin()); f->write_block(h, b); m.live[h.position] = v; }
		} else if (w < 22) { if (m.live.empty()) continue; block_handle h = m.pick(c); c.op("free", h.position); f->free_block(h); m.live.erase(h.position); }
		else if (w < 29) {
			if (m.live.empty()) continue;
			block_handle h = m.pick(c); bytes & o = m.live[h.position];
			size_t s = o.empty() || c.p(2, 3) ? m.bs : 1 + c(m.bs);
			c.op("write", h.position, s); block b(s); bytes v = rnd(c, s); std::copy(v.begin(), v.end(), b.begin()); f->write_block(h, b);
			CHECK(c, b.size() == s && std::equal(v.begin(), v.end(), b.begin()), "write-changed-block");
			if (o.empty()) o = v; else std::copy(v.begin(), v.end(), o.begin());
		} else if (w < 38) {
			if (m.live.empty()) continue;
			block_handle h = m.pick(c); bytes & o = m.live[h.position]; if (o.empty()) continue;
			c.op("read", h.position); f->read_block(h, buf);
			CHECK(c, buf.size() == m.bs && std::equal(o.begin(), o.end(), buf.begin()), "collection-contents", "block at", h.position);
		} else {
			bool w = c.p(1, 2); c.op("reopen", w); f.reset();
			check_file(c, m);
			f.reset(new block_collection(path, m.bs, w)); c.nontrivial = true; readall();
			if (!w) { f.reset(); f.reset(new block_collection(path, m.bs, true)); if (c.p(1, 2)) readall(); }
		}
	}
	readall();
	f.reset();
	check_file(c, m);
}

static void cache_s(Case & c) {
	fresh();
	Model m; m.bs = bsize(c);
	const size_t cap = 1 + c(c.p(1, 2) ? 3 : 12);
	c.op("block size", m.bs, "cache", cap);
	std::map<uint64_t, bytes> disk;               // what is in the file
	std::list<uint64_t> lru;                      // cached, oldest first
	std::map<uint64_t, block *> in; std::map<uint64_t, bool> dirty;
	bool rw = true;
	std::unique_ptr<block_collection_cache> f(new block_collection_cache(path, m.bs, cap, true));
	size_t used0 = 0, cached0 = 0; bool stack_op = false, async = false; const bool frees = c.p(1, 2);
	size_t n = 10 + c(c.size * 6 + 150); bool grow = true;
	auto evict = [&]() -> int {                      // number of blocks written
		if (lru.size() < cap) return 0;
		uint64_t p = lru.front(); lru.pop_front(); int r = dirty[p];
		if (r) disk[p] = m.live[p];
		in.erase(p); dirty.erase(p); return r;
	};
	auto touch = [&](uint64_t p) { lru.remove(p); lru.push_back(p); };
	auto verify = [&](int er, int ew, const char * what) {
		CHECK(c, reads == er, "cache-reads", what, "blocks read from the file", reads, "instead of", er);
		CHECK(c, writes == ew, "cache-writes", what, "blocks written to the file", writes, "instead of", ew);
		if (stack_op || async) return;            // the stack of free blocks has buffers of its own, which another thread handles
		// <=: a buffer of an earlier stream may still be released by that thread
		CHECK(c, get_memory_manager().used() + cached0 * (m.bs + sizeof(block)) <= used0 + lru.size() * (m.bs + sizeof(block)), "cache-size", what, "memory of", lru.size(), "cached blocks, was", cached0);
	};
	auto fill = [&](uint64_t p, block * b) { bytes v = rnd(c, m.bs); std::copy(v.begin(), v.end(), b->begin()); m.live[p] = v; };
	auto same = [&](uint64_t p, block * b) {
		CHECK(c, b->size() == m.bs, "cache-block-size", b->size());
		CHECK(c, std::equal(m.live[p].begin(), m.live[p].end(), b->begin()), "cache-contents", "block at", p, "is not what was last written");
	};
	for (size_t k = 0; k < n; ++k) {
		if (c.p(1, 15)) grow = !grow;
		int w = c(60); reads = writes = 0; used0 = get_memory_manager().used(); cached0 = lru.size(); stack_op = rw && w < 20;
		if (rw && w < (grow ? 14 : 5)) {
			c.op("alloc"); block_handle h = f->get_free_block(); m.fresh_handle(c, h);
			int e = evict();
			lru.push_back(h.position); dirty[h.position] = true;
			verify(0, e, "get_free_block");
			block * b = f->read_block(h); in[h.position] = b;
			CHECK(c, b->size() == m.bs, "cache-block-size", b->size());
			verify(0, e, "reading a new block");
			fill(h.position, b);
			if (c.p(1, 2)) { f->write_block(h); verify(0, e, "write_block"); }
		} else if (rw && w < 20) {
			if (m.live.empty()) continue;
			block_handle h = m.pick(c); uint64_t p = h.position;
			if ((lru.empty() || !frees) && !c.p(1, 2)) continue;
			if (!frees && k < n / 2) continue;
			async = true; c.op("free", p); f->free_block(h);
			m.live.erase(p); lru.remove(p); in.erase(p); dirty.erase(p); disk.erase(p);
			verify(0, 0, "free_block");
		} else if (w < 56) {
			if (m.live.empty()) continue;
			block_handle h = m.pick(c); uint64_t p = h.position;
			bool mod = rw && w >= 40;
			c.op(mod ? "modify" : "read", p);
			bool hit = in.count(p); int e = 0;
			block * b = f->read_block(h);
			if (hit) { CHECK(c, b == in[p], "cache-pointer", "a cached block moved"); } else { e = evict(); c.nontrivial = true; in[p] = b; dirty[p] = false; }
			touch(p);
			verify(!hit, e, "read_block");
			same(p, b);
			if (mod) { fill(p, b); f->write_block(h); dirty[p] = true; verify(!hit, e, "write_block"); }
		} else if (w < 58 && !in.empty()) {
			auto i = in.begin(); std::advance(i, c(in.size()));
			if (!rw) continue;
			c.op("write", i->first); fill(i->first, i->second); f->write_block(block_handle(i->first, m.bs)); dirty[i->first] = true; touch(i->first);
			verify(0, 0, "write_block");
		} else if (w >= 58) {
			if (!frees && k < n / 2) continue;
			async = true; rw = !rw || c.p(1, 2); c.op("reopen", rw);
			int ew = 0; for (auto & d : dirty) if (d.second) { ++ew; disk[d.first] = m.live[d.first]; }
			f.reset();
			CHECK(c, writes == ew, "cache-writes", "closing wrote", writes, "blocks instead of", ew);
			check_file(c, m); lru.clear(); in.clear(); dirty.clear();
			f.reset(new block_collection_cache(path, m.bs, cap, rw));
		}
		if (c.p(1, 8)) for (auto & d : disk) {      // the file has exactly what was written back
			bytes b(m.bs); int fd = ::open(path.c_str(), O_RDONLY); ssize_t r = pread(fd, &b[0], m.bs, d.first); ::close(fd);
			CHECK(c, r == (ssize_t)m.bs && b == d.second, "cache-file", "block at", d.first, "differs in the file");
		}
	}
	f.reset();
	check_file(c, m);
}

int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"freespace", freespace_s}, {"collection", collection_s}, {"cache", cache_s}},
	              [] { set_block_size(640); tpie_init(ALL & ~JOB_MANAGER); get_memory_manager().set_limit(1 << 30); });
}
