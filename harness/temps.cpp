// Bounded driver for temporary names and temporary files, inside a scratch directory.
// LINK: -Wl,--wrap=_ZNSt13random_device9_M_getvalEv
#include "h.h"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <tpie/tpie.h>
#include <tpie/tempname.h>
#include <tpie/stats.h>
using namespace tpie;
namespace fs = std::filesystem;

// a random device that can be made to repeat itself
static int rmode = 0;
static unsigned rstate = 1;
extern "C" {
unsigned __real__ZNSt13random_device9_M_getvalEv(void *);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void * p) {
	if (rmode == 1) return 0x1234;
	if (rmode == 2) { rstate = rstate * 1103515245u + 12345u; return (rstate >> 16) & 1; }
	return __real__ZNSt13random_device9_M_getvalEv(p);
}
}

static std::string root;
static void fresh() {
	rmode = 0;
	char b[4096]; std::string d = getenv("TMPDIR");
	if (realpath(d.c_str(), b)) d = b;
	root = d + "/t" + std::to_string(getpid());
	fs::remove_all(root);
	fs::create_directory(root);
}
static void touch(const std::string & p) { std::ofstream o(p); o << "x"; }
static size_t entries(const std::string & d) { size_t n = 0; for (auto & e : fs::recursive_directory_iterator(d)) { (void)e; ++n; } return n; }

static void names_s(Case & c) {
	fresh();
	finish_tempfile();
	tempname::set_default_base_name("TPIE");
	std::vector<std::string> dirs;
	for (int i = 0; i < 3; ++i) { dirs.push_back(root + "/d" + std::to_string(i)); fs::create_directory(dirs.back()); }
	touch(root + "/d0/file"); fs::create_directory(root + "/d1/sub");
	std::string conf = dirs[0];
	tempname::set_default_path(conf);
	std::string base = "TPIE";
	std::set<std::string> handed, madedirs;
	size_t n = 3 + c(25);
	for (size_t k = 0; k < n; ++k) switch (c(9)) {
	case 0: {
		conf = dirs[c(3)];
		c.op("set_default_path", conf.substr(root.size()));
		tempname::set_default_path(conf);
		CHECK(c, tempname::get_default_path() == conf, "default-path", tempname::get_default_path());
		break;
	}
	case 1: {
		std::string d = dirs[c(3)];
		const char * subs[] = {"sub", "file", "other", "no/such"};
		std::string s = subs[c(4)];
		std::string want = d + "/" + s;
		if (s == "no/such" || (fs::exists(want) && !fs::is_directory(want))) want = d; // documented fall back
		c.op("set_default_path", d.substr(root.size()), s);
		tempname::set_default_path(d, s);
		CHECK(c, tempname::get_default_path() == want, "default-subdir", tempname::get_default_path(), "expected", want);
		CHECK(c, fs::is_directory(want), "default-subdir-exists", want);
		conf = want;
		break;
	}
	case 2: {
		base = c.p(1, 2) ? "TPIE" : "BASE" + std::to_string(c(100));
		c.op("base name", base);
		tempname::set_default_base_name(base);
		CHECK(c, tempname::get_default_base_name() == base, "base-name", base);
		break;
	}
	default: {
		std::string post = c.p(1, 2) ? "" : "post" + std::to_string(c(10)), ext = c.p(1, 2) ? "" : "ext" + std::to_string(c(10));
		std::string dir = c.p(1, 2) ? "" : dirs[c(3)];
		bool isdir = c.p(1, 3), make = c.p(1, 2);
		rmode = dir.empty() ? 0 : int(c(3));
		c.op(isdir ? "dir name" : "name", post, ext, dir.empty() ? "default" : dir.substr(root.size()), "random mode", rmode);
		std::string r;
		bool refused = false;
		try { r = isdir ? tempname::tpie_dir_name(post, dir) : tempname::tpie_name(post, dir, ext); }
		catch (tempfile_error &) { refused = true; }
		int m = rmode;
		rmode = 0;
		if (refused) { CHECK(c, m != 0, "refused", "no name although every name is free"); break; }
		fs::path p(r);
		CHECK(c, !fs::exists(p), "exists", r, "exists already");
		CHECK(c, m || handed.insert(r).second, "twice", r, "handed out twice");
		CHECK(c, fs::is_directory(p.parent_path()), "no-directory", r);
		if (!dir.empty()) CHECK(c, p.parent_path().string() == dir, "wrong-directory", r, dir);
		else {
			CHECK(c, p.parent_path().parent_path().string() == conf, "wrong-directory", r, "not in a directory of", conf);
			madedirs.insert(p.parent_path().string());
		}
		std::string f = p.filename().string();
		CHECK(c, f.compare(0, base.size() + 1, base + "_") == 0, "wrong-base", r, base);
		if (!post.empty()) CHECK(c, f.compare(base.size() + 1, post.size() + 1, post + "_") == 0, "wrong-post-base", r, post);
		std::string want = isdir ? "" : ext.empty() ? ".tpie" : "." + ext;
		CHECK(c, fs::path(f).extension().string() == want, "wrong-extension", r, want);
		if (make) { if (isdir) { fs::create_directory(p); touch((p / "x").string()); } else touch(r); }
		c.nontrivial = true;
		break;
	}
	}
	c.op("finish");
	finish_tempfile();
	for (auto & d : madedirs) CHECK(c, !fs::exists(d), "left-behind", d);
	CHECK(c, fs::exists(root + "/d0/file") && fs::exists(root + "/d1/sub"), "removed-too-much", "a file that is not temporary");
	fs::remove_all(root);
}

struct Inner { std::string path; bool persist = false; uint64_t rec = 0; };
static void files_s(Case & c) {
	fresh();
	finish_tempfile();
	tempname::set_default_path(root);
	std::vector<std::pair<std::unique_ptr<temp_file>, std::shared_ptr<Inner>>> h;
	std::map<std::string, bool> exists; // every path ever used
	size_t n = 4 + c(40);
	int64_t usage = 0, off = (int64_t)get_temp_file_usage();
	auto drop = [&](std::shared_ptr<Inner> & i) {
		if (i.use_count() == 1 && !i->path.empty() && !i->persist && exists[i->path]) { exists[i->path] = false; usage -= i->rec; }
		i.reset();
	};
	auto check = [&]() {
		for (auto & e : exists) CHECK(c, fs::exists(e.first) == e.second, e.second ? "removed-early" : "not-removed", e.first.substr(root.size()));
		for (auto & x : h) CHECK(c, x.first->is_persistent() == x.second->persist, "persistent");
		CHECK(c, (int64_t)get_temp_file_usage() - off == usage, "usage", get_temp_file_usage(), usage);
	};
	for (size_t k = 0; k < n; ++k) {
		size_t i = c(h.size());
		std::string p = root + "/f" + std::to_string(c(6));
		bool per = c.p(1, 3);
		switch (h.empty() ? c(2) : c(12)) {
		case 0: c.op("new"); h.emplace_back(new temp_file, std::make_shared<Inner>()); break;
		case 1: c.op("new", p.substr(root.size()), per); h.emplace_back(new temp_file(p, per), std::make_shared<Inner>(Inner{p, per})); if (!exists.count(p)) exists[p] = false; break;
		case 2: c.op("copy", i); h.emplace_back(new temp_file(*h[i].first), h[i].second); break;
		case 3: {
			size_t j = c(h.size());
			c.op("assign", i, "from", j);
			*h[i].first = *h[j].first;
			auto s = h[j].second;
			if (i != j && s != h[i].second) { drop(h[i].second); h[i].second = s; }
			break;
		}
		case 4: case 5: {
			c.op("path", i);
			std::string q = h[i].first->path();
			auto & in = *h[i].second;
			if (in.path.empty()) {
				CHECK(c, !exists.count(q) && !fs::exists(q), "path-collides", q);
				CHECK(c, fs::path(q).parent_path().parent_path().string() == root, "path-directory", q);
				in.path = q; exists[q] = false;
			} else CHECK(c, q == in.path, "path-changed", q, in.path);
			if (c.p(2, 3)) { c.op("create"); touch(q); exists[q] = true; }
			break;
		}
		case 6: c.op("persist", i, per); h[i].first->set_persistent(per); h[i].second->persist = per; break;
		case 7: { c.op("free", i); h[i].first->free(); drop(h[i].second); h[i].second = std::make_shared<Inner>(); break; }
		case 8: {
			c.op("set_path", i, p.substr(root.size()), per);
			h[i].first->set_path(p, per);
			drop(h[i].second); h[i].second = std::make_shared<Inner>(Inner{p, per});
			if (!exists.count(p)) exists[p] = false;
			break;
		}
		case 9: { uint64_t s = c(1 << 20); c.op("recorded size", i, s); h[i].first->update_recorded_size(s); usage += (int64_t)s - (int64_t)h[i].second->rec; h[i].second->rec = s; break; }
		default: c.op("destroy", i); h[i].first.reset(); drop(h[i].second); h.erase(h.begin() + i); c.nontrivial = true; break;
		}
		check();
	}
	while (!h.empty()) { c.op("destroy last"); h.back().first.reset(); drop(h.back().second); h.pop_back(); check(); }
	finish_tempfile();
	fs::remove_all(root);
}

int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"names", names_s}, {"tempfiles", files_s}},
		[] { tpie_init(ALL & ~JOB_MANAGER & ~STREAMS); get_memory_manager().set_limit(1 << 30); }, [] { tpie_finish(ALL & ~JOB_MANAGER & ~STREAMS); });
}
