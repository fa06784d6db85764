// Bounded driver for progress indicators: random trees of sub-indicators under a recording root.
#include "h.h"
#include <tpie/tpie.h>
#include <tpie/progress_indicator_base.h>
#include <tpie/progress_indicator_subindicator.h>
#include <tpie/fractional_progress.h>
#include <memory>
using namespace tpie;

struct root : progress_indicator_base {
	Case & c; uint64_t last = 0, n = 0;
	root(Case & c, uint64_t r) : progress_indicator_base(r), c(c) {}
	void refresh() override { CHECK(c, m_current >= last, "progress-back", m_current, last); CHECK(c, m_current <= m_range, "progress-past-end", m_current, m_range); last = m_current; ++n; }
};

static uint64_t some(Case & c) { int k = c(8); return k < 4 ? 1 + c(20) : k < 6 ? 1 + c(3000) : 1 + c(1u << 30); }

// does all of a task with `range` steps on p (already initialised)
static void work(Case & c, progress_indicator_base & p, uint64_t range, int depth) {
	if (depth && range >= 1 && c.p(2, 3)) {
		uint64_t left = range; int k = 1 + c(4);
		for (int i = 0; i < k; ++i) {
			uint64_t outer = i + 1 == k ? left : c.p(1, 6) ? 0 : c(left + 1); left -= outer;
			uint64_t before = p.get_current(), r = c.p(1, 8) ? 0 : some(c);
			c.op("sub", outer, "range", r);
			progress_indicator_subindicator s(&p, outer, c.p(1, 2) ? "crumb" : 0, IMPORTANCE_MAJOR, log_group_mode::disabled);
			s.init(r);
			CHECK(c, p.get_current() == before, "progress-init", p.get_current(), before);
			CHECK(c, s.get_range() == r && s.get_current() == 0, "progress-range");
			work(c, s, r, depth - 1);
			CHECK(c, p.get_current() >= before && p.get_current() <= before + outer, "progress-share", p.get_current(), before, outer);
			s.done();
			CHECK(c, p.get_current() == (r ? before + outer : before), "progress-done", p.get_current(), before, outer);
			c.nontrivial = true;
		}
		return;
	}
	uint64_t done = 0, goal = c.p(1, 8) ? range + c(range + 3) : c.p(1, 6) ? c(range + 1) : range, n = 1 + c(c.p(1, 6) ? 400 : 12);
	while (done < goal && n--) {
		uint64_t s = c.p(1, 2) ? 1 : 1 + c(goal - done); if (!n) s = goal - done;
		c.op("step", s);
		if (s == 1 && c.p(1, 2)) p.step(); else p.step(s);
		done += s;
		CHECK(c, p.get_current() == done, "progress-count", p.get_current(), done);
	}
}

static void progress_s(Case & c) {
	if (c.p(1, 3)) {
		root r(c, 1);
		{
			fractional_progress fp(&r);
			fp.id() << "vp" << c(4);
			int k = 1 + c(5); bool any = false;
			std::vector<std::unique_ptr<fractional_subindicator>> v; std::vector<uint64_t> n; std::vector<bool> en;
			static const char * ids[] = {"alpha", "beta", "gamma", "delta", "epsilon"};
			for (int i = 0; i < k; ++i) { n.push_back(some(c)); en.push_back(c.p(4, 5)); any = any || en.back(); c.op("fraction", n[i], (int)en[i]); v.emplace_back(new fractional_subindicator(fp, ids[i], TPIE_FSI, n[i], c.p(1, 2) ? "x" : 0, IMPORTANCE_MAJOR, en[i])); }
			fp.init(); CHECK(c, r.get_current() == 0 && r.get_range() == 23000, "fraction-init", r.get_current());
			for (int i = 0; i < k; ++i) {
				uint64_t before = r.get_current(), q = some(c);
				v[i]->init(q); CHECK(c, r.get_current() == before, "fraction-sub-init");
				work(c, *v[i], q, 2);
				v[i]->done(); CHECK(c, r.get_current() >= before, "fraction-back");
				if (!en[i]) CHECK(c, r.get_current() == before, "fraction-disabled", r.get_current(), before);
			}
			CHECK(c, r.get_current() <= 23000 && (!any || r.get_current() + 2 * k >= 23000), "fraction-total", r.get_current(), k);
			fp.done();
			c.nontrivial = true;
		}
		return;
	}
	uint64_t range = some(c); root r(c, 1); c.op("root", range); r.init(range);
	CHECK(c, r.get_range() == range && r.get_current() == 0, "progress-root");
	// a flat root must not be overstepped by its user
	uint64_t left = range; int k = 1 + c(3);
	for (int i = 0; i < k; ++i) {
		uint64_t outer = i + 1 == k ? left : c(left + 1), before = r.get_current(), q = some(c); left -= outer;
		c.op("top", outer, "range", q);
		progress_indicator_subindicator s; s = progress_indicator_subindicator(&r, outer, 0, IMPORTANCE_MAJOR, log_group_mode::disabled);
		if (c.p(1, 2)) s.setup(&r, outer, c.p(1, 2) ? "y" : 0, IMPORTANCE_MINOR, log_group_mode::disabled);
		s.init(q); work(c, s, q, 3); s.done();
		CHECK(c, r.get_current() == before + outer, "progress-done", r.get_current(), before, outer);
	}
	CHECK(c, r.get_current() == range, "progress-full", r.get_current(), range);
}

int main(int argc, char ** argv) {
	return h_main(argc, argv, {{"progress", progress_s}}, [] { tpie_init(ALL & ~JOB_MANAGER); get_memory_manager().set_limit(1 << 30); });
}
