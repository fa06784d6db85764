// Driver support: runs randomly generated cases of the real code against an
// executable oracle, in forked batches, and reports the first failing case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <sstream>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <signal.h>
#include <dirent.h>
#include <set>

struct Fail { std::string sig, msg; };

struct Case {
	uint64_t s, hash = 1469598103934665603ull;
	size_t size = 8;
	std::ostringstream log;
	bool nontrivial = false;
	static void (*crashlog)(const char *);
	explicit Case(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) u(); }
	uint64_t u() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// uniform in [0, n)
	uint64_t operator()(uint64_t n) { return n ? u() % n : 0; }
	bool p(int a, int b) { return (int)(u() % b) < a; }
	template <class... A> void op(const A &... a) {
		std::ostringstream o;
		int dummy[] = {0, ((o << a << ' '), 0)...};
		(void)dummy;
		std::string t = o.str();
		for (char c : t) hash = (hash ^ (unsigned char)c) * 1099511628211ull;
		log << t << "; ";
		if (crashlog) crashlog((t + "; ").c_str());
	}
	template <class... A> [[noreturn]] void fail(const std::string &sig, const A &... a) {
		std::ostringstream o;
		int dummy[] = {0, ((o << a << ' '), 0)...};
		(void)dummy;
		throw Fail{sig, o.str()};
	}
};
inline void (*Case::crashlog)(const char *) = nullptr;

#define CHECK(c, cond, sig, ...) do { if (!(cond)) (c).fail(sig, "expected " #cond, ##__VA_ARGS__); } while (0)

struct Scenario {
	const char * name;
	std::function<void(Case &)> run;
	int weight;
	Scenario(const char * n, std::function<void(Case &)> f, int w = 1) : name(n), run(f), weight(w) {}
};

struct Shared {
	volatile uint64_t cur, done, nontrivial, distinct;
	volatile int failed;
	char text[1 << 16];
	char trace[1 << 16];
	volatile size_t tlen;
};
inline Shared * g_sh;
inline void crash_append(const char * t) {
	size_t n = strlen(t);
	if (g_sh->tlen + n + 1 < sizeof g_sh->trace) { memcpy(g_sh->trace + g_sh->tlen, t, n + 1); g_sh->tlen = g_sh->tlen + n; }
}
inline double h_now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// init/fini run inside every batch process
inline int h_main(int argc, char ** argv, std::vector<Scenario> sc, std::function<void()> init = {}, std::function<void()> fini = {},
                  int batch = 200, int case_timeout = 20) {
	uint64_t seed = 1, only_case = 0; double secs = 5; bool one = false; std::string only; uint64_t maxcases = 0;
	std::set<std::string> known;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
		else if (a == "--secs") secs = atof(argv[++i]);
		else if (a == "--only") only = argv[++i];
		else if (a == "--case") { one = true; only_case = strtoull(argv[++i], 0, 10); }
		else if (a == "--max") maxcases = strtoull(argv[++i], 0, 10);
		else if (a == "--known") known.insert(argv[++i]);
	}
	g_sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int rc = 0;
	uint64_t total = 0, nontriv = 0, dist = 0;
	std::set<std::string> dead;
	double t0 = h_now();
	std::vector<Scenario> use;
	double wsum = 0;
	for (auto & s : sc) if (only.empty() || ("," + only + ",").find(std::string(",") + s.name + ",") != std::string::npos) { use.push_back(s); wsum += s.weight; }
	std::vector<uint64_t> next(use.size(), 0);
	std::vector<double> spent(use.size(), 0);
	bool quit = false;
	while (!quit) {
		// scenario with the least spent share of the time
		size_t k = 0;
		for (size_t i = 1; i < use.size(); ++i) if (spent[i] / use[i].weight < spent[k] / use[k].weight) k = i;
		double b0 = h_now();
		uint64_t first = one ? only_case : next[k], n = one ? 1 : (next[k] == 0 ? std::min(batch, 40) : batch);
		g_sh->failed = 0; g_sh->done = 0; g_sh->nontrivial = 0; g_sh->distinct = 0; g_sh->text[0] = 0; g_sh->trace[0] = 0; g_sh->tlen = 0;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			setpgid(0, 0);
			Case::crashlog = crash_append;
			if (init) init();
			std::set<uint64_t> seen;
			for (uint64_t c = first; c < first + n; ++c) {
				g_sh->cur = c; g_sh->tlen = 0; g_sh->trace[0] = 0;
				alarm(case_timeout);
				uint64_t cs = seed * 1000003ull + c * 7919ull;
				for (const char * q = use[k].name; *q; ++q) cs = cs * 31 + (unsigned char)*q;
				Case C(cs);
				C.size = 2 + (c % 60) + (c > 600 ? c % 400 : 0);
				try {
					use[k].run(C);
				} catch (Fail & f) {
					g_sh->failed = 1;
					snprintf(g_sh->text, sizeof g_sh->text, "sig=%s :: %s", f.sig.c_str(), f.msg.c_str());
					_exit(0);
				} catch (std::exception & e) {
					g_sh->failed = 1;
					snprintf(g_sh->text, sizeof g_sh->text, "sig=%s-exception :: unexpected exception %s", use[k].name, e.what());
					_exit(0);
				}
				g_sh->done = g_sh->done + 1;
				if (C.nontrivial) g_sh->nontrivial = g_sh->nontrivial + 1;
				if (seen.insert(C.hash).second && C.nontrivial) g_sh->distinct = g_sh->distinct + 1;
				if (c == first && first < 100) {
					std::string t = C.log.str().substr(0, 400);
					printf("SAMPLE %s case=%llu %s\n", use[k].name, (unsigned long long)c, t.c_str());
					fflush(stdout);
				}
				if (!one && h_now() - t0 > secs) break;
			}
			alarm(case_timeout);
			if (fini) fini();
			fflush(stdout);
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		kill(-pid, SIGKILL);
		if (!g_sh->failed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			g_sh->failed = 1;
			if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
				snprintf(g_sh->text, sizeof g_sh->text, "sig=%s-hang :: no answer within %d s", use[k].name, case_timeout);
			else
				snprintf(g_sh->text, sizeof g_sh->text, "sig=%s-crash :: process ended with status 0x%x", use[k].name, st);
		}
		total += g_sh->done; nontriv += g_sh->nontrivial; dist += g_sh->distinct;
		bool isknown = false;
		if (g_sh->failed) {
			std::string t = g_sh->text;
			for (auto & s : known) if (t.compare(0, 4 + s.size() + 1, "sig=" + s + " ") == 0) isknown = true;
			printf("%s scenario=%s case=%llu seed=%llu %s\n", isknown ? "KNOWN" : "FAIL", use[k].name, (unsigned long long)g_sh->cur, (unsigned long long)seed, g_sh->text);
			printf("TRACE %s\n", g_sh->trace);
			if (!isknown) { rc = 1; quit = true; }
		}
		next[k] = (g_sh->failed ? g_sh->cur + 1 : first + n);
		spent[k] += h_now() - b0 + 1e-4;
		if (one || h_now() - t0 > secs || (maxcases && total >= maxcases)) quit = true;
	}
	for (size_t i = 0; i < use.size(); ++i) printf("SCENARIO %s cases=%llu\n", use[i].name, (unsigned long long)next[i]);
	printf("DONE cases=%llu nontrivial=%llu distinct=%llu secs=%.1f\n", (unsigned long long)total, (unsigned long long)nontriv, (unsigned long long)dist, h_now() - t0);
	return rc;
}
