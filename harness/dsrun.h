// Shared main loop of the scheduled drivers: strategies, collection of the distinct traces, reports.
#pragma once
#include "dsched.h"
#include "common.h"
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
namespace dr {
struct Opt { long from = 0, count = 1000; double secs = 10; uint64_t seed = 1; bool dfs = false; int scen = -1; long only = -1; int bound = 2; size_t maxtraces = 4000; bool race = false; };
inline Opt& opt() { static Opt o; return o; }
inline std::unordered_map<std::string, long>& traces() { static std::unordered_map<std::string, long> t; return t; }
inline long& currun() { static long r; return r; }
inline std::string& desc() { static std::string d; return d; }
inline const char*& tags() { static const char* t = ""; return t; }
inline void report(const char* kind, const char* why)
{
	std::string s = std::string("\n") + kind + " " + tags() + " run=" + std::to_string(currun()) + " scenario=" + desc() + " : " + why + " | " + ds::log() + "\n";
	cm::wr(s.c_str());
}
// -race: the executions recorded so far, this one up to here
inline void flush_races()
{
	static bool once = false; if (!opt().race || once) return; once = true;
	std::string t = ds::races(); t = "\nT 1 " + t + " | " + ds::races_info() + "\n"; for (auto& x : traces()) if (x.first != "~") t += "T 1 " + x.first + "\n"; for (size_t k = 0; k < t.size();) { ssize_t n = write(1, t.data() + k, t.size() - k); if (n <= 0) break; k += (size_t)n; }
}
inline void stuck(const char* why) { ds::enter(); report("STUCK", why); flush_races(); _exit(96); }
inline void fail(const char* why) { ds::enter(); report("VIOL", why); flush_races(); _exit(95); }
inline void crashed(int s) { ds::enter(); static bool twice = false; if (twice) _exit(98); twice = true; report("CRASH", s == SIGABRT ? "abort" : "invalid memory access"); flush_races(); _exit(98); }
inline void parse(int argc, char** argv)
{
	Opt& o = opt();
	for (int i = 1; i < argc; ++i) { std::string a = argv[i];
		if (a == "-t") o.secs = atof(argv[++i]); else if (a == "-s") o.seed = strtoull(argv[++i], 0, 10); else if (a == "-n") o.count = atol(argv[++i]); else if (a == "-from") o.from = atol(argv[++i]);
		else if (a == "-dfs") o.dfs = true; else if (a == "-scen") o.scen = atoi(argv[++i]); else if (a == "-only") o.only = atol(argv[++i]); else if (a == "-bound") o.bound = atoi(argv[++i]); else if (a == "-race") o.race = true; else if (a == "-traces") o.maxtraces = (size_t)atol(argv[++i]); }
	cm::setup(); ds::on_stuck = stuck; ds::record = o.race;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crashed; sa.sa_flags = SA_ONSTACK; for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
}
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } unsigned below(unsigned n) { return (unsigned)((next() >> 32) * (uint64_t)n >> 32); } };
inline double& gapmul() { static double m = 1; return m; } // plain accesses per preemption: scale of the driver
inline ds::Strategy strategy(long run, uint64_t seed, int est)
{
	ds::Strategy s; Rng r{ seed * 7919 + (uint64_t)run * 104729 + 5 }; s.seed = r.next() | 1; static const double ps[] = { 0.03, 0.1, 0.25, 0.5, 0.9 }; static const double gaps[] = { 3, 8, 20, 60, 200, 1000 };
	switch (run % 5) {
		case 0: s.kind = ds::Strategy::RANDOM; s.p_sync = ps[r.below(5)]; break;
		case 1: s.kind = ds::Strategy::PCT; s.depth = 1 + (int)r.below(5); s.est_steps = est; break;
		case 2: s.kind = ds::Strategy::RANDOM; s.p_sync = ps[r.below(5)]; s.plain_gap = gaps[r.below(6)]; break;
		case 3: s.kind = ds::Strategy::PCT; s.depth = (int)r.below(4); s.est_steps = est; s.plain_gap = gaps[1 + r.below(5)] * 2; break;
		default: s.kind = ds::Strategy::RANDOM; s.p_sync = ps[r.below(5)]; s.plain_gap = gaps[r.below(6)]; s.p_spurious = r.below(2) ? 0.1 : 0.3; break;
	}
	s.plain_gap *= gapmul();
	return s;
}
// body(run): executes one schedule of one scenario between ds::begin and ds::end and leaves its trace in ds::log()
template<class F> inline int loop(F&& body, int est)
{
	Opt& o = opt(); double t0 = cm::now(); long runs = 0, steps = 0, sw = 0; bool complete = false; double avg = est;
	auto one = [&](long run, const ds::Strategy& s) {
		currun() = run; alarm(120); body(run, s); alarm(0); ++runs; steps += ds::steps(); sw += ds::switches(); avg = avg * 0.98 + ds::steps() * 0.02;
		// -race: the trace is the record of the accesses, with the code addresses of each pair of them
		std::string text = o.race ? ds::races() : ds::log(); if (o.race) text += " | " + ds::races_info();
		auto& t = traces(); if (t.size() < o.maxtraces) t[text]++; else { auto it = t.find(text); if (it != t.end()) it->second++; else t["~"]++; }
	};
	if (o.dfs) {
		ds::Strategy s; s.kind = ds::Strategy::DFS; s.preempt_bound = o.bound; complete = true; { ds::Strategy w; w.p_sync = 0; body(0, w); body(0, w); }
		do { one(ds::dfs_count(), s); if (cm::now() - t0 > o.secs) { complete = false; break; } } while (ds::dfs_next());
	}
	else if (o.only >= 0) { one(o.only, strategy(o.only, o.seed, est)); }
	else for (long r = o.from; r < o.from + o.count; ++r) { one(r, strategy(r, o.seed, est)); if (cm::now() - t0 > o.secs) break; }
	for (auto& t : traces()) if (t.first != "~") printf("T %ld %s\n", t.second, t.first.c_str());
	printf("DONE runs=%ld steps=%ld switches=%ld traces=%zu complete=%d\n", runs, steps, sw, traces().size(), (int)(complete && ds::dfs_divergences() == 0)); fflush(stdout);
	return 0;
}
} // namespace dr
