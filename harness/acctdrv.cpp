// Replays histories of spec/Gen_Accounting.tla: the memory footprint a context reports and the time a timer tells.
//   acctdrv FILE [-t seconds] [-b binding] [-h history]
#include "common.h"
#include "datagen.h"
#include <stenos/stenos.h>
#include <set>
#include <cmath>
#include <atomic>
#include <cstdarg>
#include "allochook.h"
typedef std::vector<uint8_t> Bytes;

// ---- the monotonic clock: as the history says; another clock tells something else
static std::atomic<bool> simulated{ false }; static long now_s, now_n; static long nreads;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (simulated.load()) {
		++nreads;
		if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME) { ts->tv_sec = now_s; ts->tv_nsec = now_n; return 0; }
		ts->tv_sec = 1000000 - nreads; ts->tv_nsec = (nreads * 7919) % 1000000000; return 0; // such clocks may go backwards
	}
	return (int)syscall(SYS_clock_gettime, id, ts);
}

struct Op { std::string op; char c = '-', s = '?', want = '?'; int dc = 0; long ds = 0, bt = 0, n = 0, level = 0, threads = 0, cap = 0, v = 0, cut = 0, len = 0, held = 0, shift = 0; int full = 0; };
struct Hist { int id; long s = 0, n = 0; std::vector<Op> ops; };
static std::vector<Hist> load(const char* fn)
{
	std::vector<Hist> hs; FILE* f = fopen(fn, "r"); if (!f) { perror(fn); exit(3); }
	char* line = nullptr; size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		Op o; char* sv; char* t = strtok_r(line, " \n", &sv); if (!t) continue; o.op = t;
		while ((t = strtok_r(nullptr, " \n", &sv))) {
			char* e = strchr(t, '='); if (!e) continue; *e = 0; std::string k = t; const char* v = e + 1; long x = strtol(v, nullptr, 10);
			if (k == "c") o.c = *v; else if (k == "s") o.s = *v; else if (k == "want") o.want = *v;
			else if (k == "d") { o.dc = (int)x; const char* q = strchr(v, ','); o.ds = q ? strtol(q + 1, nullptr, 10) : 0; }
			else if (k == "bt") o.bt = x; else if (k == "n") o.n = x; else if (k == "level") o.level = x; else if (k == "threads") o.threads = x; else if (k == "cap") o.cap = x; else if (k == "v") o.v = x;
			else if (k == "cut") o.cut = x; else if (k == "len") o.len = x; else if (k == "held") o.held = x; else if (k == "shift") o.shift = x; else if (k == "full") o.full = (int)x;
		}
		if (o.op == "start") { hs.emplace_back(); hs.back().id = (int)hs.size() - 1; hs.back().s = o.cut; hs.back().n = o.len; continue; }
		if (hs.empty()) { hs.emplace_back(); hs.back().id = 0; }
		hs.back().ops.push_back(o);
	}
	free(line); fclose(f); return hs;
}
static int histid, bindid; static const Op* cur; static long nviol, nhist, nops, nchecks, ndestroyed, ntock; static long maxfp;
struct Stop {};
static void viol(const char* fmt, ...)
{
	char m[500]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
	printf("VIOL A13 hist=%d bind=%d op=%s bt=%ld n=%ld level=%ld threads=%ld : %s\n", histid, bindid, cur->op.c_str(), cur->bt, cur->n, cur->level, cur->threads, m); fflush(stdout);
	++nviol; throw Stop();
}
struct Lib { Lib() { ah::st.inlib = true; } ~Lib() { ah::st.inlib = false; } };

struct Drv {
	std::map<char, stenos_context*> ctx; struct Frame { bool ok = false; Bytes b; long n = 0, bt = 0; }; std::map<char, Frame> fr; std::map<long, stenos_timer*> tm; long base = -1;
	~Drv() { for (auto& c : ctx) stenos_destroy_context(c.second); for (auto& t : tm) stenos_destroy_timer(t.second); }
	long fp(char c) { return (long)stenos_memory_footprint(ctx[c]); }
	void destroy(char c)
	{
		long f = fp(c); long long b0 = ah::st.libbytes; long l0 = ah::st.liblive;
		stenos_destroy_context(ctx[c]); ctx.erase(c); ++ndestroyed;
		long freed = (long)(b0 - ah::st.libbytes), blocks = l0 - ah::st.liblive;
		if (labs(freed - f) > 64 * blocks) viol("a context reports a footprint of %ld bytes, its destruction releases %ld (%ld blocks)", f, freed, blocks);
	}
	void check(const Op& o)
	{
		if (o.c == '-' || !ctx.count(o.c)) return;
		long f = fp(o.c); ++nchecks; maxfp = std::max(maxfp, f);
		if (f < base || f > base + o.held + 16384) viol("the footprint of a context is %ld bytes, %ld when new, and its buffers may take %ld", f, base, o.held);
	}
	void run(const Op& o)
	{
		cur = &o; ++nops; cm::cur("A13 hist=%d bind=%d op=%s bt=%ld n=%ld level=%ld threads=%ld", histid, bindid, o.op.c_str(), o.bt, o.n, o.level, o.threads);
		const std::string& p = o.op;
		if (p == "new") { { Lib l; ctx[o.c] = stenos_make_context(); } long f = fp(o.c); if (base < 0) base = f; if (f != base) viol("the footprint of a new context is %ld bytes, then %ld", base, f); }
		else if (p == "del") { destroy(o.c); return; }
		else if (p == "reset") { Lib l; stenos_reset_context(ctx[o.c]); }
		else if (p == "level") { Lib l; stenos_set_level(ctx[o.c], (int)o.v); }
		else if (p == "threads") { Lib l; stenos_set_threads(ctx[o.c], (int)o.v); }
		else if (p == "block") { Lib l; stenos_set_block_size(ctx[o.c], (size_t)o.v); }
		else if (p == "limit" || p == "info" || p == "bound") {}
		else if (p == "compress") {
			Bytes src((size_t)o.n); dg::fill(src.data(), src.size(), (size_t)(o.bt > 0 && o.bt < 70000 ? o.bt : 4), (o.dc + bindid * 5) % dg::NCLASS, (uint64_t)o.ds + (uint64_t)bindid * 1000003ull);
			size_t cap = o.full && o.shift != 255 ? stenos_bound((size_t)o.n) : (size_t)o.cap; Bytes dst(cap); Frame f;
			long before = 0;
			for (int again = 0; again < 2; ++again) {
				size_t r; { Lib l; r = o.c == '-' ? stenos_compress(src.data(), (size_t)o.bt, src.size(), dst.data(), cap, (int)o.level) : stenos_compress_generic(ctx[o.c], src.data(), (size_t)o.bt, src.size(), dst.data(), cap); }
				if (!stenos_has_error(r)) { f.ok = o.want == 'o'; f.b.assign(dst.begin(), dst.begin() + (long)r); f.n = o.n; f.bt = o.bt; }
				if (o.c == '-' || bindid % 2 || o.want != 'o') break;
				if (again && fp(o.c) != before) viol("the footprint changes from %ld to %ld when a call is repeated", before, fp(o.c));
				before = fp(o.c);
			}
			fr[o.s] = f;
		}
		else if (p == "decompress" || p == "short" || p == "badtype") {
			Frame& f = fr[o.s]; if (!f.ok) return;
			size_t cap = p == "decompress" ? (size_t)o.cap : (size_t)f.n, len = f.b.size(); if (p == "short") { long l = (long)len - o.cut; len = l < 0 ? (size_t)o.cut % len : (size_t)l; }
			Bytes dst(cap + 1); Lib l; if (o.c == '-') (void)stenos_decompress(f.b.data(), (size_t)o.bt, len, dst.data(), cap); else (void)stenos_decompress_generic(ctx[o.c], f.b.data(), (size_t)o.bt, len, dst.data(), cap);
		}
		else if (p == "clock") { now_s = o.cut; now_n = o.len; return; }
		else if (p == "tnew") { tm[o.v] = stenos_make_timer(); if (!tm[o.v]) viol("no timer"); return; }
		else if (p == "tdel") { stenos_destroy_timer(tm[o.v]); tm.erase(o.v); if (bindid % 3 == 0) stenos_destroy_timer(nullptr); return; }
		else if (p == "tick" || p == "tock") {
			simulated = true; uint64_t e = 0; if (p == "tick") stenos_tick(tm[o.v]); else e = stenos_tock(tm[o.v]); simulated = false;
			if (p == "tock") { ++ntock; uint64_t w = (uint64_t)o.cut * 1000000000ull + (uint64_t)o.len; if (e != w) viol("a timer tells %llu ns, %llu have elapsed (%ld.%09ld on the clock)", (unsigned long long)e, (unsigned long long)w, now_s, now_n); }
			return;
		}
		else { fprintf(stderr, "unknown op %s\n", p.c_str()); exit(3); }
		check(o);
	}
	void end() { while (!ctx.empty()) destroy(ctx.begin()->first); }
};

int main(int argc, char** argv)
{
	cm::setup(); double budget = 10; int onlyb = -1, onlyh = -1; const char* fn = nullptr;
	for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "-t") budget = atof(argv[++i]); else if (a == "-b") onlyb = atoi(argv[++i]); else if (a == "-h") onlyh = atoi(argv[++i]); else if (a == "-p") ++i; else fn = argv[i]; }
	std::vector<Hist> hs = load(fn); double t0 = cm::now();
	for (int b = std::max(0, onlyb); b < 100000; ++b) {
		for (auto& h : hs) {
			if (onlyh >= 0 && h.id != onlyh) continue;
			if (onlyb < 0 && b > 0 && cm::now() - t0 > budget) goto end;
			histid = h.id; bindid = b; now_s = h.s; now_n = h.n;
			try { Drv d; for (auto& o : h.ops) d.run(o); d.end(); } catch (Stop&) { if (nviol > 10) goto end; }
			++nhist;
		}
		if (onlyb >= 0 || hs.empty()) break;
	}
end:
	printf("DONE hists=%ld ops=%ld calls=%ld distinct=%ld viol=%ld footprints=%ld destroyed=%ld tocks=%ld largest=%ld\n", nhist, nops, nops, nchecks, nviol, nchecks, ndestroyed, ntock, maxfp);
	return nviol ? 1 : 0;
}
