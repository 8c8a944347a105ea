// Concurrent clients of the library under controlled schedules; events are the trace of spec/Parallel's TraceCalls.
#include "allochook.h"
#include "dsrun.h"
#include "datagen.h"
#include <stenos/stenos.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <memory>

// ---- simulated clock: every reading advances it
#define RAW __attribute__((noinline, no_sanitize_thread))
namespace clk { static bool on = false; static uint64_t t, step, rng; }
RAW static void clock_start(uint64_t step, uint64_t seed) { clk::t = 1000000000ull * (seed % 5000) + seed % 999999999; clk::step = step; clk::rng = seed; clk::on = true; }
RAW static void clock_stop() { clk::on = false; }
extern "C" RAW int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (!clk::on || id != CLOCK_MONOTONIC) return (int)syscall(SYS_clock_gettime, id, ts);
	clk::rng = clk::rng * 6364136223846793005ull + 1442695040888963407ull; clk::t += (clk::rng >> 33) % (2 * clk::step + 1); ts->tv_sec = (time_t)(clk::t / 1000000000ull); ts->tv_nsec = (long)(clk::t % 1000000000ull); return 0;
}
struct Call {
	int kind; // 0: compress, 1: decompress, 2: compress to a short destination, 3: decompress a damaged frame, 4: compress within a time
	uint64_t limit = 0;
	int bt, threads, level, shift; bool oneshot; size_t n; int cls; uint64_t seed;
	std::vector<uint8_t> src, frame; size_t cap;
	size_t ret = 0; uint32_t crc = 0; // result alone
	int fault = 0; bool persist = false; unsigned mask = 0; // fault: the allocation that fails, 0: none
	std::vector<uint8_t> out; size_t r = 0; uint32_t outcrc = 0; // last result
};
static uint32_t h31(const uint8_t* p, size_t n) { return (uint32_t)(cm::hash(p, n) % 1000000007u); }
static long code(size_t r) { return stenos_has_error(r) ? -(long)((size_t)0 - r) : (long)r; }

static size_t exec(const Call& c, stenos_context* ctx, uint8_t* dst)
{
	if (c.kind == 0 || c.kind == 2 || c.kind == 4) {
		if (c.oneshot) return stenos_compress(c.src.data(), (size_t)c.bt, c.n, dst, c.cap, c.level);
		stenos_reset_context(ctx); stenos_set_level(ctx, c.level); stenos_set_threads(ctx, c.threads); if (c.shift >= 0) stenos_set_block_size(ctx, (unsigned)c.shift);
		if (c.kind == 4) stenos_set_max_nanoseconds(ctx, c.limit);
		return stenos_compress_generic(ctx, c.src.data(), (size_t)c.bt, c.n, dst, c.cap);
	}
	if (c.oneshot) return stenos_decompress(c.frame.data(), (size_t)c.bt, c.frame.size(), dst, c.cap);
	stenos_set_threads(ctx, c.threads); return stenos_decompress_generic(ctx, c.frame.data(), (size_t)c.bt, c.frame.size(), dst, c.cap);
}
static void late() { dr::fail("a task uses the stack of a call that returned"); }
static bool run_call(Call& c, stenos_context* ctx, size_t& r, uint32_t& crc)
{
	std::vector<uint8_t>& d = c.out; d.assign(c.cap + 64, 0xA7); uint32_t hs = h31(c.src.data(), c.src.size()), hf = h31(c.frame.data(), c.frame.size());
	ds::alive_stack();
	if (c.fault) { ah::st.count = 0; ah::st.failed = 0; ah::st.fail_at = c.fault; ah::st.persist = c.persist; ah::st.mask = c.mask; ah::st.on = true; }
	ah::exempt = false;
	r = exec(c, ctx, d.data() + 32);
	ah::exempt = true;
	if (c.fault) { ah::st.on = false; ah::st.fail_at = 0; }
	ds::dead_stack();
	bool ok = true; for (size_t i = 0; i < 32; ++i) ok = ok && d[i] == 0xA7 && d[32 + c.cap + i] == 0xA7;
	if (!stenos_has_error(r) && (c.kind & 1)) for (size_t i = r; i < c.cap; ++i) ok = ok && d[32 + i] == 0xA7;
	ok = ok && hs == h31(c.src.data(), c.src.size()) && hf == h31(c.frame.data(), c.frame.size());
	crc = stenos_has_error(r) || r > c.cap ? 0 : h31(d.data() + 32, r); c.r = r; c.outcrc = h31(d.data(), d.size()); return ok;
}
// After the run: nothing was written since the return, and a frame gives its content back.
static bool valid(Call& c)
{
	if (h31(c.out.data(), c.out.size()) != c.outcrc) return false;
	if (stenos_has_error(c.r) || c.kind == 3) return true;
	if (c.r > c.cap) return false;
	if (c.kind == 1) return c.r == c.n && (!c.n || !memcmp(c.out.data() + 32, c.src.data(), c.n));
	std::vector<uint8_t> f(c.out.begin() + 32, c.out.begin() + 32 + (long)c.r), b(c.n + 1);
	return stenos_decompress(f.data(), (size_t)c.bt, f.size(), b.data(), c.n) == c.n && (!c.n || !memcmp(b.data(), c.src.data(), c.n));
}
static bool faults = false;

static void body(long run, const ds::Strategy& st)
{
	dr::Opt& o = dr::opt(); dr::Rng r{ (o.dfs ? (uint64_t)o.scen : o.seed * 31 + (uint64_t)(run / 10)) * 2654435761u + 99 };
	int clients = o.dfs ? 2 : 1 + (int)r.below(3); std::vector<std::vector<Call>> cs((size_t)clients); int id = 0; std::string desc = "clients=" + std::to_string(clients);
	static std::vector<std::vector<Call>> cache; static long cached = -1; long key = o.dfs ? 0 : run / 10;
	if (cached != key) {
		for (auto& v : cs) {
			int k = o.dfs ? 1 : 1 + (int)r.below(3);
			for (int i = 0; i < k; ++i) {
				Call c; c.kind = (int)r.below(10); c.kind = c.kind < 5 ? 0 : c.kind < 8 ? 1 : c.kind - 6; c.bt = 1 + (int)r.below(r.below(4) ? 4 : 20); c.threads = 1 + (int)r.below(5); c.level = (int)r.below(3); if (r.below(8) == 0) c.level = 3; c.oneshot = r.below(8) == 0;
				c.shift = (int)r.below(3); static const uint64_t lims[] = { 1, 1000, 30000, 1000000, 100000000, 10000000000ull }; if (c.kind == 0 && !c.oneshot && r.below(4) == 0) { c.kind = 4; c.limit = lims[r.below(6)]; }
				if (o.dfs) { c.threads = 2; c.oneshot = false; c.bt = 1; c.shift = 0; c.kind = o.scen % 2 ? (int)(&v - cs.data()) % 2 : 0; c.level = o.scen / 2 % 2; }
				size_t sb = (size_t)c.bt * 256 << c.shift; c.n = (size_t)(r.below(2) ? r.below(6) * (unsigned)sb : r.below((unsigned)sb * 5)); if (c.n > 12000) c.n = 12000; if (o.dfs) c.n = 512;
				c.cls = (int)r.below(dg::NCLASS); c.seed = r.next(); c.src.resize(c.n); dg::fill(c.src.data(), c.n, (size_t)c.bt, c.cls, c.seed);
				stenos_context* x = stenos_make_context(); std::unique_ptr<stenos_context, void (*)(stenos_context*)> del(x, stenos_destroy_context);
				c.cap = stenos_bound(c.n) + 16 + c.n / 8; uint32_t crc; size_t ret;
				if (c.kind & 1) {
					Call f = c; f.kind = 0; f.oneshot = false; f.threads = 1; std::vector<uint8_t> d(c.cap); size_t rr = exec(f, x, d.data()); if (stenos_has_error(rr)) { c.kind = 0; } else {
						d.resize(rr); c.frame = d; c.cap = c.n + (r.below(2) ? 0 : r.below(100)); if (r.below(10) == 0 && c.n) c.cap = c.n - 1;
						if (c.kind == 3 && rr > 13) { if (r.below(2)) c.frame.resize(1 + r.below((unsigned)rr - 1)); else c.frame[12 + r.below((unsigned)rr - 12)] ^= (uint8_t)(1 + r.below(255)); } }
				}
				if (c.kind == 2) c.cap = r.below((unsigned)(c.n + 20));
				if (!run_call(c, x, ret, crc)) { if (getenv("DBG")) fprintf(stderr, "kind %d n %zu cap %zu ret %ld frame %zu\n", c.kind, c.n, c.cap, code(ret), c.frame.size()); dr::fail("call alone damages memory"); } c.ret = ret; c.crc = crc; v.push_back(c);
			}
		}
		cache = cs; cached = key;
	}
	else { cs = cache; clients = (int)cs.size(); desc = "clients=" + std::to_string(clients); }
	for (auto& v : cs) for (auto& c : v) { char b[120]; snprintf(b, sizeof b, ",%d:kind%d/bt%d/n%zu/thr%d/lev%d/shift%d/cls%d/cap%zu", ++id, c.kind, c.bt, c.n, c.oneshot ? 0 : c.threads, c.level, c.shift, c.cls, c.cap); desc += b; }
	bool armed = false; for (auto& v : cs) for (auto& c : v) { c.fault = 0; if (faults && !armed && run % 4 && r.below(3) == 0) { dr::Rng q{ o.seed * 977 + (uint64_t)run * 31 }; c.fault = 1 + (int)q.below(q.below(2) ? 6 : 40); c.persist = q.below(2); c.mask = q.below(2) ? (1u << (2 + q.below(5))) - 1 : 0; armed = true; desc += "/fault" + std::to_string(c.fault) + (c.persist ? "+" : "") + "@" + std::to_string(c.n); } }
	dr::desc() = desc;
	static const uint64_t steps[] = { 0, 10, 1000, 100000, 10000000, 3000000000ull }; { dr::Rng q{ o.seed * 57 + (uint64_t)run }; clock_start(steps[q.below(6)], q.next()); }
	ds::begin(st);
	id = 0; std::vector<int> first; for (auto& v : cs) { first.push_back(id); for (auto& c : v) ds::event("A%d:%ld:%u", ++id, code(c.ret), c.crc); }
	auto client = [&](int k) {
		ah::exempt = true;
		stenos_context* x = stenos_make_context(); int i = first[(size_t)k];
		for (auto& c : cs[(size_t)k]) { ++i; ds::event(c.fault ? "F%d:%d" : c.kind == 4 ? "G%d:%d" : "B%d:%d", k, i); size_t r; uint32_t crc; bool ok = run_call(c, x, r, crc); ds::event("E%d:%d:%ld:%u:%d", k, i, code(r), crc, (int)ok); }
		stenos_destroy_context(x);
	};
	std::vector<std::thread> ts; for (int k = 1; k < clients; ++k) ts.emplace_back(client, k);
	client(0); for (auto& t : ts) t.join();
	ds::event("Q");
	ds::end(); clock_stop();
	id = 0; for (auto& v : cs) for (auto& c : v) { ++id; ds::event("V%d:%d", id, (int)valid(c)); }
}
// the pool of the library is created during static initialisation
struct Early { Early() { const char* e = getenv("HW"); ds::hw_concurrency = e ? (unsigned)atoi(e) : 1; } };
__attribute__((init_priority(101))) static Early early;
int main(int argc, char** argv) { ah::exempt = true; dr::parse(argc, argv); dr::tags() = "A09"; ds::on_dead = late; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "-fault")) { faults = true; dr::tags() = "A09,A11"; } dr::gapmul() = 40; int rc = dr::loop(body, 2000); _exit(rc); }
