// Replays histories of the C API model (spec/Stenos.tla) on the library.
//   apidrv FILE [-t seconds] [-b binding] [-h history] [-f]   (-f: compare each frame with one of a fresh context)
// Abstract contents are bound to bytes by datagen.h; each history is replayed under several bindings.
#include "common.h"
#include "datagen.h"
#include <stenos/stenos.h>
#include <malloc.h>
#include <set>
#include <atomic>
#include <unordered_map>
#include <algorithm>

#ifndef HOOK
#define HOOK 0
#endif
#include "allochook.h"
#if !HOOK
namespace ah { St st; }
#endif
#include <thread>
using cm::GBuf;
typedef std::vector<uint8_t> Bytes;

// ---- the clock of the library: real, or simulated during a time-limited call
namespace clk {
static const int NDUR = 31;
static const uint64_t DUR[NDUR] = { 0, 1, 2, 10, 100, 1000, 3000, 10000, 30000, 100000, 300000, 1000000, 3000000, 10000000, 30000000, 100000000, 300000000, 1000000000ull, 1000000001ull,
	3000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 1000000000000000ull, 1000000000000000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull - 1, ~0ull, 999999999, 50000 };
static uint64_t dur(long i, bool advance) { uint64_t d = DUR[i < 0 ? 0 : i % NDUR]; return advance && d > 1000000000000000000ull ? 1000000000000000000ull : d; }
static std::atomic<bool> on{ false }; static std::atomic<uint64_t> reads{ 0 };
static std::atomic<uint64_t> t; static uint64_t base; static long mode, a, b; static uint64_t limit;
static uint64_t rnd(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static uint64_t read()
{
	uint64_t k = reads.fetch_add(1), d = 0;
	switch (mode) {
	case 1: d = k ? dur(a, true) : 0; break;
	case 2: d = k == (uint64_t)a + 1 ? dur(b, true) : 0; break;
	case 3: d = k ? rnd((uint64_t)a * 7919 + k) % (2 * dur(b, true) + 1) : 0; break;
	case 4: if (k > (uint64_t)a) { static const uint64_t e[7] = { 0, 1, 2, 10, 100, 1000, 100000 }; uint64_t l = limit > 1000000000000000000ull ? 1000000000000000000ull : limit; uint64_t w = l > e[b % 7] ? l - e[b % 7] : 0; uint64_t c = t.load(); while (c < base + w && !t.compare_exchange_weak(c, base + w)) {} } break;
	default: break;
	}
	uint64_t r = t.fetch_add(d) + d;
	return r > 9000000000000000000ull ? 9000000000000000000ull : r;
}
static void start(long m, long x, long y, uint64_t lim, uint64_t b0) { mode = m; a = x; b = y; limit = lim; base = b0; t = b0; reads = 0; on = true; }
static void stop() { on = false; }
} // namespace clk
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (clk::on.load() && id == CLOCK_MONOTONIC) { uint64_t n = clk::read(); ts->tv_sec = (time_t)(n / 1000000000ull); ts->tv_nsec = (long)(n % 1000000000ull); return 0; }
	return (int)syscall(SYS_clock_gettime, id, ts);
}

struct Op {
	std::string op, key; char c = '-', s = '?', s2 = '?', want = '?';
	int dc = 0; long dseed = 0; long bt = 0, n = 0, level = 0, threads = 0, cap = 0, err = 0, ss = 0, shift = 0, lo = 0, hi = 0, ret = 0, v = 0, cut = 0, len = 0, delta = 0, lim = 0, clk[3] = { 0, 0, 0 }; int full = 0; int line = 0;
};
struct Hist { bool timed = false; std::vector<Op> ops; double cost = 0; int id = 0; };

static std::vector<Hist> load(const char* fn)
{
	std::vector<Hist> hs; FILE* f = fopen(fn, "r"); if (!f) { perror(fn); exit(3); }
	char* line = nullptr; size_t cap = 0; int no = 0;
	while (getline(&line, &cap, f) > 0) {
		Op o; char* sv; char* t = strtok_r(line, " \n", &sv); if (!t) continue; o.op = t;
		while ((t = strtok_r(nullptr, " \n", &sv))) {
			char* e = strchr(t, '='); if (!e) continue; *e = 0; std::string k = t; const char* v = e + 1; long x = strtol(v, nullptr, 10);
			if (k == "c") o.c = *v; else if (k == "s") o.s = *v; else if (k == "s2") o.s2 = *v; else if (k == "want") o.want = *v; else if (k == "key") o.key = v;
			else if (k == "d") { o.dc = (int)x; const char* q = strchr(v, ','); o.dseed = q ? strtol(q + 1, nullptr, 10) : 0; }
			else if (k == "clk") sscanf(v, "%ld,%ld,%ld", &o.clk[0], &o.clk[1], &o.clk[2]);
			else if (k == "lim") o.lim = x;
			else if (k == "bt") o.bt = x; else if (k == "n") o.n = x; else if (k == "level") o.level = x; else if (k == "threads") o.threads = x; else if (k == "cap") o.cap = x;
			else if (k == "err") o.err = x; else if (k == "ss") o.ss = x; else if (k == "shift") o.shift = x; else if (k == "lo") o.lo = x; else if (k == "hi") o.hi = x;
			else if (k == "ret") o.ret = x; else if (k == "v") o.v = x; else if (k == "cut") o.cut = x; else if (k == "len") o.len = x; else if (k == "delta") o.delta = x; else if (k == "full") o.full = (int)x;
		}
		o.line = no++;
		if (o.op == "start") { hs.emplace_back(); hs.back().id = (int)hs.size() - 1; continue; }
		if (hs.empty()) hs.emplace_back();
		if (o.lim) o.level = 9;
		double w = 0; static const double lw[10] = { 1, 3, 20, 25, 30, 40, 60, 80, 120, 200 };
		if (o.op == "compress" || o.op == "rel") w = o.n * lw[std::max(0l, std::min(9l, o.level))] + 20000;
		else if (o.op == "capsweep") w = 1.0 * o.full * (o.n * lw[std::max(0l, std::min(9l, o.level))] * 0.5 + (o.level > 1 ? 60000 : 1000));
		else if (o.op == "timesweep") w = 40. * (o.n * 100 + 20000);
		else if (o.op == "decsweep") w = o.n * 2000.; else w = o.n + 500;
		hs.back().cost += w; if (o.lim) hs.back().timed = true; hs.back().ops.push_back(o);
	}
	free(line); fclose(f); return hs;
}

static GBuf SRC, DST, SRC2, DST2, TMP;
static long nviol = 0, ncalls = 0, nhist = 0, nopsdone = 0;
static long nfaults = 0;
static std::map<std::string, long> opcount;
static std::set<std::string> distinct;
static int histid, bindid; static const Op* curop;

struct Stop {};   // a violation of the property of interest: the history ends
struct Other {};  // of another property: only the current comparison ends
static bool timed = false; // the history has time limits
static std::string only; // -p: the property of interest
static bool wanted(const char* tags) { return only.empty() || strstr(tags, only.c_str()); }
template<class F> static void stage(F f) { try { f(); } catch (Other&) {} }
static void viol(const char* tags, const char* fmt, ...)
{
	static std::map<std::string, int> others;
	// everything about a frame made under a time limit belongs to A08; so does an influence on later calls
	std::string tg = tags; if (curop && (curop->lim || timed) && tg.find("A08") == std::string::npos) tg += ",A08"; tags = tg.c_str();
	if (!wanted(tags) && ++others[fmt] > 3) throw Other();
	char m[600]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
	printf("VIOL %s hist=%d bind=%d op=%s bt=%ld n=%ld level=%ld threads=%ld d=%d,%ld lim=%ld clk=%ld,%ld,%ld : %s\n", tags, histid, bindid, curop->op.c_str(), curop->bt, curop->n, curop->level, curop->threads, curop->dc, curop->dseed, curop->lim, curop->clk[0], curop->clk[1], curop->clk[2], m);
	if (!wanted(tags)) throw Other();
	++nviol; throw Stop();
}
static void at(const char* tags) { cm::cur("%s hist=%d bind=%d op=%s bt=%ld n=%ld level=%ld threads=%ld d=%d,%ld cap=%ld lim=%ld clk=%ld,%ld,%ld", tags, histid, bindid, curop->op.c_str(), curop->bt, curop->n, curop->level, curop->threads, curop->dc, curop->dseed, curop->cap, curop->lim, curop->clk[0], curop->clk[1], curop->clk[2]); ++ncalls; cm::watchdog(150); }

struct Frame { bool ok = false; Bytes b; long n = 0, bt = 0; int dc = 0; long ds = 0; };

static void content(GBuf& g, long n, long bt, int dc, long ds)
{
	g.get((size_t)n, (bindid & 3) == 3);
	int cls = (dc + bindid * 5) % dg::NCLASS; uint64_t seed = (uint64_t)ds + (uint64_t)bindid * 1000003ull;
	dg::fill(g.p, (size_t)n, (size_t)(bt > 0 && bt < 70000 ? bt : 4), cls, seed);
}
static Bytes contentv(long n, long bt, int dc, long ds) { content(TMP, n, bt, dc, ds); return Bytes(TMP.p, TMP.p + n); }

static long layout_of_timed(const Op& o, const uint8_t* f, size_t r, long& shift)
{
	// The superblock size a time-limited frame announces
	if (r < 8) viol("A08", "time limit: frame of %zu bytes", r);
	shift = f[0]; long b = o.bt * 256, base = b > 131072 ? b : 131072 / b * b, ss;
	if (shift == 255) { if (r < 12) viol("A08", "time limit: frame of %zu bytes", r); ss = (long)(f[8] | f[9] << 8 | f[10] << 16 | (uint64_t)f[11] << 24); }
	else { if (shift > 4) viol("A08", "time limit: header code %ld", shift); ss = base << shift; }
	if (ss <= 0 || ss % b || ss >= 16777215) viol("A08", "time limit: superblock size %ld", ss);
	return ss;
}
static void check_layout(const Op& o, const uint8_t* f, size_t r)
{
	// The frame follows the documented layout (A05)
	size_t h = o.shift == 255 ? 12 : 8;
	if (r < h) viol("A05", "frame of %zu bytes is shorter than its header", r);
	if (f[0] != (uint8_t)o.shift) viol("A05", "header code %u instead of %ld", f[0], o.shift);
	uint64_t sz = 0; for (int i = 0; i < 7; ++i) sz |= (uint64_t)f[1 + i] << (8 * i);
	if (sz != (uint64_t)o.n) viol("A05", "announced size %llu instead of %ld", (unsigned long long)sz, o.n);
	if (o.shift == 255) { uint32_t s = f[8] | f[9] << 8 | f[10] << 16 | (uint32_t)f[11] << 24; if (s != (uint32_t)o.ss) viol("A05", "announced superblock size %u instead of %ld", s, o.ss); }
	size_t pos = h; long left = o.n; int nb = 0;
	while (left > 0) {
		if (pos + 4 > r) viol("A05", "superblock %d missing (frame of %zu bytes)", nb, r);
		unsigned code = f[pos]; size_t cs = f[pos + 1] | f[pos + 2] << 8 | (size_t)f[pos + 3] << 16; long ds = std::min(left, o.ss);
		if (code < 1 || code > 6) viol("A05", "superblock %d has code %u", nb, code);
		if (o.level == 0 && !o.lim && code != 6) viol("A05", "superblock %d has code %u at level 0", nb, code);
		if (code == 6 && cs != (size_t)ds) viol("A05", "copied superblock %d has %zu bytes instead of %ld", nb, cs, ds);
		if (cs > (size_t)ds) viol("A05", "superblock %d has %zu bytes for %ld", nb, cs, ds);
		pos += 4 + cs; left -= ds; ++nb;
		static long seen[7]; seen[code]++; char t[8]; snprintf(t, 8, "code%u", code); opcount[t]++;
	}
	if (pos != r) viol("A05", "the frame has %zu bytes, its superblocks end at %zu", r, pos);
}

struct Drv {
	std::map<char, stenos_context*> ctx; std::map<char, Frame> fr;
	std::map<std::string, std::pair<size_t, uint64_t>> memo; std::map<std::string, Op> memo_op; bool fresh = false, lib = false; // lib: count the memory of every call
	~Drv() { for (auto& c : ctx) stenos_destroy_context(c.second); ctx.clear(); }

	size_t compress(const Op& o, const uint8_t* src, uint8_t* dst, size_t cap)
	{
		if (o.lim) {
			static const uint64_t bases[6] = { 0, 999999999, 1000000000, 123456789012ull, 1999999999, 86400999999999ull };
			clk::start(o.clk[0], o.clk[1], o.clk[2], clk::dur(o.lim, false), bases[(bindid + histid) % 6]);
			size_t r = stenos_compress_generic(ctx[o.c], src, (size_t)o.bt, (size_t)o.n, dst, cap); clk::stop(); opcount["clockreads"] += (long)clk::reads.load(); return r;
		}
		if (o.c == '-') return stenos_compress(src, (size_t)o.bt, (size_t)o.n, dst, cap, (int)o.level);
		return stenos_compress_generic(ctx[o.c], src, (size_t)o.bt, (size_t)o.n, dst, cap);
	}
	void roundtrip(const Op& o, const uint8_t* frame, size_t r, const Bytes& want, stenos_context* c, const char* how)
	{
		at("A01,A03");
		SRC2.get(r, false); memcpy(SRC2.p, frame, r); SRC2.protect();
		DST2.get((size_t)o.n); memset(DST2.p, 0x5A, (size_t)o.n);
		size_t d = c ? stenos_decompress_generic(c, SRC2.p, (size_t)o.bt, r, DST2.p, (size_t)o.n) : stenos_decompress(SRC2.p, (size_t)o.bt, r, DST2.p, (size_t)o.n);
		if (stenos_has_error(d)) viol("A01,A03", "%s: decompression of a %zu bytes frame (code %u, cap %ld) fails with %ld", how, r, r > 12 ? frame[o.shift == 255 ? 12 : 8] : 0, o.cap, (long)d);
		if (d != (size_t)o.n) viol("A01,A03", "%s: decompressed size %zu", how, d);
		if (o.n && memcmp(DST2.p, want.data(), (size_t)o.n)) { size_t i = 0; while (DST2.p[i] == want[i]) ++i; viol("A01", "%s: decompressed bytes differ at offset %zu (code %u)", how, i, frame[o.shift == 255 ? 12 : 8]); }
		if (!DST2.canary_ok()) viol("A03", "%s: bytes before the destination were written", how);
	}
	void accept(const Op& o0, const uint8_t* out, size_t r, size_t cap, const Bytes& want)
	{
		// A successful compression
		Op o = o0;
		if (o.lim) { if (r > cap) viol("A02,A08", "returned %zu with a capacity of %zu", r, cap); o.ss = layout_of_timed(o, out, r, o.shift); if ((long)r < o.lo || (long)r > o.hi) viol("A08", "frame of %zu bytes, between %ld and %ld are allowed", r, o.lo, o.hi); o.hi = (o.shift == 255 ? 12 : 8) + o.n + 4 * ((o.n + o.ss - 1) / o.ss); o.lo = std::min(o.lo, o.hi); }
		if (r > cap) viol("A02", "returned %zu with a capacity of %zu", r, cap);
		stage([&] { if (r > (size_t)o.hi) viol(o.shift == 255 ? "A05" : "A02,A05", "frame of %zu bytes, at most %ld are allowed", r, o.hi); });
		stage([&] { if (r < (size_t)o.lo) viol("A05", "frame of %zu bytes, at least %ld are needed", r, o.lo); });
		stage([&] { check_layout(o, out, r); });
		stage([&] {
		stenos_info inf; memset(&inf, 0xEE, sizeof inf); size_t h = stenos_get_info(out, (size_t)o.bt, r, &inf);
		if (h != (size_t)(o.shift == 255 ? 12 : 8)) viol("A05", "stenos_get_info returns %ld", (long)h);
		if (inf.decompressed_size != (size_t)o.n || inf.superblock_size != (size_t)o.ss) viol("A05", "stenos_get_info: size %zu, superblock %zu (instead of %ld)", inf.decompressed_size, inf.superblock_size, o.ss); });
		roundtrip(o, out, r, want, nullptr, "one-shot");
	}
	static void arm(long k, bool persist) { ah::st.count = 0; ah::st.failed = 0; ah::st.fail_at = k; ah::st.persist = persist; ah::st.inlib = true; ah::st.on = true; }
	static bool disarm() { ah::st.on = false; ah::st.inlib = false; ah::st.fail_at = 0; nfaults += ah::st.failed != 0; return ah::st.failed != 0; }
	stenos_context* like(const Op& o)
	{
		stenos_context* c = stenos_make_context(); stenos_set_level(c, (int)o.level); stenos_set_threads(c, (int)o.threads);
		if (o.op == "faultc" && o.shift == 255) { size_t b = (size_t)o.bt * 256; size_t k = 0; while ((b << k) < (size_t)o.ss) ++k; stenos_set_block_size(c, k); }
		return c;
	}
	// o.v: the k-th allocation only, all from the k-th, alternately.  o.delta: the same context for all k, another one for each k, with a retry after each failure.
	void fault(const Op& o)
	{
		const bool comp = o.op == "faultc"; Bytes want; Frame f; size_t cap;
		if (comp) { content(SRC, o.n, o.bt, o.dc, o.dseed); want.assign(SRC.p, SRC.p + o.n); SRC.protect(); cap = std::max((size_t)o.cap, stenos_bound((size_t)o.n)); }
		else { f = fr[o.s]; if (!f.ok) return; want = contentv(f.n, f.bt, f.dc, f.ds); SRC2.get(f.b.size()); memcpy(SRC2.p, f.b.data(), f.b.size()); SRC2.protect(); cap = (size_t)o.n; }
		if (o.n > 20000 && o.level > 5 && (bindid & 3)) { if (comp) fr[o.s].ok = false; return; } // slow
		Bytes ref; bool have = false; Op p = o; curop = &p; stenos_context* own = nullptr;
		for (long k = 1, last = 0; k < 600 && !last; ++k) {
			for (int again = 0; again < 2; ++again) {
				bool fails = again == 0;
				stenos_context* c = ctx[o.c];
				if (o.delta == 1) { if (again == 0) { ah::st.inlib = true; own = like(o); ah::st.inlib = false; } c = own; }
				DST.get(cap); memset(DST.p, 0xA7, cap); p.clk[0] = k; p.clk[1] = again; at("A11");
				bool pers = o.v == 1 || (o.v == 2 && (k & 1));
				arm(fails ? k : 0, pers);
				size_t r = comp ? stenos_compress_generic(c, SRC.p, (size_t)o.bt, (size_t)o.n, DST.p, cap) : stenos_decompress_generic(c, SRC2.p, (size_t)o.bt, f.b.size(), DST.p, cap);
				bool hit = disarm(), e = stenos_has_error(r) != 0;
				if (!DST.canary_ok()) viol("A11", "bytes before the destination were written");
				if (e && !hit) viol("A11", "%s fails with %ld though memory is available (%s failing allocation %ld)", comp ? "compression" : "decompression", (long)r, again ? "after the" : "less allocations than the", k);
				if (!e) {
					if (r > cap) viol("A11", "returned %zu with a capacity of %zu", r, cap);
					if (comp) { check_layout(p, DST.p, r); roundtrip(o, DST.p, r, want, nullptr, "after a failing allocation"); if (!hit) { Bytes b(DST.p, DST.p + r); if (have && b != ref) viol("A11", "other bytes than before the failures (%zu then %zu)", ref.size(), r); ref = b; have = true; } }
					else if (r != (size_t)o.n || (o.n && memcmp(DST.p, want.data(), (size_t)o.n))) viol("A11", "decompressed bytes differ (returned %zu)", r);
				}
				if (fails && !hit) last = 1;
				if (again == 1 || !((o.delta == 2) || (o.delta == 1) || last)) { if (o.delta == 1) { ah::st.inlib = true; stenos_destroy_context(own); ah::st.inlib = false; } if (again == 0) break; }
			}
		}
		if (comp) { Frame g; g.b = ref; g.n = o.n; g.bt = o.bt; g.dc = o.dc; g.ds = o.dseed; g.ok = have; fr[o.s] = g;
			if (have) { auto h = std::make_pair(ref.size(), cm::hash(ref.data(), ref.size())); auto it = memo.find(o.key); if (it != memo.end() && it->second != h) viol("A11", "the same call gave other bytes before the failures"); } }
		curop = &o;
	}
	// Contents of any size, mostly zeros with random pieces: o.v: superblock setting, o.cap: bound, o.ret: superblocks, o.key: header, o.cut: a capacity too small for the content
	void huge(const Op& o0)
	{
		Op o = o0; curop = &o; struct Map { uint8_t* b; uint8_t* p; size_t n, s;
			Map(size_t m) : n(m) { s = (m + 4095) / 4096 * 4096; b = (uint8_t*)mmap(nullptr, s + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) { perror("mmap"); exit(3); } mprotect(b + 4096, s, PROT_READ | PROT_WRITE); madvise(b + 4096, s, MADV_HUGEPAGE); p = b + 4096 + s - m; }
			~Map() { munmap(b, s + 8192); } void clear() { madvise(b + 4096, s, MADV_DONTNEED); } void protect() { mprotect(b + 4096, s, PROT_READ); } };
		size_t n = (size_t)o.n; uint64_t x = (uint64_t)o.dseed + 1; Bytes piece(300000); std::vector<std::pair<size_t, size_t>> at_;
		dg::fill(piece.data(), piece.size(), (size_t)o.bt, 4 + o.dc, x);
		Map src(n);
		auto put = [&](size_t p, size_t l) { if (p >= n) return; l = std::min(l, n - p); if (l > piece.size()) l = piece.size(); memcpy(src.p + p, piece.data() + (p % 1000) % (piece.size() - l + 1), l); };
		for (int i = 0; i < 60; ++i) { x = clk::rnd(x + i); put(x % n, 1 + (x >> 40) % 250000); }
		for (uint64_t g : { 1ull << 29, 1ull << 30, 1ull << 31, 3ull << 30, 1ull << 32 }) if (g > 70000) put(g - 70000, 140001);
		put(0, 5000); put(n - std::min<size_t>(n, 5000), 5000); src.protect();
		stenos_context* c = stenos_make_context(); struct D { stenos_context* c; ~D() { stenos_destroy_context(c); } } dd{ c };
		stenos_set_level(c, (int)o.level); stenos_set_threads(c, (int)o.threads); if (o.v >= 0) stenos_set_block_size(c, (size_t)o.v);
		if (o.lim) stenos_set_max_nanoseconds(c, clk::dur(o.lim, false));
		const char* W = o.lim ? "A08" : "A01,A02,A05"; at(W);
		if (stenos_bound(n) != (size_t)o.cap) viol("A02", "stenos_bound(%zu) = %zu instead of %ld", n, stenos_bound(n), o.cap);
		size_t cap = (size_t)(o.lim || o.level ? std::max(o.cap, o.hi) : o.hi), r; Map dst(cap);
		if (o.lim) clk::start(o.clk[0], o.clk[1], o.clk[2], clk::dur(o.lim, false), 999999999);
		r = stenos_compress_generic(c, src.p, (size_t)o.bt, n, dst.p, cap); clk::stop();
		if (stenos_has_error(r)) viol(W, "compression of %zu bytes with a capacity of %zu fails with %ld", n, cap, (long)r);
		if (o.lim) { o.ss = layout_of_timed(o, dst.p, r, o.shift); o.hi = (o.shift == 255 ? 12 : 8) + o.n + 4 * ((o.n + o.ss - 1) / o.ss); }
		if (r > cap || r > (size_t)o.hi) viol("A02,A05", "frame of %zu bytes, at most %ld are allowed", r, o.hi);
		stage([&] { size_t i = 0; const char* s = o.key.c_str(); while (!o.lim && *s) { char* e; unsigned long b = strtoul(s, &e, 10); if (i >= r || dst.p[i] != b) viol("A05", "byte %zu of the header is %d instead of %lu", i, i < r ? dst.p[i] : -1, b); ++i; s = *e ? e + 1 : e; } });
		stage([&] { check_layout(o, dst.p, r); });
		stage([&] { if (o.lim) return; size_t pos = o.shift == 255 ? 12 : 8; long nb = 0; while (pos + 4 <= r) { pos += 4 + (dst.p[pos + 1] | dst.p[pos + 2] << 8 | (size_t)dst.p[pos + 3] << 16); ++nb; } if (nb != o.ret) viol("A05", "%ld superblocks instead of %ld", nb, o.ret); });
		stage([&] { stenos_info inf; memset(&inf, 0xEE, sizeof inf); size_t h = stenos_get_info(dst.p, (size_t)o.bt, r, &inf);
			if (h != (size_t)(o.shift == 255 ? 12 : 8) || inf.decompressed_size != n || inf.superblock_size != (size_t)o.ss) viol("A05", "stenos_get_info returns %ld: size %zu, superblock %zu", (long)h, inf.decompressed_size, inf.superblock_size); });
		if (wanted("A02") && !o.lim && o.level == 0) { Map d2(cap - 1); at("A02"); size_t q = stenos_compress_generic(c, src.p, (size_t)o.bt, n, d2.p, cap - 1); if (!stenos_has_error(q)) viol("A02", "compression of %zu bytes with a capacity of %zu returns %zu", n, cap - 1, q); }
		if (wanted("A02") && !wanted("A01")) return;
		if (wanted("A05") && !wanted("A01")) return;
		if (wanted("A03")) { Map d2((size_t)o.cut); at("A03"); size_t q = stenos_decompress_generic(c, dst.p, (size_t)o.bt, r, d2.p, (size_t)o.cut); if (!stenos_has_error(q)) viol("A03", "decompression of %zu bytes with a capacity of %ld returns %zu", n, o.cut, q); }
		Map out(n + (size_t)o.clk[2]); memset(out.p, 0, 1); at(o.lim ? "A08" : "A01,A03");
		for (long i = 0; i < o.clk[2]; ++i) out.p[n + (size_t)i] = 0x5A;
		size_t q = stenos_decompress_generic(c, dst.p, (size_t)o.bt, r, out.p, out.n);
		if (q != n) viol(o.lim ? "A08" : "A01,A03", "decompression of %zu bytes returns %ld", n, (long)q);
		if (memcmp(out.p, src.p, n)) { size_t i = 0; while (out.p[i] == src.p[i]) ++i; viol(o.lim ? "A08" : "A01", "decompressed bytes differ at offset %zu of %zu", i, n); }
		for (long i = 0; i < o.clk[2]; ++i) if (out.p[n + (size_t)i] != 0x5A) viol("A03", "the destination is modified %ld bytes beyond the content", i);
		distinct.insert("huge" + std::to_string(o.n));
	}
	void run(const Op& o)
	{
		curop = &o; opcount[o.op]++; ++nopsdone;
		if (lib && (o.op == "new" || o.op == "del")) { struct In { In() { ah::st.inlib = true; } ~In() { ah::st.inlib = false; } } in;
			if (o.op == "new") { stenos_context* c = stenos_make_context(); ah::st.inlib = false; ctx[o.c] = c; } else { stenos_destroy_context(ctx[o.c]); ah::st.inlib = false; ctx.erase(o.c); } return; }
		if (o.op == "new") { at("A05"); ctx[o.c] = stenos_make_context(); if (!ctx[o.c]) viol("A05", "no context"); }
		else if (o.op == "del") { at("A05"); stenos_destroy_context(ctx[o.c]); ctx.erase(o.c); }
		else if (o.op == "reset") { at("A05"); stenos_reset_context(ctx[o.c]); }
		else if (o.op == "level") { if (stenos_set_level(ctx[o.c], (int)o.v) != 0) viol("A05", "stenos_set_level(%ld) fails", o.v); }
		else if (o.op == "threads") { if (stenos_set_threads(ctx[o.c], (int)o.v) != 0) viol("A05", "stenos_set_threads(%ld) fails", o.v); }
		else if (o.op == "block") { size_t r = stenos_set_block_size(ctx[o.c], (size_t)o.v); if (r != (size_t)o.ret) viol("A05", "stenos_set_block_size(%ld) returns %ld", o.v, (long)r); }
		else if (o.op == "limit") { if (stenos_set_max_nanoseconds(ctx[o.c], clk::dur(o.v, false)) != 0) viol("A08", "stenos_set_max_nanoseconds fails"); }
		else if (o.op == "timesweep") {
			content(SRC, o.n, o.bt, o.dc, o.dseed); Bytes want(SRC.p, SRC.p + o.n); SRC.protect(); size_t cap = stenos_bound((size_t)o.n);
			Op p = o; p.clk[0] = 0; uint64_t nreads = 0;
			for (long k = -1; k <= (long)nreads; k += 1 + (k > 40 ? (long)nreads / 60 : 0)) {
				if (k >= 0) { p.clk[0] = o.clk[0]; p.clk[1] = k; } p.clk[2] = o.clk[2]; curop = &p; at("A08"); DST.get(cap); memset(DST.p, 0xA7, cap);
				size_t r = compress(p, SRC.p, DST.p, cap); if (k < 0) nreads = clk::reads;
				if (stenos_has_error(r)) viol("A08", "time-limited compression fails with %ld", (long)r);
				accept(p, DST.p, r, cap, want); distinct.insert("ts" + std::to_string(k));
			}
			curop = &o;
		}
		else if (o.op == "faultn") {
			for (long k = 1; k < 50; ++k) {
				at("A11"); arm(k, true); stenos_context* c = stenos_make_context(); bool hit = disarm();
				if (c) { if (hit) viol("A11", "a context is returned though its memory was refused"); stenos_set_level(c, 5); ah::st.inlib = true; stenos_destroy_context(c); ah::st.inlib = false; }
				else if (!hit) viol("A11", "no context");
				if (!hit) break;
			}
			ah::st.inlib = true; ctx[o.c] = stenos_make_context(); ah::st.inlib = false; if (!ctx[o.c]) viol("A11", "no context");
		}
		else if (o.op == "faultc" || o.op == "faultd") fault(o);
		else if (o.op == "huge") huge(o);
		else if (o.op == "bound") { size_t r = stenos_bound((size_t)o.n); if (r < (size_t)o.cap) viol("A02", "stenos_bound(%ld) = %zu", o.n, r); }
		else if (o.op == "compress" || o.op == "rel") {
			content(SRC, o.n, o.bt, o.dc, o.dseed);
			Bytes want(SRC.p, SRC.p + o.n); SRC.protect();
			size_t cap; bool full = o.full;
			if (o.op == "rel") { const Frame& f = fr[o.s2]; if (!f.ok) { fr[o.s] = Frame(); return; } long c = (long)f.b.size() + o.delta; cap = c < 0 ? 0 : (size_t)c; }
			else if (o.full && o.lim && o.want == 'o') cap = stenos_bound((size_t)o.n);
			else if (o.full && o.shift != 255 && o.want == 'o') { cap = stenos_bound((size_t)o.n); if (cap < (size_t)o.hi) viol("A02", "stenos_bound(%ld) = %zu is less than %ld", o.n, cap, o.hi); }
			else cap = (size_t)o.cap;
			DST.get(cap); memset(DST.p, 0xA7, cap);
			at(o.lim ? "A08" : full ? "A01,A02" : "A02");
			size_t r = compress(o, SRC.p, DST.p, cap);
			if (!SRC.canary_ok() || (o.n && memcmp(SRC.p, want.data(), (size_t)o.n))) viol("A02,A03", "the source was modified");
			stage([&] { if (!DST.canary_ok()) viol("A02", "bytes before the destination were written"); });
			bool e = stenos_has_error(r) != 0;
			if (!e && r > cap) viol("A02,A05", "returned %zu with a capacity of %zu", r, cap);
			if (o.op == "compress") {
				stage([&] {
				if (o.want == 'o' && e) viol(o.full && o.shift == 255 ? "A01" : "A01,A02", "compression with a capacity of %zu fails with %ld", cap, (long)r);
				if (o.want == 'e' && !e) viol(o.full ? "A05" : "A02", "compression with a capacity of %zu returns %zu instead of an error", cap, r);
				if (o.want == 'e' && o.full && (long)r != o.err) viol("A05", "invalid parameters reported as %ld instead of %ld", (long)r, o.err);
				});
			}
			Frame f;
			if (!e) {
				stage([&] { accept(o, DST.p, r, cap, want); });
				f.b.assign(DST.p, DST.p + r); f.n = o.n; f.bt = o.bt; f.dc = o.dc; f.ds = o.dseed; f.ok = true;
				if (full && !o.lim) {
					auto h = std::make_pair(r, cm::hash(f.b.data(), r)); auto it = memo.find(o.key);
					if (it == memo.end()) { memo[o.key] = h; memo_op[o.key] = o; memo_op[o.key].cap = (long)cap; }
					else if (it->second != h) viol("A04", "the same call gave other bytes before (%zu then %zu bytes)", it->second.first, r);
					distinct.insert(o.key + (char)('0' + bindid % 10));
				}
			}
			if (o.op == "rel" || o.want == 'a') f.ok = false; // the model does not know the outcome
			fr[o.s] = f;
		}
		else if (o.op == "capsweep") {
			content(SRC, o.n, o.bt, o.dc, o.dseed); Bytes want(SRC.p, SRC.p + o.n); SRC.protect();
			size_t full = (size_t)o.full; if (o.shift != 255) full = stenos_bound((size_t)o.n);
			size_t step = 1; if (o.level > 1 && o.n > 400) step = 7; Op p = o;
			for (size_t cap = 0;; cap = cap + step > full && cap < full ? full : cap + step) {
				if (cap > full) break;
				p.cap = (long)cap; curop = &p; at("A02");
				DST.get(cap); memset(DST.p, 0xA7, cap);
				size_t r = compress(p, SRC.p, DST.p, cap);
				if (!DST.canary_ok()) viol("A02", "bytes before the destination were written (capacity %zu)", cap);
				bool e = stenos_has_error(r) != 0;
				if (e && cap >= full) viol("A02", "compression with a capacity of %zu fails with %ld", cap, (long)r);
				if (!e && cap < (size_t)o.lo) viol("A02", "compression with a capacity of %zu returns %zu", cap, r);
				if (!e) accept(p, DST.p, r, cap, want);
				distinct.insert("cs");
			}
			curop = &o;
		}
		else if (o.op == "decompress" || o.op == "decsweep") {
			Frame& f = fr[o.s]; if (!f.ok) return; // the model frame has no counterpart (already reported)
			Bytes want = contentv(f.n, f.bt, f.dc, f.ds);
			long a = o.op == "decsweep" ? 0 : o.cap, b = o.op == "decsweep" ? o.n + 3 : o.cap;
			SRC2.get(f.b.size(), (bindid & 1) != 0); memcpy(SRC2.p, f.b.data(), f.b.size()); SRC2.protect();
			for (long cap = a; cap <= b; ++cap) {
				DST2.get((size_t)cap); memset(DST2.p, 0x5A, (size_t)cap);
				at("A01,A03");
				size_t d = o.c == '-' ? stenos_decompress(SRC2.p, (size_t)o.bt, f.b.size(), DST2.p, (size_t)cap) : stenos_decompress_generic(ctx[o.c], SRC2.p, (size_t)o.bt, f.b.size(), DST2.p, (size_t)cap);
				bool e = stenos_has_error(d) != 0;
				if (!DST2.canary_ok()) viol("A03", "bytes before the destination were written");
				if (memcmp(SRC2.p, f.b.data(), f.b.size())) viol("A03", "the source was modified");
				if (cap < o.n) { if (!e) viol("A03", "decompression of %ld bytes with a capacity of %ld returns %zu", o.n, cap, d); continue; }
				if (e) viol("A01,A03", "decompression of a frame of %zu bytes (code %u) with a capacity of %ld fails with %ld", f.b.size(), f.b.size() > 12 ? f.b[8] : 0, cap, (long)d);
				if (d != (size_t)o.n) viol("A01,A03", "decompressed size %zu", d);
				if (o.n && memcmp(DST2.p, want.data(), (size_t)o.n)) viol("A01", "decompressed bytes differ");
				for (long i = o.n; i < cap; ++i) if (DST2.p[i] != 0x5A) viol("A03", "the destination is modified at offset %ld beyond the content", i);
			}
			distinct.insert("d" + o.op + std::to_string(o.bt) + "," + std::to_string(o.n) + "," + std::to_string(o.cap));
		}
		else if (o.op == "short") {
			Frame& f = fr[o.s]; if (!f.ok) return;
			long len = (long)f.b.size() - o.cut; if (len < 0) len = o.cut % (long)f.b.size();
			SRC2.get((size_t)len); memcpy(SRC2.p, f.b.data(), (size_t)len); SRC2.protect(); DST2.get((size_t)o.n);
			at("A06");
			size_t d = stenos_decompress_generic(ctx[o.c], SRC2.p, (size_t)o.bt, (size_t)len, DST2.p, (size_t)o.n);
			if (!stenos_has_error(d)) viol("A06", "decompression of %ld of %zu bytes returns %zu", len, f.b.size(), d);
			if (!DST2.canary_ok()) viol("A03,A06", "bytes before the destination were written");
		}
		else if (o.op == "badtype") {
			Frame& f = fr[o.s]; if (!f.ok) return;
			SRC2.get(f.b.size()); memcpy(SRC2.p, f.b.data(), f.b.size()); DST2.get((size_t)o.n);
			at("A05,A06");
			size_t d = stenos_decompress_generic(ctx[o.c], SRC2.p, (size_t)o.bt, f.b.size(), DST2.p, (size_t)o.n);
			if ((long)d != o.err) viol("A05,A06", "decompression with an element size of %ld returns %ld", o.bt, (long)d);
		}
		else if (o.op == "info") {
			Frame& f = fr[o.s]; if (!f.ok) return;
			size_t len = std::min((size_t)o.len, f.b.size());
			SRC2.get(len); memcpy(SRC2.p, f.b.data(), len);
			stenos_info inf; memset(&inf, 0, sizeof inf); at("A05,A06");
			size_t h = stenos_get_info(SRC2.p, (size_t)o.bt, len, &inf);
			if (o.ret < 0) { if (!stenos_has_error(h)) viol("A05,A06", "stenos_get_info on %zu bytes, element size %ld returns %zu", len, o.bt, h); }
			else { if (o.ss != -1 ? h != (size_t)o.ret : h != 8 && h != 12) viol("A05", "stenos_get_info returns %ld instead of %ld", (long)h, o.ret); if (inf.decompressed_size != (size_t)o.n || (o.ss != -1 && inf.superblock_size != (size_t)o.ss)) viol("A05", "stenos_get_info: %zu, %zu instead of %ld, %ld", inf.decompressed_size, inf.superblock_size, o.n, o.ss); }
		}
		else { fprintf(stderr, "unknown op %s\n", o.op.c_str()); exit(3); }
	}
	void verify_fresh()
	{
		// key -> bytes is a function: every frame again, from a fresh context and other heap contents
		for (auto& m : memo_op) {
			Op o = m.second; curop = &o; content(SRC, o.n, o.bt, o.dc, o.dseed);
			stenos_context* c = stenos_make_context(); stenos_set_level(c, (int)o.level); stenos_set_threads(c, (int)o.threads);
			if (o.shift == 255) { size_t b = (size_t)o.bt * 256; size_t k = 0; while ((b << k) < (size_t)o.ss) ++k; stenos_set_block_size(c, k); }
			DST.get((size_t)o.cap); memset(DST.p, 0x11, (size_t)o.cap); at("A04");
			size_t r = stenos_compress_generic(c, SRC.p, (size_t)o.bt, (size_t)o.n, DST.p, (size_t)o.cap);
			stenos_destroy_context(c);
			if (stenos_has_error(r)) viol("A04", "a fresh context fails with %ld", (long)r);
			auto h = std::make_pair(r, cm::hash(DST.p, r));
			if (h != memo[m.first]) { viol("A04", "a fresh context gives other bytes (%zu instead of %zu)", r, memo[m.first].first); }
		}
	}
};

int main(int argc, char** argv)
{
	cm::setup();
	double budget = 10; int onlyb = -1, onlyh = -1; bool fresh = false; const char* fn = nullptr; int minb = 1, maxb = 100000;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "-t") budget = atof(argv[++i]); else if (a == "-b") onlyb = atoi(argv[++i]); else if (a == "-h") onlyh = atoi(argv[++i]); else if (a == "-f") fresh = true; else if (a == "-p") only = argv[++i]; else if (a == "-B") maxb = atoi(argv[++i]); else fn = argv[i];
	}
	std::vector<Hist> hs = load(fn);
	double t0 = cm::now(); std::vector<double> cs; for (auto& h : hs) cs.push_back(h.cost); std::sort(cs.begin(), cs.end()); double med = cs.empty() ? 1 : cs[cs.size() / 2] + 1;
	for (int b = onlyb >= 0 ? onlyb : 0; b < maxb; ++b) {
		bool any = false;
		for (auto& h : hs) {
			if (onlyh >= 0 && h.id != onlyh) continue;
			if (onlyb < 0 && b >= minb && b % (1 + (long)(h.cost / med * 1.5)) != 0) continue; // expensive histories less often
			if (onlyb < 0 && b >= minb && cm::now() - t0 > budget) goto end;
			any = true; histid = h.id; bindid = b;
#if !ASAN
			mallopt(M_PERTURB, (b * 37 + h.id) & 255);
#endif
			timed = h.timed;
#if HOOK
			bool one = true; for (auto& o : h.ops) if (o.threads > 1) one = false;
			long live0 = ah::st.liblive; bool stop = false;
			auto body = [&] { try { Drv d; d.lib = true; for (auto& o : h.ops) stage([&] { d.run(o); }); } catch (Stop&) { if (nviol > 20) stop = true; } };
			{ std::thread th(body); th.join(); } // the buffers of a thread are released with it
			if (stop) goto end;
			if (one && ah::st.liblive > live0) { try { curop = &h.ops.back(); viol("A11", "%ld blocks are still allocated after the destruction of the contexts", ah::st.liblive - live0); } catch (Stop&) {} catch (Other&) {} }
			if (ah::st.liblive > 1000) { try { curop = &h.ops.back(); viol("A11", "%ld blocks remain allocated", ah::st.liblive); } catch (Stop&) {} catch (Other&) {} goto end; }
			++nhist; continue;
#endif
			try { Drv d; for (auto& o : h.ops) stage([&] { d.run(o); });
#if !ASAN
				mallopt(M_PERTURB, (b * 11 + h.id + 129) & 255);
#endif
				if (fresh) stage([&] { d.verify_fresh(); }); } catch (Stop&) { if (nviol > 20) goto end; }
			++nhist;
		}
		if (onlyb >= 0 || hs.empty()) break; (void)any;
	}
end:
	if (nfaults) opcount["faults"] = nfaults;
	printf("DONE hists=%ld ops=%ld calls=%ld distinct=%zu viol=%ld", nhist, nopsdone, ncalls, distinct.size(), nviol);
	for (auto& c : opcount) printf(" %s=%ld", c.first.c_str(), c.second); printf("\n");
	return nviol ? 1 : 0;
}
