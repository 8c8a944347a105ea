// Replays the damages of the frame model (spec/Malformed.tla) on real frames and reads them (A06).
//   maldrv FILE [-t seconds] [-b binding] [-h history]
#include "common.h"
#include "datagen.h"
#include "fields.h"
#include <stenos/stenos.h>
#include <set>
#include <algorithm>

using cm::GBuf;
static int histid, bindid; static long opid, ncalls, nviol, nerr, nexact, nother, nacc, nopsdone; static const Op* curop; static std::map<std::string, long> opcount;
struct Stop {};
static void viol(const char* fmt, ...)
{
	char m[500]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
	printf("VIOL A06 hist=%d bind=%d op %ld %s : %s\n", histid, bindid, opid, curop->op.c_str(), m); ++nviol; throw Stop();
}
static void at(const char* what, size_t len, long bt, size_t cap, long th) { cm::cur("A06 hist=%d bind=%d op %ld %s: %s of %zu bytes, element size %ld, capacity %zu, threads %ld", histid, bindid, opid, curop->op.c_str(), what, len, bt, cap, th); ++ncalls; cm::watchdog(60); }

struct Drv {
	GBuf SRC, DST, FR; Bytes content, image; Fields good, f; Op base; stenos_context* c = nullptr; long th = -1; int FILL = 0x3C;
	~Drv() { stenos_destroy_context(c); }
	void make(const Op& o)
	{
		base = o; SRC.get((size_t)o.n, bindid & 1);
		dg::fill(SRC.p, (size_t)o.n, (size_t)o.bt, (int)((o.d0 + bindid * 5) % dg::NCLASS), (uint64_t)o.d1 + (uint64_t)bindid * 1000003ull);
		content.assign(SRC.p, SRC.p + o.n);
		stenos_context* k = stenos_make_context(); stenos_set_level(k, (int)o.level); stenos_set_threads(k, (int)o.threads); stenos_set_block_size(k, o.blk < 0 ? STENOS_NO_BLOCK_SHIFT : (size_t)o.blk);
		Bytes out(stenos_bound((size_t)o.n) + 4 * ((size_t)o.n / (size_t)o.ss + 4) + 64);
		size_t r = stenos_compress_generic(k, content.data(), (size_t)o.bt, (size_t)o.n, out.data(), out.size());
		stenos_destroy_context(k);
		if (stenos_has_error(r)) viol("compression fails with %ld", (long)r);
		out.resize(r); image = out;
		if (!split(out, o.shift == 255, o.n, o.ss, good)) viol("the frame cannot be split in superblocks");
		f = good;
	}
	size_t dec(const Bytes& b, long bt, size_t cap, long threads, const char* what)
	{
		FR.get(b.size(), rnd() & 1); if (!b.empty()) memcpy(FR.p, b.data(), b.size()); FR.protect(); DST.get(cap, rnd() & 1); memset(DST.p, FILL, cap);
		at(what, b.size(), bt, cap, threads);
		size_t d;
		if (threads == 0) d = stenos_decompress(FR.p, (size_t)bt, b.size(), DST.p, cap);
		else {
			if (!c) { c = stenos_make_context(); th = -1; }
			if (th != threads) { stenos_set_threads(c, (int)threads); th = threads; }
			d = stenos_decompress_generic(c, FR.p, (size_t)bt, b.size(), DST.p, cap);
		}
		if (!DST.canary_ok()) viol("%s: bytes outside the destination (%zu bytes) were written", what, cap);
		if (!b.empty() && memcmp(FR.p, b.data(), b.size())) viol("%s: the frame was modified", what);
		if (!stenos_has_error(d)) { if (d > cap) viol("%s: returns %zu with a capacity of %zu", what, d, cap); }
		else ++nerr;
		return d;
	}
	// A success with unforeseen content: all the bytes must have been produced
	void twice(const Bytes& b, long bt, size_t cap, long threads, size_t d)
	{
		Bytes first(DST.p, DST.p + d); FILL = 0xC7; size_t e = dec(b, bt, cap, threads, "damaged frame, second time"); FILL = 0x3C;
		if (e != d) viol("the same damaged frame gives %ld then %ld", (long)d, (long)e);
		if (d && memcmp(first.data(), DST.p, d)) { size_t i = 0; while (first[i] == DST.p[i]) ++i; viol("decompression of a damaged frame returns %zu but leaves bytes it has not produced (first at %zu, element size %ld, threads %ld)", d, i, bt, threads); }
		++nacc;
	}
	void exact(long threads)
	{
		size_t d = dec(image, base.bt, content.size(), threads, "intact frame");
		if (d != content.size()) viol("decompression of the intact frame after the damaged ones returns %ld", (long)d);
		if (d && memcmp(DST.p, content.data(), d)) viol("decompression of the intact frame after the damaged ones gives other bytes");
		++nexact;
	}
	void run(const Op& o)
	{
		curop = &o; opcount[o.op]++; ++nopsdone; seed(o.r + 7919 * bindid, opid);
		if (o.op == "base") make(o);
		else if (o.op == "restore") { f = good; exact(1 + (long)(rnd() % 3) - (long)(rnd() % 2)); }
		else if (o.op == "read") {
			Bytes b = bytes(f); size_t d = dec(b, o.bt, (size_t)o.cap, o.threads, "damaged frame"); bool e = stenos_has_error(d) != 0;
			if (o.want == "err") { if (!e) viol("a malformed frame is accepted (returns %zu, element size %ld, capacity %ld, threads %ld)", d, o.bt, o.cap, o.threads); }
			else if (o.want == "exact") { if (e || d > content.size() || (d && memcmp(DST.p, content.data(), d))) viol("a well-formed frame gives %ld or other bytes (capacity %ld, threads %ld)", (long)d, o.cap, o.threads); ++nexact; }
			else if (o.want == "lax") { if (!e && (d > content.size() || (d && memcmp(DST.p, content.data(), d)))) viol("a frame with foreign bytes gives %zu bytes that are not those of the content", d); ++nother; }
			else ++nother;
			if (!e && o.want != "exact") twice(b, o.bt, (size_t)o.cap, o.threads, d);
			if (!e && o.n < 2147483647 && d != (size_t)o.n) viol("returns %zu, the frame announces %ld", d, o.n);
		}
		else if (o.op == "info") {
			Bytes b = bytes(f); FR.get(b.size()); if (!b.empty()) memcpy(FR.p, b.data(), b.size()); FR.protect(); stenos_info inf; memset(&inf, 0, sizeof inf); at("stenos_get_info", b.size(), o.bt, 0, 0);
			size_t h = stenos_get_info(FR.p, (size_t)o.bt, b.size(), &inf); bool e = stenos_has_error(h) != 0;
			if (o.want == "err" && !e) viol("stenos_get_info accepts a malformed header (returns %zu)", h);
			if (o.want == "ok") {
				if (e) viol("stenos_get_info fails with %ld", (long)h);
				if (h != (size_t)o.cap || inf.superblock_size != (size_t)o.ss || (o.n < 2147483647 && inf.decompressed_size != (size_t)o.n)) viol("stenos_get_info returns %zu, size %zu, superblock %zu instead of %ld, %ld, %ld", h, inf.decompressed_size, inf.superblock_size, o.cap, o.n, o.ss);
			}
		}
		else if (o.op == "prefixes") {
			size_t n = image.size(), step = n > 600 ? n / 400 : 1;
			for (size_t k = 0; k < n; k += (k < 64 || k + 64 >= n) ? 1 : step) {
				Bytes b(image.begin(), image.begin() + (long)k); size_t d = dec(b, o.bt, content.size(), o.threads, "prefix");
				if (!stenos_has_error(d)) viol("the first %zu of %zu bytes of a frame are accepted (returns %zu)", k, n, d);
			}
		}
		else if (o.op == "storm") {
			for (long q = 0; q < o.v; ++q) {
				Bytes b = image; unsigned z = (unsigned)(rnd() % 10);
				if (z < 6) spoil(b, (long)(rnd() % 10));
				else if (z < 8) { for (int k = 0; k < 3; ++k) spoil(b, (long)(rnd() % 10)); }
				else if (z == 8) b.resize(rnd() % (b.size() + 1));
				else { size_t p = rnd() % (b.size() + 1); b.insert(b.begin() + (long)p, 1 + rnd() % 5, (uint8_t)rnd()); }
				size_t d = dec(b, o.bt, (size_t)o.cap, o.threads, "altered frame"); ++nother;
				if (!stenos_has_error(d)) twice(b, o.bt, (size_t)o.cap, o.threads, d);
			}
			exact(o.threads);
		}
		else if (!damage(o, f, good)) viol("the frame has %zu superblocks", f.sbs.size());
	}
};
int main(int argc, char** argv)
{
	cm::setup(); double tmax = 60; int onlyb = -1, onlyh = -1;
	for (int i = 2; i + 1 < argc; i += 2) { std::string a = argv[i]; if (a == "-t") tmax = atof(argv[i + 1]); else if (a == "-b") onlyb = atoi(argv[i + 1]); else if (a == "-h") onlyh = atoi(argv[i + 1]); }
	auto hs = load(argv[1]); double t0 = cm::now(); long nh = 0;
	for (int b = onlyb >= 0 ? onlyb : 0; b < (onlyb >= 0 ? onlyb + 1 : 1000) && nviol < 5; ++b)
		for (size_t h = 0; h < hs.size() && nviol < 5; ++h) {
			if (onlyh >= 0 && (int)h != onlyh) continue;
			if (cm::now() - t0 > tmax) goto end;
			histid = (int)h; bindid = b; ++nh; Drv d; opid = 0;
			try { for (auto& o : hs[h]) { d.run(o); ++opid; } } catch (Stop&) {}
		}
end:
	printf("DONE hists=%ld calls=%ld ops=%ld errors=%ld exact=%ld other=%ld accepted=%ld", nh, ncalls, nopsdone, nerr, nexact, nother, nacc);
	for (auto& x : opcount) printf(" %s=%ld", x.first.c_str(), x.second);
	printf("\n"); return nviol ? 1 : 0;
}
