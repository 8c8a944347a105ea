// Encodings of superblocks (A07): streams built by spec/Gen_BlockCodec.tla are given to the decoder,
// superblocks written by the encoder are recorded for spec/CheckCodec.tla.
//   fmtdrv FILE [-t seconds] [-o records.json] [-m bytes of records] [-x frames] [-s line]    or    fmtdrv -y frames
#include "common.h"
#include "datagen.h"
#include "fields.h"
#include <stenos/stenos.h>
#include <zstd.h>

using cm::GBuf;
static long nviol, nstream, nframe, nrec, nsuper, norder, ncross; static size_t recbytes, recmax = 4000000; static long lineno; static FILE *rec, *fr; static long codes[8];
struct Stop {};
static void viol(const char* fmt, ...)
{
	char m[600]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
	printf("VIOL A07 hist=0 bind=0 line %ld : %s\n", lineno, m); ++nviol; throw Stop();
}
static void put(Bytes& o, uint64_t v, int n) { for (int k = 0; k < n; ++k) o.push_back((uint8_t)(v >> (8 * k))); }
static GBuf FR, DST;
static void dec(const Bytes& b, size_t bt, const uint8_t* c, size_t n, long th, const char* what)
{
	FR.get(b.size(), lineno & 1); memcpy(FR.p, b.data(), b.size()); FR.protect(); DST.get(n, lineno & 2); memset(DST.p, 0x3C, n);
	cm::cur("A07 hist=0 bind=0 line %ld: decompression of %s, %zu bytes of elements of %zu bytes, threads %ld", lineno, what, n, bt, th); cm::watchdog(60);
	size_t d;
	if (th == 0) d = stenos_decompress(FR.p, bt, b.size(), DST.p, n);
	else { stenos_context* k = stenos_make_context(); stenos_set_threads(k, (int)th); d = stenos_decompress_generic(k, FR.p, bt, b.size(), DST.p, n); stenos_destroy_context(k); }
	++nframe;
	if (d != n) viol("decompression of %s returns %ld instead of %zu (element size %zu)", what, (long)d, n, bt);
	if (n && memcmp(DST.p, c, n)) { size_t i = 0; while (DST.p[i] == c[i]) ++i; viol("decompression of %s: byte %zu of %zu is %u instead of %u (element size %zu, element %zu of block %zu, byte %zu)", what, i, n, DST.p[i], c[i], bt, i / bt % 256, i / bt / 256, i % bt); }
	if (!DST.canary_ok()) viol("decompression of %s writes outside the destination", what);
}
static Bytes head(size_t n, size_t ss) { Bytes o; o.push_back(255); put(o, n, 7); put(o, ss, 4); return o; }
static void super(Bytes& o, unsigned code, const Bytes& b) { o.push_back((uint8_t)code); put(o, b.size(), 3); o.insert(o.end(), b.begin(), b.end()); }
static Bytes zstd(const Bytes& s, int level) { Bytes z(ZSTD_compressBound(s.size())); size_t r = ZSTD_compress(z.data(), z.size(), s.data(), s.size(), level); if (ZSTD_isError(r)) { printf("zstd\n"); exit(3); } z.resize(r); return z; }
static void ints(const uint8_t* p, size_t n) { fputc('[', rec); for (size_t i = 0; i < n; ++i) fprintf(rec, i ? ",%u" : "%u", p[i]); fputc(']', rec); }
// Compresses, reads back, records the superblocks
static void encode(const uint8_t* c, size_t n, size_t bt, int level, int threads, long blk)
{
	stenos_context* k = stenos_make_context(); stenos_set_level(k, level); stenos_set_threads(k, threads); if (blk >= 0) stenos_set_block_size(k, (size_t)blk);
	Bytes out(stenos_bound(n) + 4 * (n / (256 * bt) + 4) + 64);
	cm::cur("A07 hist=0 bind=0 line %ld: compression of %zu bytes, element size %zu, level %d, threads %d", lineno, n, bt, level, threads); cm::watchdog(60);
	size_t r = stenos_compress_generic(k, c, bt, n, out.data(), out.size()); stenos_destroy_context(k);
	if (stenos_has_error(r)) viol("compression of %zu bytes (element size %zu, level %d) fails with %ld", n, bt, level, (long)r);
	out.resize(r); dec(out, bt, c, n, threads, "a compressed frame");
	if (fr && n < 2000000) { uint32_t h[3] = { (uint32_t)bt, (uint32_t)n, (uint32_t)out.size() }; fwrite(h, 4, 3, fr); fwrite(out.data(), 1, out.size(), fr); fwrite(c, 1, n, fr); }
	stenos_info inf; size_t hl = stenos_get_info(out.data(), bt, out.size(), &inf);
	if (stenos_has_error(hl)) viol("stenos_get_info fails on a compressed frame");
	Fields f; if (!split(out, hl == 12, (long)n, (long)inf.superblock_size, f)) viol("a compressed frame of %zu bytes (element size %zu, level %d, superblock %zu) cannot be split in superblocks", n, bt, level, inf.superblock_size);
	size_t at = 0;
	for (auto& s : f.sbs) {
		size_t m = std::min(inf.superblock_size, n - at); Bytes b = s.b; ++nsuper; if (s.code < 8) ++codes[s.code];
		if (s.code >= 2 && s.code <= 5) {
			Bytes z(std::max<size_t>(m, inf.superblock_size) + 64); size_t q = ZSTD_decompress(z.data(), z.size(), b.data(), b.size());
			if (ZSTD_isError(q)) viol("superblock of code %u: its bytes are not what zstd produces", s.code);
			z.resize(q); b = z;
		}
		bool plain = s.code == 2 || s.code == 6;
		if (plain && (b.size() != m || memcmp(b.data(), c + at, m))) viol("superblock of code %u does not hold the bytes of the content (element size %zu, level %d)", s.code, bt, level);
		if (rec && !plain && b.size() + m <= 400000 && recbytes + b.size() + m <= recmax) {
			fprintf(rec, "%s[[%u,%zu,", nrec++ ? ",\n" : "", s.code, bt); ints(b.data(), b.size()); fputc(',', rec); ints(c + at, m); fprintf(rec, ",%ld]]", lineno); recbytes += b.size() + m;
		}
		at += m;
	}
}
static Bytes hex(const char* p) { Bytes b; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; while (p[0] && p[0] != ' ' && p[0] != '\n') { b.push_back((uint8_t)(v(p[0]) * 16 + v(p[1]))); p += 2; } return b; }
static long key(const char* l, const char* k, long d = 0) { const char* p = strstr(l, k); return p ? strtol(p + strlen(k), nullptr, 10) : d; }
static void one(const char* l)
{
	size_t bt = (size_t)key(l, " bt="), n = (size_t)key(l, " n="); int level = (int)key(l, " level="); uint64_t r = (uint64_t)key(l, " r=");
	if (!strncmp(l, "enc ", 4)) {
		Bytes c(n); c.reserve(n + 1); const char* d = strstr(l, " d="); long d0 = strtol(d + 3, nullptr, 10), d1 = strtol(strchr(d, ',') + 1, nullptr, 10);
		if (n) dg::fill(c.data(), n, bt, (int)(d0 % dg::NCLASS), (uint64_t)d1); encode(c.data(), n, bt, level, (int)key(l, " threads="), key(l, " blk=")); return;
	}
	Bytes s = hex(strstr(l, " s=") + 3), c = hex(strstr(l, " c=") + 3); size_t blk = 256 * bt, ss = (n + blk - 1) / blk * blk;
	if (c.size() != n) { printf("bad line\n"); exit(3); }
	if (!n) return;
	if (!strncmp(l, "order ", 6)) {
		unsigned code = (unsigned)key(l, " v="); Bytes o = head(n, ss); super(o, code, zstd(s, level)); dec(o, bt, c.data(), n, (long)(r % 3), code == 3 ? "a transposed superblock" : "a transposed delta superblock"); ++norder;
	}
	else {
		++nstream; { Bytes o = head(n, ss); super(o, 1, s); dec(o, bt, c.data(), n, (long)(r % 2), "a stream of the block format"); }
		if (s.size() <= ss) { Bytes o = head(n, ss); super(o, 5, zstd(s, level)); dec(o, bt, c.data(), n, 1, "a zstd superblock of a stream of the block format"); }
		if (n % blk == 0) { size_t m = 2 + r % 3; Bytes o = head(n * m, n), cc; for (size_t k = 0; k < m; ++k) { super(o, 1, s); cc.insert(cc.end(), c.begin(), c.end()); } dec(o, bt, cc.data(), cc.size(), 1 + (long)(r % 2), "several streams of the block format"); }
	}
	encode(c.data(), n, bt, level, 1, -1);
	if (level > 1) encode(c.data(), n, bt, 1 + (int)(r % 3), 1, 0);
}
int main(int argc, char** argv)
{
	cm::setup(); double tmax = 60; long only = -1; const char* in = nullptr; double t0 = cm::now();
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; if (a[0] != '-') { in = argv[i]; continue; }
		const char* v = argv[++i];
		if (a == "-t") tmax = atof(v); else if (a == "-o") { rec = fopen(v, "w"); fputc('[', rec); } else if (a == "-m") recmax = (size_t)atol(v); else if (a == "-x") fr = fopen(v, "wb"); else if (a == "-s") only = atol(v);
		else if (a == "-y") {
			FILE* f = fopen(v, "rb"); uint32_t h[3]; if (!f) { perror(v); return 3; }
			try {
				while (fread(h, 4, 3, f) == 3) {
					Bytes o(h[2]), c(h[1]); c.reserve(h[1] + 1); if (fread(o.data(), 1, h[2], f) != h[2] || fread(c.data(), 1, h[1], f) != h[1]) break;
					if (only < 0 || only == lineno) { dec(o, h[0], c.data(), h[1], 1 + (ncross & 1), "a frame of another instruction-set variant"); ++ncross; }
					++lineno; if (cm::now() - t0 > tmax) break;
				}
			} catch (Stop&) {}
			fclose(f);
		}
	}
	if (in) {
		FILE* f = fopen(in, "r"); if (!f) { perror(in); return 3; }
		char* l = nullptr; size_t cap = 0;
		while (getline(&l, &cap, f) > 0 && nviol < 5) {
			if (!strncmp(l, "start", 5)) continue;
			if (only < 0 || only == lineno) { if (cm::now() - t0 > tmax) break; try { one(l); } catch (Stop&) {} }
			++lineno;
		}
		free(l); fclose(f);
	}
	if (rec) { fputc(']', rec); fclose(rec); } if (fr) fclose(fr);
	printf("DONE streams=%ld orders=%ld frames=%ld superblocks=%ld records=%ld cross=%ld", nstream, norder, nframe, nsuper, nrec, ncross);
	for (int i = 0; i < 8; ++i) printf(" code%d=%ld", i, codes[i]);
	printf("\n"); return nviol ? 1 : 0;
}
