// Binding of abstract contents to bytes: fill(dst, n, bt, class, seed) is a pure function.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <vector>
#include <algorithm>

namespace dg {
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) * (uint64_t)n >> 32) : 0; }
	bool one(uint32_t n) { return below(n) == 0; }
	uint8_t byte() { return (uint8_t)(next() >> 56); }
};

// 16 values of a row, chosen to reach every row coding and its boundaries
inline void row16(uint8_t* r, Rng& g, unsigned mode, uint8_t& carry)
{
	switch (mode) {
		case 0: { uint8_t v = g.one(3) ? carry : g.byte(); for (int i = 0; i < 16; ++i) r[i] = v; break; }
		case 1: { // bit range of k bits, boundary included
			unsigned k = g.below(9); unsigned rng = k == 8 ? 256 : (1u << k); if (g.one(3) && rng < 256) ++rng; else if (g.one(4) && rng > 1) --rng;
			uint8_t mn = g.one(3) ? (uint8_t)(256 - rng) : g.byte();
			for (int i = 0; i < 16; ++i) r[i] = (uint8_t)(mn + g.below(rng));
			if (rng > 1) { r[g.below(16)] = mn; r[g.below(16)] = (uint8_t)(mn + rng - 1); }
			break; }
		case 2: { // deltas of k bits (signed range, any minimum)
			unsigned k = g.below(9); unsigned rng = k == 8 ? 256 : (1u << k); if (g.one(3) && rng < 256) ++rng;
			uint8_t dmin = g.one(2) ? (uint8_t)(0 - rng / 2) : g.byte(); uint8_t v = g.one(2) ? carry : g.byte();
			for (int i = 0; i < 16; ++i) { v = (uint8_t)(v + dmin + g.below(rng)); r[i] = v; }
			break; }
		case 3: { // runs
			unsigned i = 0; uint8_t v = g.one(2) ? carry : g.byte(); unsigned avg = 1 + g.below(12);
			while (i < 16) { unsigned l = 1 + g.below(avg * 2); for (; l && i < 16; --l) r[i++] = v; v = g.one(4) ? (uint8_t)(v + 1) : g.byte(); }
			break; }
		case 4: { // runs in the deltas
			unsigned i = 0; uint8_t v = g.byte(), d = g.byte(); unsigned avg = 1 + g.below(12);
			while (i < 16) { unsigned l = 1 + g.below(avg * 2); for (; l && i < 16; --l) { r[i++] = v; v = (uint8_t)(v + d); } d = g.one(3) ? 0 : g.byte(); }
			break; }
		case 5: { uint8_t v = g.byte(); for (int i = 0; i < 16; ++i) r[i] = v; unsigned k = 1 + g.below(3); while (k--) r[g.below(16)] = g.byte(); break; }
		default: for (int i = 0; i < 16; ++i) r[i] = g.byte(); break;
	}
	carry = r[15];
}

inline void plane256(uint8_t* p, Rng& g, unsigned style)
{
	if (style == 0) { memset(p, g.one(3) ? 0 : g.byte(), 256); return; }
	if (style == 1) { for (int i = 0; i < 256; ++i) p[i] = g.byte(); return; }
	uint8_t carry = g.byte(); unsigned fixed = style == 2 ? g.below(7) : 7;
	uint8_t t[256];
	for (int r = 0; r < 16; ++r) row16(t + r * 16, g, fixed < 7 ? fixed : g.below(7), carry);
	if (style == 4) { for (int i = 0; i < 256; ++i) p[i] = t[(i % 16) * 16 + i / 16]; }
	else if (style == 5) { // repeated rows: equal minimums
		for (int r = 1; r < 16; ++r) if (g.one(2)) memcpy(t + r * 16, t + (r - 1) * 16, 16); memcpy(p, t, 256); }
	else memcpy(p, t, 256);
}

static const int NCLASS = 26;

inline void fill(uint8_t* d, size_t n, size_t bt, int cls, uint64_t seed, int depth = 0)
{
	Rng g(seed * 131 + (uint64_t)cls * 7919 + 17);
	if (!n) return;
	if (bt == 0) bt = 1;
	size_t ne = n / bt;
	auto put = [&](size_t i, uint64_t v) { for (size_t b = 0; b < bt; ++b) { size_t o = i * bt + b; if (o < n) d[o] = b < 8 ? (uint8_t)(v >> (8 * b)) : (uint8_t)0; } };
	switch (cls) {
		case 0: memset(d, 0, n); break;
		case 1: memset(d, g.byte(), n); break;
		case 2: { std::vector<uint8_t> e(bt); for (auto& x : e) x = g.byte(); for (size_t i = 0; i < n; ++i) d[i] = e[i % bt]; break; }
		case 3: for (size_t i = 0; i < n; ++i) d[i] = g.byte(); break;
		case 4: { uint64_t v = g.next() >> g.below(64); for (size_t i = 0; i <= ne; ++i) put(i, v++); break; }
		case 5: { uint64_t v = g.next(), st = g.next() >> g.below(64); for (size_t i = 0; i <= ne; ++i) { put(i, v); v += st; } break; }
		case 6: { unsigned k = 1 + g.below(8); uint8_t mn = g.byte(); for (size_t i = 0; i < n; ++i) d[i] = (uint8_t)(mn + (g.byte() >> (8 - k))); break; }
		case 7: { uint64_t v = g.next() >> 20; unsigned k = 1 + g.below(40); for (size_t i = 0; i <= ne; ++i) { put(i, v); v += (g.next() >> (64 - k)) - (1ull << (k - 1)); } break; }
		case 8: { static const char* w[] = { "the ", "vector ", "of ", "bytes ", "is ", "compressed ", "and ", "a", "b", ", ", "\n", "0123456789 " }; size_t i = 0;
			while (i < n) { const char* s = w[g.below(12)]; while (*s && i < n) d[i++] = (uint8_t)*s++; } break; }
		case 9: { size_t i = 0; unsigned avg = 1 + g.below(60); while (i < n) { size_t l = 1 + g.below(avg); uint8_t v = g.byte(); while (l-- && i < n) d[i++] = v; } break; }
		case 10: { size_t i = 0; unsigned avg = 1 + g.below(300); while (i < n) { std::vector<uint8_t> e(bt); for (auto& x : e) x = g.byte(); size_t l = 1 + g.below(avg); while (l-- && i < n) for (size_t b = 0; b < bt && i < n; ++b) d[i++] = e[b]; } break; }
		case 11: { uint64_t v = 0; unsigned k = 1 + g.below(20); for (size_t i = 0; i <= ne; ++i) { put(i, v); v += g.next() >> (64 - k); } break; }
		case 12: { size_t per = 1 + g.below(g.one(2) ? 20 : 400); std::vector<uint8_t> e(std::min(n, per * bt)); for (auto& x : e) x = g.byte(); for (size_t i = 0; i < n; ++i) d[i] = e[i % e.size()]; break; }
		case 13: { double f = 0.001 * (1 + g.below(100)); for (size_t i = 0; i <= ne; ++i) { uint64_t v; if (bt == 4) { float x = (float)std::sin(f * i) * 1000; uint32_t u; memcpy(&u, &x, 4); v = u; } else { double x = std::sin(f * i) * 1000; memcpy(&v, &x, 8); } put(i, v); } break; }
		case 14: case 15: { // rows chosen per 256-element block and byte plane
			uint8_t p[256]; unsigned st0 = cls == 14 ? 3 : g.below(6);
			for (size_t e = 0; e * bt < n; e += 256)
				for (size_t b = 0; b < bt; ++b) {
					plane256(p, g, cls == 14 ? 3 + g.below(2) : g.one(3) ? g.below(6) : st0);
					for (size_t i = 0; i < 256; ++i) { size_t o = (e + i) * bt + b; if (o < n) d[o] = p[i]; }
				}
			break; }
		case 16: { // copies of earlier elements at chosen distances
			unsigned pr = 2 + g.below(8); size_t i = 0;
			while (i < n) {
				size_t e = i / bt;
				if (e == 0 || g.below(10) >= pr) { for (size_t b = 0; b < bt && i < n; ++b) d[i++] = g.byte(); }
				else { uint32_t m = (uint32_t)std::min<size_t>(e, g.one(3) ? 8 : g.one(2) ? 127 : g.one(3) ? 129 : 70000); size_t dist = 1 + g.below(m); size_t l = 1 + g.below(g.one(2) ? 3 : 20);
					while (l-- && i < n) for (size_t b = 0; b < bt && i < n; ++b, ++i) d[i] = d[i - dist * bt]; }
			}
			break; }
		case 17: { // copies of 4/8-byte words inside and across elements
			size_t w = bt % 8 == 0 ? 8 : bt % 4 == 0 ? 4 : 1 + g.below(8); unsigned pr = 2 + g.below(8); size_t i = 0;
			while (i < n) {
				size_t e = i / w;
				if (e == 0 || g.below(10) >= pr) { for (size_t b = 0; b < w && i < n; ++b) d[i++] = g.byte(); }
				else { static const uint32_t ds[] = { 1, 2, 126, 127, 128, 129, 255, 256, 1000, 32766, 32767, 32768, 32769 }; size_t dist = g.one(2) ? ds[g.below(13)] : 1 + g.below(40000); if (dist > e) dist = 1 + g.below((uint32_t)e);
					size_t l = 1 + g.below(g.one(2) ? 4 : 40); while (l-- && i < n) for (size_t b = 0; b < w && i < n; ++b, ++i) d[i] = d[i - dist * w]; }
			}
			break; }
		case 18: { // nearly incompressible
			for (size_t i = 0; i < n; ++i) d[i] = g.byte(); unsigned k = g.below(6); while (k--) { size_t o = g.below((uint32_t)n), l = std::min<size_t>(n - o, 1 + g.below(g.one(2) ? 300 : 3000)); memset(d + o, g.byte(), l); } break; }
		case 19: { // sparse
			memset(d, 0, n); size_t k = n / (1 + g.below(200)) + 1; while (k--) d[g.below((uint32_t)n)] = g.byte(); break; }
		case 20: { for (size_t i = 0; i < n; ++i) d[i] = (i % bt) & 1 ? g.byte() : (uint8_t)(i / bt); break; }
		case 21: { uint8_t v[256]; for (auto& x : v) x = g.byte(); for (size_t i = 0; i < n; ++i) { uint8_t& x = v[(i % bt) & 255]; x = (uint8_t)(x + (int)g.below(3) - 1); d[i] = x; } break; }
		case 22: { // blocks alternate between contents
			size_t b = bt * 256; for (size_t o = 0; o < n; o += b) fill(d + o, std::min(b, n - o), bt, depth ? (int)g.below(16) : (int)g.below(22), g.next() & 0xffff, depth + 1); break; }
		case 23: { // segments of any length
			size_t o = 0; while (o < n) { size_t l = std::min<size_t>(n - o, 1 + g.below(g.one(2) ? 5000 : 200000)); fill(d + o, l, g.one(2) ? bt : 1 + g.below(16), (int)g.below(22), g.next() & 0xffff, depth + 1); o += l; } break; }
		case 24: { // each byte plane has its own style for the whole content
			std::vector<uint8_t> st(bt); for (auto& x : st) x = (uint8_t)g.below(6);
			uint8_t p[256];
			for (size_t e = 0; e * bt < n; e += 256) for (size_t b = 0; b < bt; ++b) { plane256(p, g, st[b]); for (size_t i = 0; i < 256; ++i) { size_t o = (e + i) * bt + b; if (o < n) d[o] = p[i]; } }
			break; }
		default: { // random big superblock parts then compressible ones
			size_t q = 65536 + g.below(131072); for (size_t o = 0; o < n; o += q) { size_t l = std::min(q, n - o); if ((o / q) & 1) fill(d + o, l, bt, (int)g.below(18), g.next() & 0xffff, depth + 1); else for (size_t i = 0; i < l; ++i) d[o + i] = g.byte(); } break; }
	}
}
} // namespace dg
