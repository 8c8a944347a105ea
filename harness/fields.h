// Frames as fields and the damages of spec/Malformed.tla.
#pragma once
#include "common.h"
#include <algorithm>
typedef std::vector<uint8_t> Bytes;
struct Op {
	std::string op, want; long bt = 0, n = 0, level = 0, threads = 0, blk = 0, d0 = 0, d1 = 0, ss = 0, shift = 0, v = 0, i = 0, j = 0, r = 0, cap = 0, k = 0;
};
static std::vector<std::vector<Op>> load(const char* fn)
{
	std::vector<std::vector<Op>> hs; FILE* f = fopen(fn, "r"); if (!f) { perror(fn); exit(3); }
	char* line = nullptr; size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		Op o; char* sv; char* t = strtok_r(line, " \n", &sv); if (!t) continue; o.op = t;
		while ((t = strtok_r(nullptr, " \n", &sv))) {
			char* e = strchr(t, '='); if (!e) continue; *e = 0; std::string k = t; const char* v = e + 1; long x = strtol(v, nullptr, 10);
			if (k == "want") o.want = v; else if (k == "bt") o.bt = x; else if (k == "n") o.n = x; else if (k == "level") o.level = x; else if (k == "threads") o.threads = x; else if (k == "blk") o.blk = x;
			else if (k == "d") { o.d0 = x; const char* q = strchr(v, ','); o.d1 = q ? strtol(q + 1, nullptr, 10) : 0; }
			else if (k == "ss") o.ss = x; else if (k == "shift") o.shift = x; else if (k == "v") o.v = x; else if (k == "i") o.i = x; else if (k == "j") o.j = x; else if (k == "r") o.r = x; else if (k == "cap") o.cap = x; else if (k == "k") o.k = x;
		}
		if (o.op == "start") { hs.emplace_back(); continue; }
		if (hs.empty()) hs.emplace_back();
		hs.back().push_back(o);
	}
	free(line); fclose(f); return hs;
}
struct Sb { unsigned code; long dl; Bytes b; };
struct Fields { Bytes hdr; std::vector<Sb> sbs; Bytes tail; bool form = false; };

static uint64_t rs; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static void seed(long a, long b) { rs = 0x9E3779B97F4A7C15ull ^ ((uint64_t)a * 0xff51afd7ed558ccdull) ^ ((uint64_t)b << 40); if (!rs) rs = 1; rnd(); rnd(); }

// Alters bytes
static void spoil(Bytes& b, long kind)
{
	if (b.empty()) return; size_t n = b.size(), p = rnd() % n; Bytes o = b;
	switch (kind) {
		case 0: b[p] ^= (uint8_t)(1u << (rnd() % 8)); break;
		case 1: b[p] = (uint8_t)rnd(); break;
		case 2: b[0] = (uint8_t)rnd(); break;                                   // codes of the first block
		case 3: b[0] = (uint8_t)(252 + rnd() % 4); break;
		case 4: b[std::min<size_t>(n - 1, rnd() % 40)] ^= (uint8_t)(1 + rnd() % 255); break;
		case 5: { size_t k = 1 + rnd() % 64; uint8_t v = (uint8_t)(rnd() % 3 ? 255 : rnd()); for (size_t i = p; i < n && i < p + k; ++i) b[i] = v; break; }
		case 6: { size_t k = 1 + rnd() % 32, q = rnd() % n; for (size_t i = 0; i < k && p + i < n && q + i < n; ++i) b[p + i] = o[q + i]; break; }
		case 7: for (int i = 0; i < 8; ++i) b[rnd() % n] = (uint8_t)rnd(); break;
		case 8: for (size_t i = p; i < n; ++i) b[i] = (uint8_t)rnd(); break;
		default: { size_t k = 1 + rnd() % 16; k = std::min(k, n); std::rotate(b.begin() + (long)(p % (n - k + 1)), b.begin() + (long)(p % (n - k + 1) + k / 2), b.begin() + (long)(p % (n - k + 1) + k)); }
	}
}


// A frame into fields; false when it does not have the expected structure
static bool split(const Bytes& out, bool form, long n, long ss, Fields& good)
{
	good = Fields(); good.form = form; size_t h = form ? 12 : 8, pos = h, r = out.size(); long left = n; if (r < h) return false;
	good.hdr.assign(out.begin(), out.begin() + (long)h);
	while (left > 0) {
		if (pos + 4 > r) return false;
		size_t cs = out[pos + 1] | out[pos + 2] << 8 | (size_t)out[pos + 3] << 16; if (pos + 4 + cs > r) return false;
		Sb s; s.code = out[pos]; s.dl = 0; s.b.assign(out.begin() + (long)pos + 4, out.begin() + (long)(pos + 4 + cs)); good.sbs.push_back(s);
		pos += 4 + cs; left -= ss;
	}
	return pos == r;
}
static Bytes bytes(const Fields& g)
{
	Bytes o = g.hdr;
	for (auto& s : g.sbs) {
		long d = (long)s.b.size() + s.dl; if (d < 0) d = 0; if (d > 16777215) d = 16777215;
		o.push_back((uint8_t)s.code); o.push_back((uint8_t)d); o.push_back((uint8_t)(d >> 8)); o.push_back((uint8_t)(d >> 16)); o.insert(o.end(), s.b.begin(), s.b.end());
	}
	o.insert(o.end(), g.tail.begin(), g.tail.end()); return o;
}
// Applies a damage; false: not one of them, or not applicable
static bool damage(const Op& o, Fields& f, const Fields& good)
{
	size_t i = o.i > 0 ? (size_t)o.i - 1 : 0, j = o.j > 0 ? (size_t)o.j - 1 : 0;
	if ((o.op[0] == 's' && o.op[1] == 'b') || o.op == "bad" || o.op == "cut" || o.op == "long" || o.op == "drop" || o.op == "twice" || o.op == "exchange" || o.op == "cutsb" || o.op == "cutin")
		if (i >= f.sbs.size() || j >= std::max<size_t>(1, f.sbs.size())) return false;
	if (o.op == "code") f.hdr[0] = (uint8_t)o.v;
	else if (o.op == "size") { uint64_t v = o.v == 2147483647 ? (rnd() & 1 ? 0xffffffffffffffull : 1ull << (31 + rnd() % 25)) : (uint64_t)o.v; for (int k = 0; k < 7; ++k) f.hdr[(size_t)(1 + k)] = (uint8_t)(v >> (8 * k)); }
	else if (o.op == "super") for (int k = 0; k < 4; ++k) f.hdr[(size_t)(8 + k)] = (uint8_t)(o.v >> (8 * k));
	else if (o.op == "sbcode") {
		unsigned old = good.sbs[0].code, v; (void)old;
		if (o.v == 1) { v = 1 + (unsigned)o.r % 5; if (v >= f.sbs[i].code) ++v; f.sbs[i].code = v; }
		else { v = 7 + (unsigned)o.r % 249; if (o.r % 9 == 0) v = 0; f.sbs[i].code = v; }
	}
	else if (o.op == "sblen") {
		long d = o.v; if (d <= -16777215) d = -(long)f.sbs[i].b.size();
		if (f.sbs[i].b.empty() && d < 0) d = 0;
		if (d < -(long)f.sbs[i].b.size()) d = -(long)f.sbs[i].b.size();
		f.sbs[i].dl = d;
	}
	else if (o.op == "bad") { Bytes b = f.sbs[i].b; spoil(b, o.v); f.sbs[i].b = b; }
	else if (o.op == "cut") { Bytes& b = f.sbs[i].b; size_t k = b.empty() ? 0 : (o.r % 3 == 0 ? 1 : o.r % 3 == 1 ? b.size() : 1 + (size_t)o.r % b.size()); b.resize(b.size() - k); if (f.sbs[i].dl < -(long)b.size()) f.sbs[i].dl = -(long)b.size(); }
	else if (o.op == "long") { size_t k = 1 + (size_t)o.r % 20; for (size_t q = 0; q < k; ++q) f.sbs[i].b.push_back((uint8_t)(o.r % 5 == 0 ? 0 : o.r % 5 == 1 ? 255 : rnd())); }
	else if (o.op == "drop") f.sbs.erase(f.sbs.begin() + (long)i);
	else if (o.op == "twice") { Sb s = f.sbs[i]; f.sbs.insert(f.sbs.begin() + (long)i, s); }
	else if (o.op == "exchange") std::swap(f.sbs[i], f.sbs[j]);
	else if (o.op == "trail") for (long k = 0; k < o.v; ++k) f.tail.push_back((uint8_t)rnd());
	else if (o.op == "cuthdr") { f.hdr.resize((size_t)o.v); f.sbs.clear(); f.tail.clear(); }
	else if (o.op == "cutsb") { Fields g = f; g.sbs.erase(g.sbs.begin(), g.sbs.begin() + (long)i); g.hdr.clear(); Bytes rest = bytes(g); f.sbs.resize(i); f.tail.assign(rest.begin(), rest.begin() + std::min<long>((long)rest.size(), o.v)); }
	else if (o.op == "cutin") { f.sbs.resize(i + 1); f.tail.clear(); Bytes& b = f.sbs[i].b; long k = 1 + (b.empty() ? 0 : o.r % (long)b.size()); k = std::min<long>(k, (long)b.size()); if (k < 1) { f.sbs[i].dl += 1; } else { b.resize(b.size() - (size_t)k); f.sbs[i].dl += k; } }
	else return false;
	return true;
}
