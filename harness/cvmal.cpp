// Replays spec/Gen_BadVector.tla: damaged serialized vectors read by stenos::cvector::deserialize (B08).
// Compiled per element type: -DTY=<n>.   cvmal FILE [-t seconds] [-b binding] [-h history]
#include "common.h"
#include "datagen.h"
#include "fields.h"
#include <stenos/cvector.hpp>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <utility>

using cm::GBuf;
static long live = 0; static const char* alloc_error = nullptr; static std::unordered_map<void*, size_t> regs;
template<class T> struct CA {
	using value_type = T; CA() noexcept {} template<class U> CA(const CA<U>&) noexcept {}
	T* allocate(size_t n) { void* p = malloc(n * sizeof(T) + 1); regs[p] = n * sizeof(T); live += (long)(n * sizeof(T)); return (T*)p; }
	void deallocate(T* p, size_t n) noexcept { if (!p) return; auto it = regs.find(p); if (it == regs.end()) { alloc_error = "memory released that was not obtained"; return; } if (it->second != n * sizeof(T)) alloc_error = "memory released with another size than requested"; live -= (long)it->second; regs.erase(it); free(p); }
	template<class U> bool operator==(const CA<U>&) const noexcept { return true; }
	template<class U> bool operator!=(const CA<U>&) const noexcept { return false; }
};
#pragma pack(push, 1)
template<int N> struct P { uint8_t b[N]; };
#pragma pack(pop)
#if TY == 0
typedef int32_t T; enum { B = 0, L = 1 };
#elif TY == 1
typedef P<12> T; enum { B = 0, L = 2 };
#elif TY == 2
typedef uint8_t T; enum { B = 1, L = 1 };
#elif TY == 3
typedef uint16_t T; enum { B = 1, L = 3 };
#elif TY == 4
typedef P<3> T; enum { B = 0, L = 0 };
#elif TY == 5
typedef P<40> T; enum { B = 0, L = 9 };
#elif TY == 6
typedef double T; enum { B = 2, L = 1 };
#endif
using V = stenos::cvector<T, B, L, CA<T>>;
static int histid, bindid; static long opid, nviol, ncalls, nerr, nexact, nany, nops; static const Op* curop; static std::map<std::string, long> opcount;
struct Stop {};
static void viol(const char* fmt, ...)
{
	char m[500]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
	printf("VIOL B08 hist=%d bind=%d op %ld %s : %s\n", histid, bindid, opid, curop->op.c_str(), m); ++nviol; throw Stop();
}
struct Drv {
	GBuf FR; Bytes content, image; Fields good, f; std::unique_ptr<V> v; std::vector<T> known; size_t ksz = 0;
	Drv() { v.reset(new V()); }
	static bool eq(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
	void make(const Op& o)
	{
		std::vector<T> x((size_t)o.n / sizeof(T)); content.resize((size_t)o.n);
		dg::fill(content.data(), content.size(), sizeof(T), (int)((o.d0 + bindid * 5) % dg::NCLASS), (uint64_t)o.d1 + (uint64_t)bindid * 1000003ull);
		if (!content.empty()) memcpy((void*)x.data(), content.data(), content.size());
		V s; for (auto& t : x) s.push_back(t);
		Bytes out(stenos_bound((size_t)o.n) + 8 * (content.size() / (size_t)o.ss + 4) + 64); size_t r = s.serialize(out.data(), out.size()); if (stenos_has_error(r)) viol("serialization fails with %ld", (long)r);
		out.resize(r); image = out; if (!split(out, true, o.n, o.ss, good)) viol("the serialized data cannot be split in superblocks"); f = good;
	}
	template<class W> static size_t read(W& w, const Bytes& b, bool stream, GBuf& FR, size_t* rest = nullptr)
	{
		if (stream) { std::istringstream in(std::string((const char*)b.data(), b.size())); return w.deserialize(in); }
		FR.get(b.size(), rnd() & 1); if (!b.empty()) memcpy(FR.p, b.data(), b.size()); FR.protect(); (void)rest; return w.deserialize(FR.p, b.size());
	}
	void at(const char* what, size_t n) { cm::cur("B08 hist=%d bind=%d op %ld %s: %s (%zu bytes)", histid, bindid, opid, curop->op.c_str(), what, n); ++ncalls; cm::watchdog(60); }
	void compare(const V& w, const T* x, size_t n, const char* what)
	{
		if (w.size() != n) viol("%s: %zu elements instead of %zu", what, w.size(), n);
		size_t k = 0; w.for_each(0, n, [&](const T& t) { if (!eq(t, x[k])) viol("%s: element %zu is wrong", what, k); ++k; }); if (k != n) viol("%s: %zu elements visited of %zu", what, k, n);
	}
	std::vector<T> some(size_t n) { std::vector<T> x(n); if (n) { Bytes b(n * sizeof(T)); dg::fill(b.data(), b.size(), sizeof(T), (int)(rnd() % dg::NCLASS), rnd()); memcpy((void*)x.data(), b.data(), b.size()); } return x; }
	std::vector<T> original() { std::vector<T> x(content.size() / sizeof(T)); if (!x.empty()) memcpy((void*)x.data(), content.data(), content.size()); return x; }
	void use(const Op& o)
	{
		auto x = some((size_t)o.v);
		switch (o.k) {
			case 0: v->clear(); if (!v->empty() || v->size()) viol("the vector is not empty after clear()"); for (auto& t : x) v->push_back(t); compare(*v, x.data(), x.size(), "refilled vector"); known = x; break;
			case 1: v.reset(); if (live) viol("%ld bytes are held after the destruction of the vector", live); v.reset(new V()); known.clear(); break;
			case 2: v->clear(); v->assign(x.begin(), x.end()); compare(*v, x.data(), x.size(), "assigned vector"); known = x; break;
			case 3: { at("intact data", image.size()); size_t r = read(*v, image, rnd() & 1, FR); known = original(); if (r != known.size()) viol("reading intact data after damaged data returns %ld instead of %zu", (long)r, known.size()); compare(*v, known.data(), known.size(), "intact data"); break; }
			case 4: { V w(std::move(*v)); v.reset(new V()); known.clear(); break; }
			case 5: { V w; for (auto& t : x) w.push_back(t); v->swap(w); compare(*v, x.data(), x.size(), "swapped vector"); known = x; break; }
			case 6: for (auto& t : x) { v->push_back(t); known.push_back(t); } compare(*v, known.data(), known.size(), "vector after push_back"); break;
			default: compare(*v, known.data(), known.size(), "vector");
				for (size_t i = 0; i < known.size() && i < 50; ++i) { size_t p = rnd() % known.size(); T t = known[rnd() % known.size()]; (*v)[p] = t; known[p] = t; }
				compare(*v, known.data(), known.size(), "modified vector");
		}
	}
	template<class W> void other(bool stream, const char* name)
	{
		W w; w.push_back(typename W::value_type()); at(name, image.size()); size_t r = read(w, image, stream, FR);
		if (!stenos_has_error(r)) viol("data of chunks of %zu bytes is accepted by a vector of %s (returns %zu)", (size_t)V::block_bytes, name, r);
		if (w.size()) viol("%zu elements after a refused header", w.size()); w.push_back(typename W::value_type()); if (w.size() != 1) viol("push_back after a refused header");
	}
	void run(const Op& o)
	{
		curop = &o; opcount[o.op]++; ++nops; seed(o.r + 7919 * bindid, opid);
		cm::cur("B08 hist=%d bind=%d op %ld %s k=%ld", histid, bindid, opid, o.op.c_str(), o.k); cm::watchdog(60);
		if (o.op == "base") make(o);
		else if (o.op == "restore") f = good;
		else if (o.op == "vread") {
			Bytes b = bytes(f); if (o.k == 2) v.reset(new V());
			at(o.k == 1 ? "damaged stream" : "damaged data", b.size()); size_t r = read(*v, b, o.k == 1, FR); bool e = stenos_has_error(r) != 0;
			if (!b.empty() && o.k != 1 && memcmp(FR.p, b.data(), b.size())) viol("the data was modified");
			size_t cnt = o.n >= 2147483647 ? 0 : (size_t)o.n / sizeof(T);
			if (o.want == "err" && !e) viol("malformed data is accepted (returns %zu)", r);
			if (o.want == "exact") { if (e) viol("valid data is refused with %ld", (long)r); auto x = original(); if (r != cnt || x.size() < cnt) viol("returns %zu, %zu elements are announced", r, cnt); compare(*v, x.data(), cnt, "deserialized vector"); known.assign(x.begin(), x.begin() + (long)cnt); ++nexact; }
			else { if (e) ++nerr; else ++nany; if (!e && (r != cnt || v->size() != cnt)) viol("returns %zu with %zu elements, %zu are announced", r, v->size(), cnt); if (e && cnt && v->size() > cnt) viol("%zu elements after an error, %zu are announced", v->size(), cnt); }
		}
		else if (o.op == "use") use(o);
		else if (o.op == "vprefixes") {
			size_t n = image.size(), step = n > 300 ? n / 200 : 1;
			for (size_t k = 0; k < n; k += (k < 40 || k + 40 >= n) ? 1 : step) {
				Bytes b(image.begin(), image.begin() + (long)k); at("prefix", k); size_t r = read(*v, b, o.k == 1, FR);
				if (!content.empty() && !stenos_has_error(r)) viol("the first %zu of %zu bytes are accepted (returns %zu)", k, n, r);
				if (content.empty() && !stenos_has_error(r) && r) viol("returns %zu for a prefix of an empty vector", r);
			}
			v->clear(); known.clear();
		}
		else if (o.op == "other") {
			bool s = o.k == 1;
			switch (o.v) {
				case 0: other<stenos::cvector<T, B + 1, L, CA<T>>>(s, "larger chunks"); break;
				case 1: other<stenos::cvector<T, B + 2, L, CA<T>>>(s, "much larger chunks"); break;
				case 2: other<stenos::cvector<P<5>, 0, 1, CA<P<5>>>>(s, "5 byte elements"); break;
				case 3: other<stenos::cvector<P<7>, 3, 1, CA<P<7>>>>(s, "7 byte elements"); break;
				case 4: other<stenos::cvector<P<100>, 0, 1, CA<P<100>>>>(s, "100 byte elements"); break;
				default: if (sizeof(T) << B != 1) other<stenos::cvector<uint8_t, 0, 1, CA<uint8_t>>>(s, "bytes"); break;
			}
		}
		else if (!damage(o, f, good)) viol("the frame has %zu superblocks", f.sbs.size());
		if (alloc_error) viol("%s", alloc_error);
	}
};
int main(int argc, char** argv)
{
	cm::setup(); double tmax = 60; int onlyb = -1, onlyh = -1;
	for (int i = 2; i + 1 < argc; i += 2) { std::string a = argv[i]; if (a == "-t") tmax = atof(argv[i + 1]); else if (a == "-b") onlyb = atoi(argv[i + 1]); else if (a == "-h") onlyh = atoi(argv[i + 1]); }
	auto hs = load(argv[1]); double t0 = cm::now(); long nh = 0;
	for (int b = onlyb >= 0 ? onlyb : 0; b < (onlyb >= 0 ? onlyb + 1 : 1000) && nviol < 5; ++b)
		for (size_t h = 0; h < hs.size() && nviol < 5; ++h) {
			if (onlyh >= 0 && (int)h != onlyh) continue;
			if (cm::now() - t0 > tmax) goto end;
			histid = (int)h; bindid = b; ++nh; opid = 0; bool bad = false;
			{
				Drv d;
				try { for (auto& o : hs[h]) { d.run(o); ++opid; } }
				catch (Stop&) { bad = true; } catch (std::exception& e) { bad = true; try { viol("exception %s", e.what()); } catch (Stop&) {} }
			}
			try { if (!bad && live) viol("%ld bytes are held at the end", live); if (!bad && alloc_error) viol("%s", alloc_error); } catch (Stop&) {}
			if (bad) { live = 0; regs.clear(); alloc_error = nullptr; }
		}
end:
	printf("DONE hists=%ld calls=%ld ops=%ld errors=%ld exact=%ld any=%ld", nh, ncalls, nops, nerr, nexact, nany);
	for (auto& x : opcount) printf(" %s=%ld", x.first.c_str(), x.second);
	printf("\n"); fflush(stdout); _exit(nviol ? 1 : 0);
}
