// Replays histories of spec/CVector.tla on stenos::cvector and compares every predicted result.
// Compiled once per element type: -DTY=<n>.
#include "common.h"
#include <stenos/cvector.hpp>
#include <stenos/stenos.h>
#include <algorithm>
#include <fstream>
#include <iterator>
#include <list>
#include <memory>
#include <numeric>
#include <sstream>
#include <stdexcept>
#include <unordered_map>

// ------------------------------------------------------------------ reports
static std::string curline; static long lineno = 0, nviol = 0, nops = 0, nhist = 0; static const char* curhist = "";
static std::string history; // the operations of the current history
struct Fail {};
static void viol(const char* tags, const char* fmt, ...)
{
	char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	printf("VIOL %s %s | history %ld line %ld: %s\n", tags, b, nhist, lineno, curline.c_str()); fflush(stdout); ++nviol; throw Fail();
}
#define VAL "B01,B02,B03,B04"

// ------------------------------------------------------------------ failures and accounting
static long fail_in = 0;      // > 0: the fail_in-th allocation fails
static long ctor_in = 0;      // > 0: the ctor_in-th construction of an element throws
static bool armed = false, fired = false;
static long nalloc = 0, nctor = 0;
struct Reg { size_t n; int id; };
static std::unordered_map<void*, Reg> regs; static size_t live_bytes = 0; static const char* alloc_error = nullptr;
static size_t big_from = (size_t)-1; static long nbig = 0;
static void* aget(size_t n, int id)
{
	if (armed) { ++nalloc; if (fail_in > 0 && --fail_in == 0) { fired = true; throw std::bad_alloc(); } }
	void* p = malloc(n ? n : 1); bool s = armed; armed = false; regs[p] = { n, id }; armed = s; live_bytes += n; if (n >= big_from) ++nbig; return p;
}
static void aput(void* p, size_t n, int id)
{
	if (!p) return;
	auto it = regs.find(p);
	if (it == regs.end()) { alloc_error = "memory released that was not obtained (or twice)"; return; }
	if (it->second.n != n) alloc_error = "memory released with another size than requested";
	if (it->second.id != id) alloc_error = "memory released to another allocator";
	live_bytes -= it->second.n; if (it->second.n >= big_from) --nbig;
	regs.erase(it); free(p);
}
template<class T> struct CA {
	using value_type = T; int id;
	CA(int i = 0) noexcept : id(i) {}
	template<class U> CA(const CA<U>& o) noexcept : id(o.id) {}
	T* allocate(size_t n) { return (T*)aget(n * sizeof(T), id); }
	void deallocate(T* p, size_t n) noexcept { aput(p, n * sizeof(T), id); }
	template<class U> bool operator==(const CA<U>& o) const noexcept { return id == o.id; }
	template<class U> bool operator!=(const CA<U>& o) const noexcept { return id != o.id; }
};

// ------------------------------------------------------------------ element types
static const char* life_error = nullptr; static long live_elems = 0;
struct Cell { int id; unsigned magic; };
static std::vector<Cell*> cells; static size_t ncells = 0;
static Cell* newcell(int id) { if (ncells == cells.size()) cells.push_back(new Cell[4096]); static size_t in = 0; (void)in; static std::vector<Cell*> freel; Cell* c = nullptr; (void)freel; static size_t used = 4096; static Cell* blk = nullptr; if (used == 4096) { blk = cells[ncells++]; used = 0; } c = blk + used++; c->id = id; c->magic = 0xA11CE; return c; }
struct Tr {
	Cell* p;
	static void cons() { if (armed) { ++nctor; if (ctor_in > 0 && --ctor_in == 0) { fired = true; throw std::runtime_error("ctor"); } } }
	int get() const { if (!p) return -1; if (p->magic != 0xA11CE) { life_error = "element used after its destruction"; return -2; } return p->id; }
	Tr() { cons(); p = newcell(0); ++live_elems; }
	explicit Tr(int i) { p = newcell(i); ++live_elems; }
	Tr(const Tr& o) { cons(); p = newcell(o.get()); ++live_elems; }
	Tr(Tr&& o) noexcept { p = o.p; o.p = nullptr; ++live_elems; }
	Tr& operator=(const Tr& o) { if (this != &o) { cons(); int i = o.get(); drop(); p = newcell(i); } return *this; }
	Tr& operator=(Tr&& o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
	~Tr() { drop(); --live_elems; }
	void drop() { if (p) { if (p->magic != 0xA11CE) life_error = "element destroyed twice"; p->magic = 0xDEAD; p = nullptr; } }
};
struct Mo {
	Tr t; Mo() {} explicit Mo(int i) : t(i) {} Mo(Mo&& o) noexcept : t(std::move(o.t)) {} Mo(const Mo&) = delete; Mo& operator=(Mo&& o) noexcept { t = std::move(o.t); return *this; } Mo& operator=(const Mo&) = delete;
};
struct P12 { int32_t a; uint32_t b, c; };
#pragma pack(push, 1)
struct P3 { uint8_t b[3]; };
struct P40 { int32_t a; uint8_t b[36]; };
#pragma pack(pop)
struct P8H { uint64_t h; };
namespace stenos { template<> struct is_relocatable<Tr> : std::true_type {}; template<> struct is_relocatable<Mo> : std::true_type {}; }
static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
template<class T> struct E { static T mk(int i) { return (T)i; } static int id(const T& t) { return (int)t; } };
template<> struct E<int64_t> { static int64_t mk(int i) { return (int64_t)i * 0x100000001ll; } static int id(const int64_t& t) { return (int32_t)t == (t >> 32) ? (int)(t >> 32) : -3; } };
template<> struct E<double> { static double mk(int i) { return i * 1.5; } static int id(const double& t) { int i = (int)(t / 1.5); return i * 1.5 == t ? i : -3; } };
template<> struct E<P12> { static P12 mk(int i) { return P12{ i, i ? (uint32_t)i * 3u : 0, i ? (uint32_t)i ^ 0x55u : 0 }; } static int id(const P12& t) { P12 o = mk(t.a); return memcmp(&o, &t, 12) ? -3 : t.a; } };
template<> struct E<P3> { static P3 mk(int i) { return P3{ { (uint8_t)(i >> 16), (uint8_t)(i >> 8), (uint8_t)i } }; } static int id(const P3& t) { return t.b[0] << 16 | t.b[1] << 8 | t.b[2]; } };
template<> struct E<P40> { static P40 mk(int i) { P40 r; r.a = i; for (int k = 0; k < 36; ++k) r.b[k] = i ? (uint8_t)(i * (k + 1)) : 0; return r; } static int id(const P40& t) { P40 o = mk(t.a); return memcmp(&o, &t, sizeof o) ? -3 : t.a; } };
template<> struct E<P8H> { static P8H mk(int i) { return P8H{ i ? (mix((uint64_t)i) & 0xffffffff0000ull) << 16 | (uint64_t)i : 0 }; } static int id(const P8H& t) { int i = (int)(t.h & 0xffffffffu); return mk(i).h == t.h ? i : -3; } };
template<> struct E<Tr> { static Tr mk(int i) { return Tr(i); } static int id(const Tr& t) { return t.get(); } };
template<> struct E<Mo> { static Mo mk(int i) { return Mo(i); } static int id(const Mo& t) { return t.t.get(); } };
#define CMP(T) static bool operator<(const T& a, const T& b) { return E<T>::id(a) < E<T>::id(b); } static bool operator==(const T& a, const T& b) { return E<T>::id(a) == E<T>::id(b); } static bool operator!=(const T& a, const T& b) { return !(a == b); } static bool operator>(const T& a, const T& b) { return b < a; } static bool operator<=(const T& a, const T& b) { return !(b < a); } static bool operator>=(const T& a, const T& b) { return !(a < b); }
CMP(P12) CMP(P3) CMP(P40) CMP(P8H) CMP(Tr) CMP(Mo)

#if TY == 0
typedef int32_t T; enum { B = 0, L = 1 };
#elif TY == 1
typedef int64_t T; enum { B = 0, L = 2 };
#elif TY == 2
typedef P12 T; enum { B = 0, L = 1 };
#elif TY == 3
typedef Tr T; enum { B = 0, L = 1 };
#elif TY == 4
typedef Mo T; enum { B = 0, L = 1 };
#elif TY == 5
typedef uint16_t T; enum { B = 1, L = 3 };
#elif TY == 6
typedef P3 T; enum { B = 0, L = 0 };
#elif TY == 7
typedef P8H T; enum { B = 0, L = 1 };
#elif TY == 8
typedef Tr T; enum { B = 1, L = 5 };
#elif TY == 9
typedef P40 T; enum { B = 0, L = 9 };
#elif TY == 10
typedef double T; enum { B = 2, L = 1 };
#endif
using V = stenos::cvector<T, B, L, CA<T>>;
static const bool CP = std::is_copy_constructible<T>::value;
static const bool TRIV = std::is_trivially_copyable<T>::value;
static const bool LIFE = !std::is_trivially_destructible<T>::value;
static T mk(int i) { return E<T>::mk(i); }
static int id(const T& t) { return E<T>::id(t); }
template<class D> static int idw(const D& d) { return id(d.get()); }
template<class X> static const T& cref(const X& x) { return x; }

struct Rn { int a, n, s; };
static int runat(const std::vector<Rn>& q, size_t p) { for (auto& r : q) { if (p < (size_t)r.n) return r.a + (int)p * r.s; p -= (size_t)r.n; } return -99; }
static std::vector<int> expand(const std::vector<Rn>& q) { std::vector<int> r; for (auto& x : q) for (int i = 0; i < x.n; ++i) r.push_back(x.a + i * x.s); return r; }

struct InIt { // single-pass iterator over ids
	using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T;
	int a, s, k; T operator*() const { return mk(a + k * s); } InIt& operator++() { ++k; return *this; } InIt operator++(int) { InIt r = *this; ++k; return r; } bool operator==(const InIt& o) const { return k == o.k; } bool operator!=(const InIt& o) const { return k != o.k; }
};

struct Slot { int kind = 0; std::unique_ptr<typename V::ref_type> r; std::unique_ptr<typename V::const_ref_type> c; const T* addr = nullptr; };
static const int NV = 3;
static std::unique_ptr<V> vs[NV + 1]; static Slot slots[9]; static std::unique_ptr<typename V::iterator> its[9];
static uint64_t rs = 1; static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)(rs >> 33) % n; }

static void need(bool ok, const char* tags, const char* what, long got = 0, long want = 0) { if (!ok) viol(tags, "%s (got %ld, expected %ld)", what, got, want); }
static void same(int got, int want, size_t p, const char* what) { if (got != want) viol(VAL, "%s: element %zu is %d, expected %d", what, p, got, want); }

template<class It> static void cmprange(It b, It e, const std::vector<int>& x, const char* what) { size_t k = 0; for (; b != e; ++b, ++k) { if (k >= x.size()) viol("B01", "%s: more elements than expected", what); same(id((*b).get()), x[k], k, what); } need(k == x.size(), "B01", what, (long)k, (long)x.size()); }

static void check(V& v, int how, const std::vector<int>& x)
{
	const V& c = v; size_t n = x.size();
	need(v.size() == n, "B01", "size", (long)v.size(), (long)n);
	switch (how) {
		case 0: { size_t k = 0; size_t r = c.for_each(0, n, [&](const T& t) { same(id(t), x[k], k, "for_each"); ++k; }); need(r == n && k == n, "B04", "for_each result", (long)r, (long)n); break; }
		case 1: cmprange(v.begin(), v.end(), x, "iteration"); break;
		case 2: for (size_t i = 0; i < n; ++i) same(idw(v[i]), x[i], i, "operator[]"); break;
		case 3: for (size_t i = 0; i < n && i < 300; ++i) { size_t p = rnd((unsigned)n); same(idw(v.at(p)), x[p], p, "at"); same(idw(c.at(p)), x[p], p, "const at"); } break;
		case 4: { std::vector<int> y(x.rbegin(), x.rend()); size_t k = 0; for (auto it = v.rbegin(); it != v.rend(); ++it, ++k) same(id((*it).get()), y[k], n - 1 - k, "reverse iteration"); break; }
		case 5: { if (!n) break; auto it = c.cbegin(); size_t p = 0; for (int i = 0; i < 200; ++i) { size_t q = rnd((unsigned)n); it += (std::ptrdiff_t)q - (std::ptrdiff_t)p; p = q; same(id((*it).get()), x[p], p, "jumping iterator"); if (p) { auto j = it; --j; same(id((*j).get()), x[p - 1], p - 1, "decremented iterator"); } } break; }
		case 6: { size_t k = 0; for (const auto& t : c) { same(id(t.get()), x[k], k, "range for"); ++k; } need(k == n, "B01", "range for length", (long)k, (long)n); break; }
		case 7: if constexpr (CP) { std::vector<T> y; for (auto it = c.begin(); it != c.end(); ++it) y.push_back(cref<T>(*it)); for (size_t i = 0; i < n; ++i) same(id(y[i]), x[i], i, "copied elements"); } else cmprange(c.begin(), c.end(), x, "iteration"); break;
		default: { size_t k = 0; size_t r = c.for_each_backward(0, n, [&](const T& t) { same(id(t), x[n - 1 - k], n - 1 - k, "for_each_backward"); ++k; return true; }); need(r == n && k == n, "B04", "for_each_backward result", (long)r, (long)n); break; }
	}
	if (n) { same(idw(v.front()), x[0], 0, "front"); same(idw(c.back()), x[n - 1], n - 1, "back"); }
}

static void fillruns(V& v, const std::vector<int>& x) { for (int i : x) v.push_back(mk(i)); }
static std::vector<int> dump(const V& v) { std::vector<int> r; v.for_each(0, v.size(), [&](const T& t) { r.push_back(id(t)); }); return r; }

static void do_push(V& v, int how, int a, int n, int s)
{
	for (int i = 0; i < n; ++i) {
		int x = a + i * s; T t = mk(x); int h = how == 4 ? i % 3 : how;
		if (!CP && h == 0) h = 1;
		switch (h) {
			case 0: if constexpr (CP) v.push_back((const T&)t); break;
			case 1: v.push_back(std::move(t)); break;
			case 2: { auto r = v.emplace_back(std::move(t)); if (i == 0) same(idw(r), x, v.size() - 1, "emplace_back result"); break; }
			default: { auto it = v.insert(v.end(), std::move(t)); if (i == 0) { need((size_t)(it - v.begin()) == v.size() - 1, "B01", "insert at the end: position", it - v.begin(), (long)v.size() - 1); same(id((*it).get()), x, v.size() - 1, "insert at the end: result"); } }
		}
	}
}
template<class F> static auto with_range(int how, int a, int n, int s, F&& f)
{
	if (how == 1) { std::list<T> l; for (int i = 0; i < n; ++i) l.push_back(mk(a + i * s)); if constexpr (CP) return f(l.begin(), l.end()); else return f(std::make_move_iterator(l.begin()), std::make_move_iterator(l.end())); }
	if (how == 2) return f(InIt{ a, s, 0 }, InIt{ a, s, n });
	std::vector<T> w; for (int i = 0; i < n; ++i) w.push_back(mk(a + i * s));
	if constexpr (CP) return f(w.begin(), w.end()); else return f(std::make_move_iterator(w.begin()), std::make_move_iterator(w.end()));
}
static long do_insert(V& v, int how, int p, int a, int n, int s)
{
	typename V::const_iterator pos = v.cbegin() + p; bool cst = s == 0 || n <= 1;
	if (n == 1 && how <= 3) {
		T t = mk(a); typename V::iterator it;
		if (how == 0 && CP) { if constexpr (CP) it = v.insert(pos, (const T&)t); } else if (how <= 2) it = v.insert(pos, std::move(t)); else it = v.emplace(pos, std::move(t));
		same(id((*it).get()), a, (size_t)p, "insert result"); return it - v.begin();
	}
	if (cst && CP && how >= 6) { if constexpr (CP) { T t = mk(a); if (how == 7) { v.insert((size_t)p, (size_t)n, t); return p; } auto it = v.insert(pos, (size_t)n, t); return it - v.begin(); } }
	if (CP && n <= 3 && how == 5) { if constexpr (CP) { typename V::iterator it; if (n == 0) it = v.insert(pos, std::initializer_list<T>{}); else if (n == 1) it = v.insert(pos, { mk(a) }); else if (n == 2) it = v.insert(pos, { mk(a), mk(a + s) }); else it = v.insert(pos, { mk(a), mk(a + s), mk(a + 2 * s) }); return it - v.begin(); } }
	return with_range(how % 3, a, n, s, [&](auto b, auto e) { return (long)(v.insert(pos, b, e) - v.begin()); });
}
static void do_assign(V& v, int how, int a, int n, int s)
{
	if ((s == 0 || n <= 1) && how >= 3) { if constexpr (CP) { v.assign((size_t)n, mk(a)); return; } }
	if (how == 3 && n <= 3) { if constexpr (CP) { if (n == 0) v.assign(std::initializer_list<T>{}); else if (n == 1) v.assign({ mk(a) }); else if (n == 2) v.assign({ mk(a), mk(a + s) }); else v.assign({ mk(a), mk(a + s), mk(a + 2 * s) }); return; } }
	with_range(how % 3, a, n, s, [&](auto b, auto e) { v.assign(b, e); });
}
static void do_set(V& v, int how, int p, int x)
{
	size_t n = v.size();
	switch (how) {
		case 0: v[(size_t)p] = mk(x); break;
		case 1: v.at((size_t)p) = mk(x); break;
		case 2: *(v.begin() + p) = mk(x); break;
		case 3: if (p == 0) v.front() = mk(x); else if ((size_t)p == n - 1) v.back() = mk(x); else v[(size_t)p].set(mk(x)); break;
		case 4: *(v.rbegin() + (std::ptrdiff_t)(n - 1 - (size_t)p)) = mk(x); break;
		case 5: v.begin()[p] = mk(x); break;
		case 6: { auto r = v[(size_t)p]; T t = mk(x); if constexpr (CP) r = (const T&)t; else r = std::move(t); break; }
		case 7: { typename V::iterator::value_type w(mk(x)); v[(size_t)p] = std::move(w); break; }
		case 8: { auto it = v.end(); it -= (std::ptrdiff_t)(n - (size_t)p); *it = mk(x); break; }
		default: { auto it = v.begin(); it += p; if ((size_t)p + 1 < n) { (void)idw(*it); ++it; (void)idw(*it); --it; } auto j = it; *j = mk(x); }
	}
}
static int do_get(V& v, int how, int p)
{
	const V& c = v; size_t n = v.size(), u = (size_t)p;
	switch (how) {
		case 0: return idw(v[u]); case 1: return idw(v.at(u)); case 2: return idw(c[u]); case 3: return idw(c.at(u));
		case 4: return idw(*(v.begin() + p)); case 5: return idw(*(c.begin() + p)); case 6: return p == 0 ? idw(v.front()) : u == n - 1 ? idw(v.back()) : idw(v[u]);
		case 7: return idw(*(v.rbegin() + (std::ptrdiff_t)(n - 1 - u))); case 8: { const T* q = (c.begin() + p).operator->(); (void)q; auto it = c.begin() + p; return id(*it.operator->()); }
		case 9: { const T& t = c[u]; (void)t; auto r = c[u]; const T& q = r; return id(q); } case 10: return idw(c.cbegin()[p]);
		default: { auto it = v.end(); for (int i = 0; i < 3 && it != v.begin(); ++i) { --it; (void)idw(*it); } it += p - (it - v.begin()); auto old = it++; it--; return idw(*old) == idw(*it) ? idw(*it) : -4; }
	}
}
template<class A, class C> static void cmp6(const A& a, const C& b, int s)
{
	need((a == b) == (s == 0) && (a != b) == (s != 0) && (a < b) == (s < 0) && (a > b) == (s > 0) && (a <= b) == (s <= 0) && (a >= b) == (s >= 0), "B01", "comparison of references", a == b, s);
}
static void do_cmp(V& v, int how, size_t p, V& w, size_t q, int s)
{
	const V &c = v, &d = w; using W = typename V::iterator::value_type;
	switch (how) {
		case 0: cmp6(v[p], w[q], s); break;
		case 1: cmp6(c[p], w[q], s); break;
		case 2: cmp6(*(v.begin() + (long)p), *(d.begin() + (long)q), s); break;
		case 3: { W x(mk(idw(c[p]))); cmp6(x, w[q], s); break; }
		case 4: { W x(mk(idw(d[q]))); cmp6(v.at(p), x, s); break; }
		default: { auto a = c[p]; auto b = d[q]; cmp6(a, b, s); W x(mk(idw(a))), y(mk(idw(b))); cmp6(x, y, s); }
	}
}
struct Stop {};
static void do_visit(V& v, const std::vector<long>& g, const std::vector<Rn>& old)
{
	int how = (int)g[1]; size_t p = (size_t)g[2], e = (size_t)g[3]; long stop = g[4]; int end = (int)g[5], a = (int)g[6]; bool mut = g[7], back = g[8]; long want = g[9];
	std::vector<int> x = expand(old); size_t k = 0; const V& c = v; const T* prev = nullptr;
	// positions are visited in order; inside a chunk the elements are adjacent
	auto see = [&](const T& t) {
		size_t n = x.size(); if (k >= n) viol("B04", "more calls than elements (%zu)", k);
		size_t i = back ? n - 1 - k : k; if (id(t) != x[i]) viol("B04,B01,B02,B03", "call %zu sees %d, expected %d", k, id(t), x[i]);
		prev = &t;
	};
	auto act = [&](const T& t) { see(t); bool last = stop >= 0 && (long)k == stop; ++k; if (last && end == 2) throw Stop(); return !(last && end == 1); };
	auto actm = [&](T& t) { see(t); t = mk(a + (int)k); bool last = stop >= 0 && (long)k == stop; ++k; if (last && end == 2) throw Stop(); return !(last && end == 1); };
	size_t r = 0; bool thrown = false, isvoid = end != 1 && (how & 1);
	try {
		if (mut) { auto fv = [&](T& t) { actm(t); }; auto fi = [&](T& t) { return (int)actm(t); }; if (back) r = isvoid ? v.for_each_backward(p, e, fv) : how & 2 ? v.for_each_backward(p, e, fi) : v.for_each_backward(p, e, actm); else r = isvoid ? v.for_each(p, e, fv) : how & 2 ? v.for_each(p, e, fi) : v.for_each(p, e, actm); }
		else {
			auto fv = [&](const T& t) { act(t); };
			if (back) r = isvoid ? c.for_each_backward(p, e, fv) : how & 2 ? c.const_for_each_backward(p, e, act) : c.for_each_backward(p, e, act);
			else r = isvoid ? c.for_each(p, e, fv) : how & 2 ? c.const_for_each(p, e, act) : c.for_each(p, e, act);
		}
	}
	catch (Stop&) { thrown = true; }
	need(k == x.size(), "B04", "number of calls", (long)k, (long)x.size());
	need(thrown == (end == 2), "B04", "exception of the functor", thrown, end == 2);
	if (!thrown) need((long)r == want, "B04", "result of the visit", (long)r, want);
}
static const char* SER = "B07";
static std::string ser_buffer(V& v, long shorter, const std::vector<int>& x)
{
	size_t bound = stenos_bound(v.size() * sizeof(T)) + 64 + (v.size() / V::block_size + 1) * 8 + v.size() * sizeof(T) / 8;
	cm::GBuf b; b.get(bound); size_t r = v.serialize(b.p, bound);
	need(!stenos_has_error(r), SER, "serialize fails", (long)r, 0);
	std::string s((char*)b.p, r);
	if (shorter > 0 && r) {
		size_t cap = (size_t)shorter >= r ? r / 2 : r - (size_t)shorter; cm::GBuf q; q.get(cap); memset(q.p, 0xEE, cap); size_t r2 = v.serialize(q.p, cap);
		need(stenos_has_error(r2) != 0, SER, "serialize succeeds in a too small buffer", (long)r2, (long)cap); need(q.canary_ok(), SER, "serialize writes outside of the buffer");
	}
	cm::GBuf q; q.get(r); size_t r3 = v.serialize(q.p, r); need(r3 == r && !memcmp(q.p, s.data(), r), SER, "serializing again into a buffer of the exact size", (long)r3, (long)r);
	(void)x; return s;
}
static void do_serial(V& v, int how, V& w, long shorter, const std::vector<Rn>& q)
{
	std::vector<int> x = expand(q);
	if constexpr (!TRIV) { w.clear(); fillruns(w, x); return; }
	else {
		std::string s;
		if (how == 1 || how == 2) {
			std::ostringstream o; if (how == 2) o << "prefix"; size_t r = v.serialize(o); need(!stenos_has_error(r), SER, "serialize to a stream fails", (long)r, 0); s = o.str(); if (how == 2) s = s.substr(6);
			need(s.size() == r, SER, "bytes written to the stream", (long)s.size(), (long)r);
		}
		else s = ser_buffer(v, shorter, x);
		// a valid frame for the general decompression function
		size_t n = x.size() * sizeof(T); std::vector<T> out(x.size() + 1); size_t d = stenos_decompress(s.data(), sizeof(T), s.size(), out.data(), n);
		need(d == n, SER, "stenos_decompress of the serialized bytes", (long)d, (long)n);
		for (size_t i = 0; i < x.size(); ++i) if (id(out[i]) != x[i]) viol(SER, "decompressed serialized bytes: element %zu is %d, expected %d", i, id(out[i]), x[i]);
		stenos_info info; size_t gi = stenos_get_info(s.data(), sizeof(T), s.size(), &info); need(!stenos_has_error(gi) && info.decompressed_size == n, SER, "announced size", (long)info.decompressed_size, (long)n);
		size_t r;
		if (how == 0 || how == 2) { cm::GBuf b; b.get(s.size()); memcpy(b.p, s.data(), s.size()); r = w.deserialize(b.p, s.size()); }
		else { std::istringstream in(s + (how == 3 ? "suffix" : "")); r = w.deserialize(in); if (how == 3 && !stenos_has_error(r)) { std::string rest; std::getline(in, rest); need(rest == "suffix", SER, "the stream is not positioned after the data"); } }
		need(r == x.size(), SER, "result of deserialize", (long)r, (long)x.size()); need(w.size() == x.size(), SER, "size after deserialize", (long)w.size(), (long)x.size());
		size_t k = 0; const V& cw = w; cw.for_each(0, w.size(), [&](const T& t) { if (id(t) != x[k]) viol(SER, "deserialized element %zu is %d, expected %d", k, id(t), x[k]); ++k; });
		const V& cv = v; k = 0; cv.for_each(0, v.size(), [&](const T& t) { if (id(t) != x[k]) viol(SER, "element %zu of the serialized vector became %d, was %d", k, id(t), x[k]); ++k; });
	}
}
static void do_stream(V& v, int how, int a, int n, int r)
{
	std::vector<int> x; for (int i = 0; i < n; ++i) x.push_back(a + i);
	if constexpr (!TRIV) { v.clear(); fillruns(v, x); return; }
	else {
		std::string s; if (how == 2) s = "head"; for (int i : x) { T t = mk(i); s.append((char*)&t, sizeof t); }
		T t = mk(a + n); s.append((char*)&t, (size_t)r % sizeof(T));
		std::istringstream in(s); if (how == 2) in.ignore(4);
		using I = stenos::istreambuf_iterator<T>;
		if (how == 1) {
			v.clear(); I b(in), e; size_t k = 0;
			while (b != e) { need(!(b == e), "B12", "iterator both equal to and different from the end"); T y = *b; if ((k & 3) == 0) { T z = *b; need(id(z) == id(y), "B12", "reading the record twice", id(z), id(y)); need(b != e, "B12", "iterator at the end after a read"); }
				if (k >= x.size()) viol("B12", "more records than the stream holds"); if (id(y) != x[k]) viol("B12", "record %zu is %d, expected %d", k, id(y), x[k]); v.push_back(y); ++b; ++k; }
			need(k == x.size(), "B12", "number of records", (long)k, (long)x.size()); need(b == e && e == b, "B12", "iterator not at the end");
		}
		else if (how == 3) { v.clear(); I b(in), e; size_t k = 0; for (; k < x.size(); ++k) { I c(std::move(b)); if (!(c != e)) viol("B12", "end after %zu records of %zu", k, x.size()); T y = *c; if (id(y) != x[k]) viol("B12", "record %zu is %d, expected %d", k, id(y), x[k]); v.push_back(y); ++c; b.~I(); new (&b) I(std::move(c)); } need(!(b != e), "B12", "more records than the stream holds"); }
		else v.assign(I(in), I());
		need(v.size() == x.size(), "B12", "number of elements read from the stream", (long)v.size(), (long)x.size());
		for (size_t k = 0; k < x.size(); ++k) if (idw(v[k]) != x[k]) viol("B12", "element %zu read from the stream is %d, expected %d", k, idw(v[k]), x[k]);
	}
}

static void do_records(int n, int r, const std::vector<Rn>& q)
{
	if constexpr (TRIV) {
		std::string s; int a = n * 31 + r; for (int i = 0; i < n; ++i) { T t = mk(a + i); s.append((char*)&t, sizeof t); }
		T t = mk(a + n); s.append((char*)&t, (size_t)r % sizeof(T));
		std::istringstream in(s); using I = stenos::istreambuf_iterator<T>; I e; alignas(I) char mem[2][sizeof(I)]; int cur = 0; I* b = new (mem[0]) I(in); long k = 0;
		for (auto& o : q) {
			++k; long got = o.n; // the result predicted by the specification
			switch (o.a) {
				case 0: got = id(**b) - a; break;
				case 1: ++*b; break;
				case 2: got = *b == e; break;
				case 3: got = *b != e; break;
				case 4: got = e == *b; break;
				case 5: got = e != *b; break;
				default: { I* c = new (mem[1 - cur]) I(std::move(*b)); b->~I(); b = c; cur = 1 - cur; }
			}
			if (got != o.n) viol("B12", "step %ld of the iteration over %d records gives %ld, expected %d", k, n, got, o.n);
		}
		b->~I();
	}
}

struct Op { std::string name; std::vector<long> g; std::vector<Rn> q; long sz[NV + 1]; long gu[7]; };
static void slotset(Slot& s, int c) { s.kind = c ? 2 : 1; }
static const T& slotget(Slot& s) { return s.kind == 2 ? s.c->get() : s.r->get(); }
static long foot_slack = 4;
static int mode_fail = 0; static uint64_t failrng = 1; static long nfails = 0, nfired = 0;

static void exec(const Op& o)
{
	const std::vector<long>& g = o.g; auto v = [&](int i) -> V& { return *vs[g[(size_t)i]]; }; auto I = [&](size_t i) { return (int)g[i]; };
	const std::string& n = o.name;
	if (n == "push") do_push(v(0), I(1), I(2), I(3), I(4));
	else if (n == "pop") { for (long i = 0; i < g[1]; ++i) v(0).pop_back(); }
	else if (n == "resize") { if constexpr (CP) { if (g[1]) { v(0).resize((size_t)g[2], mk(I(3))); return; } v(0).resize((size_t)g[2]); } else { size_t b = v(0).size(); v(0).resize((size_t)g[2]); if (g[1]) for (size_t i = b; i < v(0).size(); ++i) v(0)[i] = mk(I(3)); } }
	else if (n == "clear") v(0).clear();
	else if (n == "insert") { long r = do_insert(v(0), I(1), I(2), I(3), I(4), I(5)); need(r == g[2], "B01", "position returned by insert", r, g[2]); }
	else if (n == "insfrom") { if constexpr (CP) { auto r = v(0).insert(v(0).cbegin() + g[1], v(2).cbegin() + g[3], v(2).cbegin() + g[4]); need(r - v(0).begin() == g[1], "B01", "position returned by insert", r - v(0).begin(), g[1]); } else { std::vector<T> t; for (long i = g[3]; i < g[4]; ++i) t.push_back(mk(idw(v(2)[(size_t)i]))); v(0).insert(v(0).cbegin() + g[1], std::make_move_iterator(t.begin()), std::make_move_iterator(t.end())); } }
	else if (n == "erase") { auto r = g[3] == g[2] + 1 && g[1] ? v(0).erase(v(0).cbegin() + g[2]) : v(0).erase(v(0).cbegin() + g[2], v(0).cbegin() + g[3]); need(r - v(0).begin() == g[2], "B01", "position returned by erase", r - v(0).begin(), g[2]); }
	else if (n == "assign") do_assign(v(0), I(1), I(2), I(3), I(4));
	else if (n == "make") {
		int h = I(1), a = I(2), m = I(3), st = I(4); bool cst = st == 0 || m <= 1; std::unique_ptr<V> t;
		if (h == 0) { if constexpr (std::is_default_constructible<T>::value) t.reset(new V((size_t)m)); }
		else if (cst && CP && h != 4) { if constexpr (CP) { if (h == 1) t.reset(new V((size_t)m, mk(a))); else { T x = mk(a); t.reset(new V((size_t)m, x, CA<T>(0))); } } }
		else if (CP && h == 3 && m <= 3) { if constexpr (CP) { if (m == 0) t.reset(new V(std::initializer_list<T>{})); else if (m == 1) t.reset(new V({ mk(a) })); else if (m == 2) t.reset(new V({ mk(a), mk(a + st) })); else t.reset(new V({ mk(a), mk(a + st), mk(a + 2 * st) })); } }
		else with_range(h % 3, a, m, st, [&](auto b, auto e) { t.reset(new V(b, e, CA<T>(0))); });
		vs[g[0]].swap(t);
	}
	else if (n == "asgfrom") { if constexpr (CP) { const V& w = v(2); if (g[1]) v(0).assign(w.begin() + g[3], w.begin() + g[4]); else v(0).assign(v(2).begin() + g[3], v(2).begin() + g[4]); } else { std::vector<T> t; for (long i = g[3]; i < g[4]; ++i) t.push_back(mk(idw(v(2)[(size_t)i]))); v(0).assign(std::make_move_iterator(t.begin()), std::make_move_iterator(t.end())); } }
	else if (n == "set") do_set(v(0), I(1), I(2), I(3));
	else if (n == "setfrom") {
		V &a = v(0), &b = v(3); size_t p = (size_t)g[2], q = (size_t)g[4]; int h = I(1); bool self = &a == &b && p == q;
		if constexpr (CP) switch (h) { case 0: a[p] = b[q]; break; case 1: *(a.begin() + (long)p) = *(b.begin() + (long)q); break; case 2: { auto r = a[p]; const auto s = b[q]; r = s.get(); break; } case 3: { const V& cb = b; a[p] = cb[q]; break; } case 4: a[p] = std::move(b[q]); b[q] = mk(I(5)); break; default: { T t = b[q].move(); a[p] = std::move(t); b[q] = mk(I(5)); } }
		else if (h >= 4) { if (h == 4) { a[p] = std::move(b[q]); } else { T t = b[q].move(); a[p] = std::move(t); } b[q] = mk(I(5)); }
		else if (!self) a[p] = mk(idw(b[q]));
	}
	else if (n == "swap") {
		V &a = v(0), &b = v(3); size_t p = (size_t)g[2], q = (size_t)g[4];
		switch (I(1)) { case 0: swap(a[p], b[q]); break; case 1: std::iter_swap(a.begin() + (long)p, b.begin() + (long)q); break; case 2: { auto r = a[p]; auto s = b[q]; r.swap(s); break; } default: { auto r = a[p]; auto s = b[q]; using std::swap; swap(r, s); } }
	}
	else if (n == "get") same(do_get(v(0), I(1), I(2)), I(3), (size_t)g[2], "read");
	else if (n == "rcmp") do_cmp(v(0), I(1), (size_t)g[2], v(3), (size_t)g[4], I(5));
	else if (n == "oob") { const V& c = v(0); bool t1 = false, t2 = false; try { v(0).at((size_t)g[1]); } catch (std::out_of_range&) { t1 = true; } try { c.at((size_t)g[1]); } catch (std::out_of_range&) { t2 = true; } need(t1 && t2, "B01", "at() outside of the range does not throw out_of_range"); }
	else if (n == "copy") {
		if constexpr (CP) switch (I(1)) { case 0: v(0) = (const V&)v(2); break; case 1: { std::unique_ptr<V> t(new V(v(2))); vs[g[0]].swap(t); break; } case 2: { V t(v(2), CA<T>(0)); v(0).swap(t); break; } default: { V t(v(2).cbegin(), v(2).cend()); v(0).swap(t); } }
		else { auto x = dump(v(2)); v(0).clear(); fillruns(v(0), x); }
	}
	else if (n == "self") { V& a = v(0); if constexpr (CP) { V& b = a; a = (const V&)b; } a.swap(a); }
	else if (n == "move") {
		V &a = v(0), &b = v(2);
		switch (I(1)) { case 0: a = std::move(b); b.clear(); break; case 1: { V t(std::move(b)); need(b.size() == 0, "B01", "size of a moved-from vector", (long)b.size(), 0); a.swap(t); break; } case 2: { V t(std::move(b), CA<T>(0)); a.swap(t); b.clear(); break; }
			default: { std::vector<int> x = dump(b); V t(std::move(b), CA<T>(7)); check(t, 0, x); b.clear(); a.clear(); t.for_each(0, t.size(), [&](T& e) { a.push_back(std::move(e)); }); } }
	}
	else if (n == "swapvec") { if (g[1]) v(0).swap(v(2)); else std::swap(v(0), v(2)); }
	else if (n == "visit") do_visit(v(0), g, o.q);
	else if (n == "check") check(v(0), I(1), expand(o.q));
	else if (n == "areverse") std::reverse(v(0).begin() + g[1], v(0).begin() + g[2]);
	else if (n == "arotate") std::rotate(v(0).begin() + g[1], v(0).begin() + g[2], v(0).begin() + g[3]);
	else if (n == "afill") { if constexpr (CP) std::fill(v(0).begin() + g[1], v(0).begin() + g[2], mk(I(3))); else for (long i = g[1]; i < g[2]; ++i) v(0)[(size_t)i] = mk(I(3)); }
	else if (n == "acopy") {
		V &a = v(0), &b = v(4);
		if constexpr (CP) { if (g[1]) std::copy_backward(a.begin() + g[2], a.begin() + g[3], b.begin() + (g[5] + g[3] - g[2])); else std::copy(a.cbegin() + g[2], a.cbegin() + g[3], b.begin() + g[5]); }
		else { std::vector<int> x; for (long i = g[2]; i < g[3]; ++i) x.push_back(idw(a[(size_t)i])); for (size_t i = 0; i < x.size(); ++i) b[(size_t)g[5] + i] = mk(x[i]); }
	}
	else if (n == "aswap") { auto r = std::swap_ranges(v(0).begin() + g[1], v(0).begin() + g[2], v(3).begin() + g[4]); need(r - v(3).begin() == g[4] + g[2] - g[1], "B01", "result of swap_ranges", r - v(3).begin(), g[4] + g[2] - g[1]); }
	else if (n == "asort") {
		auto b = v(0).begin() + g[2], e = v(0).begin() + g[3]; auto less = [](const T& x, const T& y) { return id(x) < id(y); };
		switch (I(1)) { case 0: std::sort(b, e); break; case 1: if constexpr (CP) std::stable_sort(b, e); else std::sort(b, e); break; case 2: if constexpr (CP) { std::make_heap(b, e); std::sort_heap(b, e); } else std::sort(b, e); break; default: std::sort(b, e, less); }
	}
	else if (n == "afind") {
		const V& c = v(0); T x = mk(I(2)); long r, k;
		if (g[1] == 0) r = std::find_if(c.begin(), c.end(), [&](const T& t) { return id(t) == I(2); }) - c.begin(); else if (g[1] == 1) { r = 0; c.for_each(0, c.size(), [&](const T& t) { if (id(t) == I(2)) return false; ++r; return true; }); } else { auto it = v(0).begin(); for (; it != v(0).end(); ++it) if ((*it).get() == x) break; r = it - v(0).begin(); }
		k = std::count_if(c.begin(), c.end(), [&](const T& t) { return id(t) == I(2); }); need(r == g[3], "B01,B02", "position found", r, g[3]); need(k == g[4], "B01,B02", "count", k, g[4]);
	}
	else if (n == "aremove") { T x = mk(I(1)); auto it = std::remove_if(v(0).begin(), v(0).end(), [&](const T& t) { return t == x; }); v(0).erase(it, v(0).end()); }
	else if (n == "aunique") { auto it = std::unique(v(0).begin(), v(0).end(), [](const T& a, const T& b) { return a == b; }); v(0).erase(it, v(0).end()); }
	else if (n == "ref") { Slot& s = slots[g[0]]; slotset(s, I(3)); if (g[3]) { const V& c = v(1); s.c.reset(new typename V::const_ref_type(c[(size_t)g[2]])); } else s.r.reset(new typename V::ref_type(v(1)[(size_t)g[2]])); same(id(slotget(s)), I(4), (size_t)g[2], "new reference"); s.addr = &slotget(s); }
	else if (n == "rget") { Slot& s = slots[g[0]]; int x = id(slotget(s)); if (x != g[1]) viol(VAL, "reference designates %d, expected %ld", x, g[1]); if (g[2] && s.addr && &slotget(s) != s.addr) viol("B03", "the element of a live reference has moved"); if (g[2] && s.addr && id(*s.addr) != g[1]) viol("B03", "the memory of a referenced element holds %d, expected %ld", id(*s.addr), g[1]); if (!g[2]) s.addr = nullptr; }
	else if (n == "rset") { Slot& s = slots[g[0]]; if (g[1] == 0) *s.r = mk(I(2)); else if (g[1] == 1) s.r->set(mk(I(2))); else { T t = mk(I(2)); if constexpr (CP) *s.r = (const T&)t; else *s.r = std::move(t); } }
	else if (n == "rcopy") { Slot &s = slots[g[0]], &t = slots[g[1]]; s.kind = t.kind; if (t.c) s.c.reset(new typename V::const_ref_type(*t.c)); if (t.r) s.r.reset(new typename V::ref_type(*t.r)); s.addr = t.addr; }
	else if (n == "rbind") { *slots[g[0]].c = *slots[g[1]].c; slots[g[0]].addr = slots[g[1]].addr; }
	else if (n == "rassign") { Slot &s = slots[g[0]], &t = slots[g[1]]; if constexpr (CP) { if (t.c) *s.r = *t.c; else *s.r = *t.r; } else *s.r = mk(id(slotget(t))); }
	else if (n == "rswap") slots[g[0]].r->swap(*slots[g[1]].r);
	else if (n == "rdrop") { Slot& s = slots[g[0]]; s.c.reset(); s.r.reset(); s.kind = 0; s.addr = nullptr; }
	else if (n == "it") { V& a = v(1); long p = g[2]; its[g[0]].reset(new typename V::iterator(g[3] == 0 ? a.begin() + p : g[3] == 1 ? a.end() - ((long)a.size() - p) : a.begin())); if (g[3] == 2) *its[g[0]] += p; }
	else if (n == "imove") { auto& it = *its[g[0]]; long d = g[1]; if (d == 1) { if (g[2]) ++it; else it++; } else if (d == -1) { if (g[2]) --it; else it--; } else if (g[2]) it += d; else it -= -d; }
	else if (n == "iget") { int x = id((**its[g[0]]).get()); if (x != g[1]) viol(VAL, "iterator designates %d, expected %ld", x, g[1]); }
	else if (n == "iset") **its[g[0]] = mk(I(1));
	else if (n == "idiff") { auto &a = *its[g[0]], &b = *its[g[1]]; long d = a - b; need(d == g[2], "B01", "distance of iterators", d, g[2]); need((a == b) == (g[2] == 0) && (a != b) == (g[2] != 0) && (a < b) == (g[2] < 0) && (a > b) == (g[2] > 0) && (a <= b) == (g[2] <= 0) && (a >= b) == (g[2] >= 0), "B01", "comparison of iterators"); }
	else if (n == "idrop") its[g[0]].reset();
	else if (n == "shrink") v(0).shrink_to_fit();
	else if (n == "shrinkall") { for (int i = 1; i <= NV; ++i) vs[i]->shrink_to_fit(); need(nbig <= g[1], "B11", "chunks kept decompressed after shrinking", nbig, g[1]); }
	else if (n == "serial") do_serial(v(0), I(1), v(2), g[3], o.q);
	else if (n == "foot") {
		need(nbig <= g[1] + foot_slack * NV, "B11", "chunks kept decompressed", nbig, g[1] + foot_slack * NV);
		size_t f = 0; for (int i = 1; i <= NV; ++i) f += vs[i]->memory_footprint();
		need(f >= live_bytes, "B11", "memory footprint smaller than the memory held", (long)f, (long)live_bytes);
	}
	else if (n == "stream") do_stream(v(0), I(1), I(2), I(3), I(4));
	else if (n == "records") do_records(I(0), I(1), o.q);
	else { fprintf(stderr, "unknown operation %s\n", n.c_str()); exit(3); }
}

static void reset_world()
{
	for (auto& s : slots) { s.c.reset(); s.r.reset(); s.kind = 0; s.addr = nullptr; } for (auto& i : its) i.reset();
	for (int i = 1; i <= NV; ++i) vs[i].reset();
}
static void finish_history()
{
	reset_world();
	if (life_error) viol("B09", "%s", life_error); if (alloc_error) viol("B09", "%s", alloc_error);
	if (LIFE) need(live_elems == 0, "B09", "elements alive after the destruction of the vectors", live_elems, 0);
	need(regs.empty(), "B09,B10", "memory held after the destruction of the vectors (bytes)", (long)live_bytes, 0);
}
static void start_history()
{
	live_elems = 0; life_error = alloc_error = nullptr; regs.clear(); live_bytes = 0; nbig = 0; fail_in = ctor_in = 0; armed = false;
	for (int i = 1; i <= NV; ++i) vs[i].reset(i == 1 ? new V() : i == 2 ? new V(CA<T>(0)) : new V((size_t)0, CA<T>(0)));
}
static bool parse(const std::string& l, Op& o)
{
	o.g.clear(); o.q.clear(); for (auto& s : o.gu) s = -1; for (auto& s : o.sz) s = -1;
	const char* p = l.c_str(); const char* sp = strchr(p, ' '); o.name.assign(p, sp ? (size_t)(sp - p) : l.size()); if (!sp) return true; p = sp;
	int part = 0; std::vector<long> nums[4]; for (;;) { while (*p == ' ') ++p; if (!*p) break; if (*p == '|') { ++part; ++p; continue; } char* e; long x = strtol(p, &e, 10); nums[part].push_back(x); p = e; }
	o.g = nums[0]; for (size_t i = 0; i + 2 < nums[1].size(); i += 3) o.q.push_back({ (int)nums[1][i], (int)nums[1][i + 1], (int)nums[1][i + 2] });
	for (size_t i = 0; i < nums[2].size() && i < (size_t)NV; ++i) o.sz[i + 1] = nums[2][i];
	for (size_t i = 0; i < nums[3].size() && i < 7; ++i) o.gu[i] = nums[3][i];
	return true;
}
static void audit(const Op& o)
{
	long sum = 0; for (int i = 1; i <= NV; ++i) if (o.sz[i] >= 0) { need((long)vs[i]->size() == o.sz[i], "B01", "size", (long)vs[i]->size(), o.sz[i]); need(vs[i]->empty() == (o.sz[i] == 0), "B01", "empty()", vs[i]->empty(), o.sz[i] == 0); sum += o.sz[i]; }
	if (life_error) viol("B09", "%s", life_error); if (alloc_error) viol("B09", "%s", alloc_error);
	if (LIFE) need(live_elems == sum, "B09", "elements alive", live_elems, sum);
}
static const char* FAILABLE[] = { "push", "pop", "resize", "insert", "insfrom", "erase", "assign", "make", "asgfrom", "set", "setfrom", "swap", "get", "copy", "visit", "check", "areverse", "arotate", "afill", "acopy", "aswap", "asort", "aremove", "shrink", "serial" };
// The operation with a failing allocation or construction: what it must leave behind is checked, then the state before it is restored.
static bool with_failure(const Op& o)
{
	bool ok = false; for (auto f : FAILABLE) ok |= o.name == f; if (!ok) return false;
	failrng = mix(failrng); uint64_t r = failrng; bool ct = LIFE && CP && (r >> 8) % 3 == 0;
	static const int ks[] = { 1, 1, 1, 2, 2, 3, 4, 5, 7, 12, 30, 100, 257, 300, 600 };
	std::vector<int> pre[NV + 1]; for (int i = 1; i <= NV; ++i) pre[i] = dump(*vs[i]);
	// some elements are decompressed and modified, others are not
	fired = false; nalloc = nctor = 0; fail_in = ct ? 0 : ks[(r >> 16) % (ct ? 15 : 10)]; ctor_in = ct ? ks[(r >> 16) % 15] : 0;
	++nfails; bool thrown = false; armed = true;
	try {
		if (o.name == "serial" && TRIV) { size_t b = stenos_bound(vs[o.g[0]]->size() * sizeof(T)) + 4096 + vs[o.g[0]]->size(); std::vector<char> m(b); size_t r = vs[o.g[0]]->serialize(m.data(), b); if (!stenos_has_error(r)) r = vs[o.g[2]]->deserialize(m.data(), r); if (stenos_has_error(r) && fired) thrown = true; else need(!stenos_has_error(r), "B10", "serialization fails", (long)r); }
		else exec(o);
	}
	catch (Fail&) { armed = false; throw; } catch (std::bad_alloc&) { thrown = true; } catch (std::runtime_error&) { thrown = true; }
	armed = false; fail_in = ctor_in = 0;
	if (!fired) return true; // done, without failure
	++nfired;
	if (!thrown) return true; // the failure was absorbed: the operation must be complete
	long sum = 0; bool strong = o.gu[0] == 1; static const long INF = 1000000000;
	for (int i = 1; i <= NV; ++i) {
		std::vector<int> x = dump(*vs[i]); sum += (long)x.size(); size_t n = pre[i].size();
		need(x.size() == vs[i]->size(), "B10", "number of elements after a failure", (long)x.size(), (long)vs[i]->size());
		size_t lo = n; bool open = false; std::vector<char> touched(n, 0);
		if (!strong) for (int w = 1; w <= 4; w += 3) if (o.gu[w] == i) { if (o.gu[w + 2] == INF) open = true; for (long k = o.gu[w + 1]; k < o.gu[w + 2] && k < (long)n; ++k) touched[(size_t)k] = 1; if (open) lo = std::min(n, (size_t)o.gu[w + 1]); }
		if (open) need(x.size() >= lo, "B10", "untouched elements are lost after a failure", (long)x.size(), (long)lo);
		else need(x.size() == n, "B10", "size changed by a failed operation", (long)x.size(), (long)n);
		for (size_t k = 0; k < n && k < x.size(); ++k) if (!touched[k] && x[k] != pre[i][k]) viol("B10", "after a failure element %zu of vector %d is %d, was %d", k, i, x[k], pre[i][k]);
		for (size_t k = 0; k < x.size(); ++k) if (x[k] == -2 || x[k] == -3) viol("B10", "after a failure element %zu of vector %d is corrupted", k, i);
	}
	if (life_error) viol("B10,B09", "%s (after a failure)", life_error); if (alloc_error) viol("B10,B09", "%s (after a failure)", alloc_error);
	if (LIFE) need(live_elems == sum, "B10,B09", "elements alive after a failure", live_elems, sum);
	if (strong && (failrng >> 40) % 4) { exec(o); return true; }
	for (int i = 1; i <= NV; ++i) if (dump(*vs[i]) != pre[i]) { vs[i]->clear(); fillruns(*vs[i], pre[i]); }
	exec(o); return true;
}
int main(int argc, char** argv)
{
	cm::setup(); const char* file = argv[1]; double secs = 1e9; long from = 0, count = -1; 
	for (int i = 2; i < argc; ++i) { std::string a = argv[i]; if (a == "-t") secs = atof(argv[++i]); else if (a == "-from") from = atol(argv[++i]); else if (a == "-n") count = atol(argv[++i]); else if (a == "-fail") mode_fail = 1; else if (a == "-slack") foot_slack = atol(argv[++i]); }
	big_from = V::block_bytes + 16;
	std::ifstream in(file); std::string l; Op o; bool skip = true; double t0 = cm::now(); long h = -1, allops = 0;
	const char* ALL = mode_fail ? "B10" : "B01,B02,B03,B04,B07,B09,B11,B12";
	while (std::getline(in, l)) {
		++lineno;
		if (l.compare(0, 5, "start") == 0) {
			if (!skip) { try { curline = "end of the history"; finish_history(); } catch (Fail&) {} }
			++h; skip = h < from || (count >= 0 && h >= from + count); if (cm::now() - t0 > secs || nviol > 5) break;
			if (!skip) { nhist = h; rs = mix((uint64_t)h); failrng = mix((uint64_t)h + 77); cm::cur("%s history %ld: start", ALL, h); start_history(); ++allops; }
			continue;
		}
		if (skip) continue;
		curline = l; parse(l, o); cm::cur("%s history %ld line %ld: %.400s", ALL, h, lineno, l.c_str()); cm::watchdog(60); ++nops;
		try { if (!mode_fail || !with_failure(o)) exec(o); audit(o); }
		catch (Fail&) { skip = true; try { reset_world(); } catch (...) {} }
		catch (std::exception& e) { try { viol(ALL, "unexpected exception %s", e.what()); } catch (Fail&) {} skip = true; try { reset_world(); } catch (...) {} }
		cm::watchdog(0);
	}
	if (!skip) { try { curline = "end of the history"; finish_history(); } catch (Fail&) {} }
	printf("DONE histories=%ld ops=%ld viol=%ld fails=%ld fired=%ld\n", allops, nops, nviol, nfails, nfired);
	fflush(stdout); _exit(0);
}
