// Threads that read and visit the same compressed vector under controlled schedules; events are the trace of spec/Visits.tla.
#include "allochook.h"
#include "dsrun.h"
#include <stenos/cvector.hpp>
#include <thread>
#include <memory>

#define RAW __attribute__((noinline, no_sanitize_thread))
// ---- memory of the vector
static long live = 0, nalloc = 0, fail_at = 0, fired = 0; static bool badfree = false, armed = false;
RAW static void* aget(size_t n) { if (armed && fail_at > 0 && (++nalloc % fail_at) == 0) { ++fired; return nullptr; } live += (long)n; return malloc(n); }
RAW static void aput(void* p, size_t n) { if (!p) return; live -= (long)n; if (live < 0) badfree = true; free(p); }
template<class T> struct CA {
	using value_type = T; CA() noexcept {} template<class U> CA(const CA<U>&) noexcept {}
	T* allocate(size_t n) { void* p = aget(n * sizeof(T)); if (!p) throw std::bad_alloc(); return (T*)p; }
	void deallocate(T* p, size_t n) noexcept { aput(p, n * sizeof(T)); }
	template<class U> bool operator==(const CA<U>&) const noexcept { return true; }
	template<class U> bool operator!=(const CA<U>&) const noexcept { return false; }
};
// ---- element types
static long boxes = 0;
RAW static void count(int d) { boxes += d; }
struct Box { // owns memory, cannot be copied
	int* p; Box() : p(new int(0)) { count(1); } Box(int v) : p(new int(v)) { count(1); } ~Box() { if (p) { *p = -1; delete p; } count(-1); }
	Box(Box&& o) noexcept : p(o.p) { o.p = nullptr; count(1); } Box& operator=(Box&& o) noexcept { std::swap(p, o.p); return *this; }
};
namespace stenos { template<> struct is_relocatable<Box> : std::true_type {}; }
static int val(const int& v) { return v; }
static int val(const Box& v) { return *v.p; }
static void put(int& v, int x) { v = x; }
static void put(Box& v, int x) { *v.p = x; }
struct Wide { int v; int pad[9]; Wide(int x = 0) : v(x) { for (int i = 0; i < 9; ++i) pad[i] = x * 31 + i; } };
static int val(const Wide& v) { for (int i = 0; i < 9; ++i) if (v.pad[i] != v.v * 31 + i) return -7; return v.v; }
static void put(Wide& v, int x) { v = Wide(x); }

enum { READ = 1, CFE, FE, CBACK, BACK, HOLD, ITER, RITER };
struct Op { int kind; long a, b; int stop; int pts; bool wr; };
static int nextval; // every written value is new
RAW static int fresh() { return ++nextval; }

template<class V> static void exec(V& v, const V& cv, const Op& o, int t)
{
	int n = 0; long i = 0;
	auto rd = [&](const typename V::value_type& x) -> bool { ds::event("b%d:%ld:%d", t, i, val(x)); for (int k = 0; k < o.pts; ++k) ds::point(); bool go = ++n != o.stop; ds::event("e%d:%ld:%d:%d", t, i, val(x), (int)go); o.kind == CBACK ? --i : ++i; return go; };
	auto wr = [&](typename V::value_type& x) -> bool { ds::event("b%d:%ld:%d", t, i, val(x)); for (int k = 0; k < o.pts; ++k) ds::point(); bool go = ++n != o.stop; int old = val(x), w = o.wr ? fresh() : old; put(x, w); ds::event("w%d:%ld:%d:%d:%d", t, i, old, val(x), (int)go); o.kind == BACK ? --i : ++i; return go; };
	size_t r = 0;
	if (o.kind == READ && o.stop == 3) ds::event("B%d:%d:%ld:%ld", t, o.kind, o.a < 256 ? 0l : (long)cv.size() - 1, o.b);
	else ds::event("B%d:%d:%ld:%ld", t, o.kind, o.a, o.b);
	try {
		switch (o.kind) {
			case READ: {
				if (o.stop == 1) {
					bool far = o.a >= 256; auto u = cv.at(far ? (size_t)0 : (size_t)o.a); // chunks in ascending order
					if (far) { auto x = cv[(size_t)o.a]; auto z = x; for (int k = 0; k < o.pts; ++k) ds::point(); u = z; }
					ds::event("R%d:%ld:%d", t, o.a, val(u.get()));
				}
				else if (o.stop == 2) { auto x = v[(size_t)o.a]; typename V::const_ref_type z(x); ds::event("R%d:%ld:%d", t, o.a, val(z.get())); }
				else if (o.stop == 3) { const typename V::const_ref_type x = o.a < 256 ? cv.front() : cv.back(); for (int k = 0; k < o.pts; ++k) ds::point(); ds::event("R%d:%ld:%d", t, o.a < 256 ? 0l : (long)cv.size() - 1, val(x.get())); }
				else { auto x = cv[(size_t)o.a]; ds::event("R%d:%ld:%d", t, o.a, val(x.get())); }
				break; }
			case HOLD: { auto x = cv[(size_t)o.a]; ds::event("H%d:%ld:%d", t, o.a, val(x.get())); auto y = cv.at((size_t)o.b); ds::event("R%d:%ld:%d", t, o.b, val(y.get())); for (int k = 0; k < o.pts; ++k) ds::point(); ds::event("U%d:%ld:%d", t, o.a, val(x.get())); break; }
			case ITER: { auto it = cv.cbegin() + o.a, en = cv.cbegin() + o.b; for (long k = o.a; it != en; ++it, ++k) { int y = val((*it).get()); ds::event("R%d:%ld:%d", t, k, y); } break; }
			case RITER: { auto it = cv.crend() - o.b, en = cv.crend() - o.a; for (long k = o.b - 1; it != en; ++it, --k) { auto x = *it; ds::event("R%d:%ld:%d", t, k, val(x.get())); } break; }
			case CFE: i = o.a; r = o.a & 1 ? cv.const_for_each((size_t)o.a, (size_t)o.b, rd) : cv.for_each((size_t)o.a, (size_t)o.b, rd); break;
			case FE: i = o.a; r = v.for_each((size_t)o.a, (size_t)o.b, wr); break;
			case CBACK: i = o.b - 1; r = o.a & 1 ? cv.const_for_each_backward((size_t)o.a, (size_t)o.b, rd) : cv.for_each_backward((size_t)o.a, (size_t)o.b, rd); break;
			case BACK: i = o.b - 1; r = v.for_each_backward((size_t)o.a, (size_t)o.b, wr); break;
		}
	}
	catch (std::bad_alloc&) { ds::event("X%d", t); return; }
	ds::event("E%d:%zu", t, r);
}

static void oplist(dr::Rng& r, std::vector<std::vector<Op>>& ths, size_t& chunks, bool dfs, int scen)
{
	static const int NC[] = { 3, 3, 4, 5, 8, 20, 40 };
	chunks = dfs ? 4 : (size_t)NC[r.below(7)]; int nt = dfs ? 2 + scen / 12 : 2 + (int)r.below(4); ths.resize((size_t)nt);
	std::vector<long> hot; int nh = 1 + (int)r.below(dfs ? 3 : 6); for (int i = 0; i < nh; ++i) hot.push_back((long)r.below((unsigned)chunks));
	int mode = (int)r.below(4); long n = (long)chunks * 256 - 100;
	for (auto& v : ths) {
		int k = dfs ? 1 + (scen & 1) : 1 + (int)r.below(5);
		for (int i = 0; i < k; ++i) {
			static const int ks[4][8] = { { READ, CFE, FE, CBACK, BACK, HOLD, ITER, RITER }, { FE, FE, BACK, READ, READ, FE, BACK, CFE }, { READ, READ, ITER, CFE, RITER, FE, CBACK, FE }, { FE, READ, FE, READ, HOLD, BACK, FE, READ } };
			Op o; o.kind = ks[mode][r.below(8)]; long c = hot[r.below((unsigned)hot.size())], d = hot[r.below((unsigned)hot.size())];
			static const long offs[] = { 0, 1, 254, 255, 100, -1, -2 };
			o.a = c * 256 + offs[r.below(7)]; o.b = o.a + 1 + (long)r.below(4); if (r.below(60) == 0 && !dfs) o.b = o.a + 250 + (long)r.below(300);
			o.a = std::max(0l, std::min(o.a, n - 1)); o.b = std::max(o.a + 1, std::min(o.b, n));
			if (o.kind == HOLD) { if (c == d) o.kind = READ; else { o.a = std::min(c, d) * 256 + (long)r.below(2); o.b = std::max(c, d) * 256 + (long)r.below(2); if (r.below(2)) { long nh2 = o.b; (void)nh2; } } }
			o.stop = r.below(5) == 0 ? 1 + (int)r.below(4) : 0; o.pts = (int)r.below(3); o.wr = r.below(6) != 0; v.push_back(o);
		}
	}
}

template<class T> static void body_of(long run, const ds::Strategy& st, const char* ty)
{
	using V = stenos::cvector<T, 0, 1, CA<T>>;
	dr::Opt& o = dr::opt(); dr::Rng r{ (o.dfs ? (uint64_t)o.scen * 7 + 1 : o.seed * 131 + (uint64_t)(run / 10)) * 2654435761u + 17 };
	std::vector<std::vector<Op>> ths; size_t chunks; oplist(r, ths, chunks, o.dfs, o.scen);
	bool faults = !o.dfs && r.below(6) == 0; long k = 2 + (long)r.below(5);
	std::string desc = std::string(ty) + " chunks=" + std::to_string(chunks) + (faults ? ",faults" + std::to_string(k) : "");
	for (auto& v : ths) { desc += ",T"; for (auto& c : v) { char b[60]; snprintf(b, sizeof b, ":%d/%ld-%ld%s", c.kind, c.a, c.b, c.stop ? "!" : ""); desc += b; } }
	dr::desc() = desc;
	long n = (long)chunks * 256 - 100; live = 0; boxes = 0; badfree = false; fired = 0; armed = false; nextval = 100000;
	std::unique_ptr<V> v(new V()); for (long i = 0; i < n; ++i) v->emplace_back((int)i);
	const V& cv = *v;
	ds::begin(st);
	if (faults) ds::event("Z");
	fail_at = faults ? k : 0; nalloc = (long)r.below(3); armed = true;
	{
		std::vector<std::thread> ts;
		for (size_t t = 1; t < ths.size(); ++t) ts.emplace_back([&, t] { for (auto& c : ths[t]) exec(*v, cv, c, (int)t); });
		for (auto& c : ths[0]) exec(*v, cv, c, 0);
		for (auto& t : ts) t.join();
	}
	armed = false;
	ds::event("Q");
	ds::end();
	// final contents: the elements of the calls one by one, the others compared here
	std::vector<char> seen((size_t)n, 0); for (auto& t : ths) for (auto& c : t) { seen[(size_t)c.a] = 1; if (c.kind == READ && c.stop == 3) seen[c.a < 256 ? 0 : (size_t)n - 1] = 1; for (long i = c.a; i < c.b && (c.kind == FE || c.kind == BACK); ++i) seen[(size_t)i] = 1; }
	bool ok = (long)v->size() == n; long bad = -1;
	for (long i = 0; i < n && ok; ++i) { auto x = cv[(size_t)i]; int y = val(x.get()); if (seen[(size_t)i]) ds::event("r%ld:%d", i, y); else if (y != (int)i) { ok = false; bad = i; } }
	if (!ok) { dr::desc() += " element " + std::to_string(bad); dr::fail("an element that no call modified has changed"); }
	if (std::is_same<T, Box>::value && boxes != n) dr::fail("elements were lost or duplicated");
	v.reset();
	if (live != 0 || badfree) dr::fail("memory of the vector leaked, or was released twice");
	if (boxes != 0) dr::fail("elements remain after the destruction of the vector");
}
static void body(long run, const ds::Strategy& st)
{
	long g = dr::opt().dfs ? dr::opt().scen / 2 : run / 10;
	switch (g % 3) { case 0: body_of<int>(run, st, "int"); break; case 1: body_of<Box>(run, st, "box"); break; default: body_of<Wide>(run, st, "wide"); }
}
int main(int argc, char** argv) { dr::parse(argc, argv); dr::tags() = "B05"; dr::gapmul() = 5; int rc = dr::loop(body, 400); _exit(rc); }
