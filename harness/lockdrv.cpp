// Schedules of exclusive, shared and non-blocking users of the shared lock of cvector; events are the trace of spec/RWLock.tla.
#include "allochook.h"
#include "dsrun.h"
#include <stenos/cvector.hpp>
#include <memory>

using Lock = stenos::detail::SharedSpinner;
// the adversary: keeps a reader inside the lock as long as it can, the writer only runs meanwhile
static int wid = -1, inside = 0, waits = 0, quiet = 0, left = 0; static bool writing = false, urged = false; static uint64_t advrng;
static size_t loglen = 0;
static int rnd(int n) { advrng = advrng * 6364136223846793005ull + 1442695040888963407ull; return (int)((advrng >> 33) % (unsigned)n); }
__attribute__((noinline, no_sanitize_thread)) static int adversary(const int* en, int n, int cur, bool yielded)
{
	if (ds::log().size() != loglen) { loglen = ds::log().size(); quiet = 0; } else ++quiet;
	if (wid < 0 || !writing) return -1;
	bool w = false; for (int i = 0; i < n; ++i) w |= en[i] == wid;
	if (!w) return -1;
	bool others = false; for (int i = 0; i < n; ++i) others |= en[i] != wid && en[i] != 0;
	bool runw = !others || quiet > 40 + 30 * n || (inside > 0 && rnd(3) == 0);
	if (runw) { if (quiet > 40 + 30 * n) quiet = 20; if (++waits == 20 && !urged) { urged = true; ds::event("U%d", wid); } return wid; }
	int c[32], k = 0; for (int i = 0; i < n && k < 32; ++i) if (en[i] != wid) c[k++] = en[i];
	return c[rnd(k)];
}
__attribute__((noinline, no_sanitize_thread)) static void setw(int id, bool on) { wid = id; writing = on; waits = 0; urged = false; }
__attribute__((noinline, no_sanitize_thread)) static void entered(int d) { inside += d; }
__attribute__((noinline, no_sanitize_thread)) static int howmany() { return inside; }

// memory protected by the lock
static long guarded[2];
__attribute__((noinline)) static long look() { long x = guarded[0] + guarded[1]; __asm__ volatile("" : "+r"(x)); return x; }

static void use(Lock& l, int t, int op, int work, bool keep, bool guard)
{
	bool ok = true;
	ds::event("B%d:%d", t, op);
	switch (op) { case 1: l.lock(); break; case 2: l.lock_shared(); break; case 3: ok = l.try_lock(); break; default: ok = l.try_lock_shared(); }
	if (!ok) { ds::event("F%d", t); return; }
	bool sh = op == 2 || op == 4;
	ds::event(sh ? "S%d" : "E%d", t); if (sh) entered(1);
	if (sh) look(); else guarded[t & 1] = look() + 1;
	for (int i = 0; i < work; ++i) ds::point();
	if (keep) for (int i = 0; i < 400 && howmany() < 2; ++i) { std::this_thread::yield(); } // waits for another reader to come in
	if (sh) look(); else guarded[0] = t;
	if (sh) entered(-1);
	ds::event(sh ? "R%d" : "L%d", t);
	if (sh) l.unlock_shared(); else l.unlock();
	ds::event("X%d", t); (void)guard;
}

static void body(long run, const ds::Strategy& st)
{
	dr::Opt& o = dr::opt(); int sc = o.scen;
	dr::Rng r{ (o.dfs ? (uint64_t)sc : o.seed * 131 + (uint64_t)(run / 10)) * 2654435761u + 3 };
	std::vector<std::vector<int>> sp; bool starve = false;
	if (o.dfs) {
		static const char* S[] = { "1|1", "1|2", "1|2|2", "3|2", "3|4", "1|3|4", "4|4|2", "1|1|2", "12|2", "33|3", "1|2|4", "22|1" };
		std::vector<int> v; for (const char* c = S[sc % 12]; ; ++c) { if (*c >= '1' && *c <= '9') v.push_back(*c - '0'); else { sp.push_back(v); v.clear(); if (!*c) break; } }
	}
	else if (sc == 100) {
		starve = true; int nr = 2 + (int)r.below(2); sp.push_back({ 1 }); if (r.below(3) == 0) sp.push_back({ 1 });
		for (int i = 0; i < nr; ++i) sp.push_back(std::vector<int>(150, 2));
	}
	else {
		int n = 1 + (int)r.below(5); int mode = (int)r.below(4);
		for (int i = 0; i < n; ++i) { std::vector<int> v; int k = 1 + (int)r.below(5); for (int j = 0; j < k; ++j) v.push_back(mode == 0 ? 1 + (int)r.below(2) : mode == 1 ? 3 + (int)r.below(2) : mode == 2 ? (int[]){ 2, 2, 4, 1 }[r.below(4)] : 1 + (int)r.below(4)); sp.push_back(v); }
	}
	char d[100]; snprintf(d, sizeof d, "threads=%zu,starve=%d,seed=%llu,scen=%d,dfs=%d", sp.size(), starve, (unsigned long long)o.seed, sc, (int)o.dfs); dr::desc() = d;
	uint64_t rs = r.next(); advrng = rs ^ st.seed; inside = 0; setw(-1, false); loglen = 0; quiet = 0;
	ds::Strategy s2 = st; if (starve) s2.max_steps = 400000;
	ds::begin(s2);
	{
		Lock l;
		ds::chooser = starve ? adversary : nullptr;
		std::vector<std::thread> ts; size_t nw = 0; for (auto& v : sp) if (starve && v.size() == 1) ++nw;
		for (size_t c = 0; c < sp.size(); ++c) ts.emplace_back([&, c] {
			dr::Rng q{ rs + c }; int t = ds::self();
			bool wr = starve && c == 0; if (wr) { while (howmany() == 0) std::this_thread::yield(); setw(t, true); }
			for (int op : sp[c]) { use(l, t, op, starve ? (int)q.below(3) : (int)q.below(4), starve && op == 2, false); }
			if (wr) setw(-1, false);
		});
		for (auto& t : ts) t.join();
		ds::chooser = nullptr;
		// the lock is free again
		use(l, 0, 3, 0, false, false); use(l, 0, 4, 0, false, false); use(l, 0, 1, 0, false, false); use(l, 0, 2, 0, false, false);
		ds::event("Q");
	}
	ds::end();
}
int main(int argc, char** argv) { dr::parse(argc, argv); dr::tags() = "B06"; _exit(dr::loop(body, dr::opt().scen == 100 ? 3000 : 60)); }
