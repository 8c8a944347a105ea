#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "dsched.h"
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sched.h>
#include <errno.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <atomic>
#include <map>
#include <array>
#include <string>
#include <algorithm>
#include <unordered_map>
#include <vector>
#include <thread>
#include <cxxabi.h>

// This file is compiled without instrumentation.
namespace ds {
void enter();
unsigned hw_concurrency = 1;
void (*on_stuck)(const char*) = nullptr;
int (*chooser)(const int*, int, int, bool) = nullptr;

enum St { RUN, B_MUTEX, B_COND, B_JOIN, B_GUARD, DONE };
struct Th {
	int id; std::atomic<int> go{ 0 }; St st = RUN; void* obj = nullptr; bool timed = false, timedout = false, signaled = false;
	pthread_t real; void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool joined = false; double prio = 0;
};
// These containers are created on first use: threads may start during static initialisation.
struct G {
	std::vector<Th*> th; std::map<void*, std::pair<Th*, int>> mtx; Th* cur = nullptr;
	Strategy s; bool active = false; uint64_t rng = 1; long nsteps = 0, nsw = 0, consec = 0; long plain_left = -1; std::string log;
	std::vector<long> pct_points; double lowprio = 0; bool fair = false; long fair_from = 0;
	// DFS
	struct Choice { std::vector<int> order; size_t idx; int preempts; bool cur_enabled; };
	std::vector<Choice> dfs; size_t dfs_pos = 0; int dfs_preempts = 0; long dfs_runs = 0, dfs_div = 0;
};
static G& g() { static G* x = new G; return *x; }
static thread_local Th* me = nullptr;
static thread_local int inside = 0;
struct In { In() { ++inside; } ~In() { --inside; } };

static uint64_t rnd() { uint64_t z = (g().rng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint32_t below(uint32_t n) { return (uint32_t)((rnd() >> 32) * (uint64_t)n >> 32); }
static double unif() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

static void fwait(std::atomic<int>& w) { while (!w.load()) syscall(SYS_futex, (int*)&w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); w.store(0); }
static void fwake(std::atomic<int>& w) { w.store(1); syscall(SYS_futex, (int*)&w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

template<class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

static Th* self_th()
{
	if (!me) {
		// the main thread
		Th* t = new Th; t->id = (int)g().th.size(); g().th.push_back(t); t->real = pthread_self(); me = t; g().cur = t;
	}
	return me;
}

static void stuck(const char* why) { if (on_stuck) on_stuck(why); fprintf(stderr, "%s\n", why); _exit(96); }

static void run_next(Th* n)
{
	Th* m = me; if (n == m) return;
	if (g().cur != m || n->go.load()) { fprintf(stderr, "scheduler error: thread %d runs with %d\n", m->id, g().cur->id); abort(); }
	g().nsw++; g().consec = 0; g().cur = n;
	fwake(n->go);
	if (m->st != DONE) fwait(m->go);
}

static void draw_plain() { G& x = g(); if (x.s.plain_gap <= 0) { x.plain_left = -1; return; } double u = unif(); x.plain_left = 1 + (long)(u * u * 2.5 * x.s.plain_gap); }

static const char* stname(St s) { static const char* n[] = { "runnable", "blocked on a mutex", "waiting on a condition", "joining", "waiting for a static initialisation", "ended" }; return n[s]; }

// Chooses the next thread.  yielded: the current one asks for others to run.  The current thread may be blocked.
static void schedule(bool yielded, bool sync)
{
	In in;
	G& x = g(); Th* m = me;
	std::vector<int> en; for (Th* t : x.th) if (t->st == RUN) en.push_back(t->id);
	bool cur_ok = m->st == RUN;
	if (x.active && sync) {
		++x.nsteps; ++x.consec;
		if (x.s.p_spurious > 0 && unif() < x.s.p_spurious * 0.2) {
			for (Th* t : x.th) if (t->st == B_COND && below(2)) { t->st = RUN; en.push_back(t->id); break; }
		}
		if (x.nsteps > x.s.max_steps && !x.fair) { x.fair = true; x.fair_from = x.nsteps; }
		if (x.fair && x.nsteps - x.fair_from > x.s.max_steps) stuck("ENDLESS: the run does not end under a fair schedule");
	}
	if (en.empty()) {
		// time passes: a timed wait ends
		for (Th* t : x.th) if (t->st == B_COND && t->timed) { t->timedout = true; t->st = RUN; en.push_back(t->id); break; }
		if (en.empty()) {
			std::string w = "DEADLOCK:"; bool live = false;
			for (Th* t : x.th) if (t->st != DONE) { w += " thread " + std::to_string(t->id) + " " + stname(t->st); if (t->st == B_MUTEX) { auto it = x.mtx.find(t->obj); w += it == x.mtx.end() ? " (free)" : " held by " + std::to_string(it->second.first->id); } w += ";"; live = true; }
			if (!live) return;
			stuck(w.c_str());
		}
	}
	int next = -1;
	if (en.size() == 1 && cur_ok) next = m->id;
	else if (!x.active) {
		if (cur_ok && !yielded) next = m->id;
		else { size_t k = 0; while (k < en.size() && en[k] <= m->id) ++k; next = en[k < en.size() ? k : 0]; }
	}
	else if (chooser && (next = chooser(en.data(), (int)en.size(), cur_ok ? m->id : -1, yielded)) >= 0) {}
	else if (x.fair) {
		if (cur_ok && !yielded && x.consec < 40) next = m->id;
		else { size_t k = 0; while (k < en.size() && en[k] <= m->id) ++k; next = en[k < en.size() ? k : 0]; }
	}
	else switch (x.s.kind) {
		case Strategy::RANDOM:
			if (cur_ok && !yielded && x.consec < 400 && (sync ? unif() >= x.s.p_sync : false)) next = m->id;
			else if (yielded && en.size() > 1) { do next = en[below((uint32_t)en.size())]; while (next == m->id && below(4)); }
			else next = en[below((uint32_t)en.size())];
			break;
		case Strategy::PCT: {
			for (long p : x.pct_points) if (p == x.nsteps && sync) m->prio = x.lowprio -= 1;
			if (!sync || yielded || x.consec > 300) { m->prio = x.lowprio -= 1; x.consec = 0; }
			double best = -1e300; for (int t : en) if (x.th[t]->prio > best) { best = x.th[t]->prio; next = t; }
			break; }
		default: { // DFS
			if (yielded || !cur_ok) {
				// forced switches are explored in every order (yields: the others first, round robin)
				std::vector<int> order; size_t k = 0; while (k < en.size() && en[k] <= m->id) ++k;
				for (size_t i = 0; i < en.size(); ++i) order.push_back(en[(k + i) % en.size()]);
				if (yielded) { next = order[0]; break; }
				if (x.dfs_pos < x.dfs.size() && x.dfs[x.dfs_pos].order != order) { x.dfs.resize(x.dfs_pos); ++x.dfs_div; } // the run differs from the previous one
				if (x.dfs_pos < x.dfs.size()) { next = x.dfs[x.dfs_pos].order[x.dfs[x.dfs_pos].idx]; ++x.dfs_pos; }
				else { G::Choice c; c.order = order; c.idx = 0; c.preempts = x.dfs_preempts; c.cur_enabled = false; x.dfs.push_back(c); ++x.dfs_pos; next = order[0]; }
			}
			else {
				std::vector<int> order; order.push_back(m->id); for (int t : en) if (t != m->id) order.push_back(t);
				if (x.dfs_pos < x.dfs.size() && x.dfs[x.dfs_pos].order != order) { x.dfs.resize(x.dfs_pos); ++x.dfs_div; } // the run differs from the previous one
				if (x.dfs_pos < x.dfs.size()) { next = x.dfs[x.dfs_pos].order[x.dfs[x.dfs_pos].idx]; ++x.dfs_pos; }
				else { G::Choice c; c.order = order; c.idx = 0; c.preempts = x.dfs_preempts; c.cur_enabled = true; x.dfs.push_back(c); ++x.dfs_pos; next = order[0]; }
				if (next != m->id) ++x.dfs_preempts;
			}
		}
	}
	if (next != m->id) run_next(x.th[next]);
	if (m->st != DONE && (m->st != RUN || x.cur != m)) { fprintf(stderr, "scheduler error: thread %d resumed, state %d, with %d\n", m->id, (int)m->st, x.cur->id); abort(); }
}

bool dfs_next()
{
	In in;
	G& x = g(); ++x.dfs_runs;
	while (!x.dfs.empty()) {
		auto& c = x.dfs.back();
		if (c.idx + 1 < c.order.size() && (!c.cur_enabled || c.preempts < x.s.preempt_bound)) { ++c.idx; x.dfs_pos = 0; return true; }
		x.dfs.pop_back();
	}
	return false;
}
long dfs_count() { return g().dfs_runs; }
long dfs_divergences() { return g().dfs_div; }


// ------------------------------------------------------------------ record of the accesses (A12)
// The synchronisations of the run in order, and for each 8 bytes of memory the accesses of each thread with the last
// synchronisation of the thread before them.  Kinds: 0 read, 1 write, 2 atomic (or volatile) read, 3 atomic write.
bool record = false;
struct Rec { uint32_t first, last; uint8_t t, kind, mask; uint32_t pc, pc2; };
struct Page { std::vector<Rec> g[512]; };
struct SyncObj { uint32_t id; uint32_t version = 1; std::map<int, uint32_t> seen; };
struct Pair { uint32_t pa, pb; uint8_t ta, ka, tb, kb; bool operator<(const Pair& o) const { return memcmp(this, &o, sizeof o) < 0; } };
struct R {
	std::unordered_map<uintptr_t, Page*> pages; uintptr_t lastp = 0; Page* lastpage = nullptr;
	std::unordered_map<uintptr_t, SyncObj> objs; uint32_t nobj = 0; std::string log; std::vector<std::string> ev; std::map<Pair, std::pair<uint32_t, uint32_t>> pairs; std::string info;
};
static R& r() { static R* x = new R; return *x; }
static uint32_t epoch[256]; // per thread: number of events up to its last synchronisation
static inline bool conflict(int a, int b) { return ((a | b) & 1) && !((a & b) & 2); }
static inline bool recording() { return record && me && g().active; }
static void emit(int t, const char* fmt, ...) { char b[96]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); r().ev.emplace_back(b, (size_t)n); epoch[t & 255] = (uint32_t)r().ev.size(); }
static SyncObj& sobj(const volatile void* a) { auto& o = r().objs[(uintptr_t)a]; if (!o.id) o.id = ++r().nobj; return o; }
static Page* page(uintptr_t p, bool make) { R& x = r(); if (x.lastpage && x.lastp == p) return x.lastpage; auto it = x.pages.find(p); if (it == x.pages.end()) { if (!make) return nullptr; it = x.pages.emplace(p, new Page).first; } x.lastp = p; return x.lastpage = it->second; }
static inline uintptr_t base() { static uintptr_t b = 0; if (!b) { Dl_info i; if (dladdr((void*)&ds::begin, &i)) b = (uintptr_t)i.dli_fbase; } return b; }
static void note(std::vector<Rec>& v, uint8_t mask, int kind, uint32_t pc)
{
	int t = me->id; uint32_t e = epoch[t & 255];
	for (size_t i = v.size(), k = 0; i-- > 0 && k < 12; ++k) {
		Rec& q = v[i];
		if (q.t == t && q.kind == kind && q.mask == mask) { q.last = e; q.pc2 = pc; return; }
		if (q.t == t && q.kind <= 1 && kind <= 1 && q.kind >= kind && (q.mask & mask) == mask && q.last == e) return;
		if (q.t != t && (q.mask & mask) && conflict(q.kind, kind)) break;
	}
	v.push_back({ e, e, (uint8_t)t, (uint8_t)kind, mask, pc, pc });
}
static void access(const volatile void* a, size_t n, int kind, void* pc)
{
	if (inside || !recording() || !n) return;
	In in; uintptr_t p = (uintptr_t)a, end = p + n; uint32_t c = (uint32_t)((uintptr_t)pc - base());
	while (p < end) {
		uintptr_t gr = p >> 3, e = (gr + 1) << 3; if (e > end) e = end;
		uint8_t m = (uint8_t)(((1u << (e - p)) - 1) << (p & 7));
		note(page(gr >> 9, true)->g[gr & 511], m, kind, c); p = e;
	}
}
// the conflicting accesses of different threads to a granule
static void collect(const std::vector<Rec>& v)
{
	if (v.size() < 2) return;
	bool several = false; for (auto& q : v) if (q.t != v[0].t) several = true; if (!several) return;
	for (size_t j = 1; j < v.size(); ++j) for (size_t i = 0; i < j; ++i) {
		const Rec &a = v[i], &b = v[j]; if (a.t == b.t || !(a.mask & b.mask) || !conflict(a.kind, b.kind)) continue;
		Pair p; memset(&p, 0, sizeof p); p.pa = a.last; p.pb = b.first; p.ta = a.t; p.tb = b.t; p.ka = a.kind; p.kb = b.kind;
		if (r().pairs.size() < 20000) r().pairs.emplace(p, std::make_pair(a.pc2, b.pc));
	}
}
// memory that is used for something else from now on
static void forget(const void* a, size_t n)
{
	R& x = r(); uintptr_t lo = (uintptr_t)a >> 3, hi = ((uintptr_t)a + n + 7) >> 3;
	for (uintptr_t pg = lo >> 9; pg <= hi >> 9; ++pg) {
		Page* p = page(pg, false); if (!p) continue;
		for (int i = 0; i < 512; ++i) { uintptr_t gr = pg << 9 | (uintptr_t)i; if (gr >= lo && gr < hi && !p->g[i].empty()) { collect(p->g[i]); p->g[i].clear(); } }
	}
	if (n <= 1 << 16) { if (x.objs.size() * 8 > n) { for (uintptr_t q = (uintptr_t)a & ~(uintptr_t)7; q < (uintptr_t)a + n; q += 8) x.objs.erase(q); } else for (auto it = x.objs.begin(); it != x.objs.end();) if (it->first >= (uintptr_t)a && it->first < (uintptr_t)a + n) it = x.objs.erase(it); else ++it; }
}
static void rec_reset()
{
	R& x = r(); for (auto& p : x.pages) delete p.second; x.pages.clear(); x.lastpage = nullptr; x.objs.clear(); x.nobj = 0; x.ev.clear(); x.pairs.clear(); x.info.clear(); memset(epoch, 0, sizeof epoch);
}
static bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static bool rel(int o) { return o == 3 || o == 4 || o == 5; }
static void on_load(const volatile void* a, size_t n, int o, void* pc)
{
	if (inside || !recording()) return; access(a, n, 2, pc); In in;
	SyncObj& s = sobj(a); uint32_t& v = s.seen[me->id * 2 + acq(o)]; if (v == s.version) return; v = s.version; emit(me->id, "L%d:%u:%d", me->id, s.id, (int)acq(o));
}
static void on_store(const volatile void* a, size_t n, int o, void* pc) { if (inside || !recording()) return; access(a, n, 3, pc); In in; SyncObj& s = sobj(a); ++s.version; emit(me->id, "S%d:%u:%d", me->id, s.id, (int)rel(o)); }
static void on_rmw(const volatile void* a, size_t n, int o, void* pc) { if (inside || !recording()) return; access(a, n, 3, pc); In in; SyncObj& s = sobj(a); ++s.version; emit(me->id, "U%d:%u:%d:%d", me->id, s.id, (int)acq(o), (int)rel(o)); }
static void on_lock(const void* m) { if (recording()) { In in; emit(me->id, "M%d:%u", me->id, sobj(m).id); } }
static void on_unlock(const void* m) { if (recording()) { In in; emit(me->id, "N%d:%u", me->id, sobj(m).id); } }
static void on_create(int c) { if (recording()) emit(me->id, "C%d:%d", me->id, c); }
static void on_join(int c) { if (recording()) emit(me->id, "J%d:%d", me->id, c); }
static void on_start()
{
	if (!record) return;
	In in; pthread_attr_t at; void* lo; size_t n; epoch[me->id & 255] = (uint32_t)r().ev.size();
	if (pthread_getattr_np(pthread_self(), &at) == 0) { if (pthread_attr_getstack(&at, &lo, &n) == 0) forget(lo, n); pthread_attr_destroy(&at); }
}
static int nthreads = 0;
const std::string& races_info() { return r().info; }
// Events of TraceRaces.tla: T threads; synchronisations; A thread:pair:kind - an access, placed after the synchronisation it follows
std::string races()
{
	In in; R& x = r(); for (auto& p : x.pages) for (auto& v : p.second->g) collect(v);
	std::vector<std::pair<uint32_t, std::string>> acc; int id = 0; std::string out = "T" + std::to_string(nthreads ? nthreads : (int)g().th.size()); x.info.clear();
	// the latest access of a thread before a given one of another thread decides: the earlier ones of the same kinds add nothing
	std::map<std::array<uint32_t, 5>, std::pair<Pair, std::pair<uint32_t, uint32_t>>> best;
	for (auto& p : x.pairs) { const Pair& q = p.first; auto& b = best[{ q.ta, q.tb, q.pb, q.ka, q.kb }]; if (!b.first.tb && !b.first.ta && !b.first.pb && !b.first.pa) b = p; else if (q.pa > b.first.pa) b = p; }
	for (auto& e : best) {
		const Pair& q = e.second.first; char b[120]; ++id;
		snprintf(b, sizeof b, "A%d:%d:%d", q.ta, id, q.ka); acc.emplace_back(q.pa, b); snprintf(b, sizeof b, "A%d:%d:%d", q.tb, id, q.kb); acc.emplace_back(q.pb, b);
		snprintf(b, sizeof b, "%x/%x ", e.second.second.first, e.second.second.second); x.info += b;
	}
	std::stable_sort(acc.begin(), acc.end(), [](auto& a, auto& b) { return a.first < b.first; });
	size_t k = 0; for (uint32_t i = 0; i <= x.ev.size(); ++i) { for (; k < acc.size() && acc[k].first == i; ++k) { out += ' '; out += acc[k].second; } if (i < x.ev.size()) { out += ' '; out += x.ev[i]; } }
	std::string info; info.swap(x.info); rec_reset(); x.info.swap(info);
	return out;
}

static inline void sync_point() { if (!me && g().th.empty()) self_th(); if (!me) return; if (g().active) schedule(false, true); }

static void quiesce() { G& x = g(); for (;;) { bool other = false; for (Th* t : x.th) if (t != me && t->st == RUN) other = true; if (!other) break; schedule(true, false); } }

void begin(const Strategy& s)
{
	In in;
	self_th(); quiesce();
	G& x = g(); bool dfs = s.kind == Strategy::DFS;
	x.s = s; x.rng = s.seed * 0x2545F4914F6CDD1Dull + 99; x.nsteps = x.nsw = x.consec = 0; x.fair = false; x.log.clear(); x.dfs_pos = 0; x.dfs_preempts = 0; if (!dfs) x.dfs.clear();
	// forget the ended threads
	size_t k = 0; for (Th* t : x.th) if (t->st != DONE || !t->joined) { t->id = (int)k; x.th[k++] = t; } else delete t; x.th.resize(k);
	x.pct_points.clear(); for (int i = 0; i < s.depth; ++i) x.pct_points.push_back(1 + below((uint32_t)s.est_steps));
	x.lowprio = 0; for (Th* t : x.th) t->prio = 1 + unif();
	if (record) { rec_reset(); nthreads = 0; }
	x.active = true; draw_plain();
}
static volatile int ndead = 0; // stacks not to be touched (one thread runs at a time)
void end() { In in; G& x = g(); x.active = false; nthreads = (int)x.th.size(); x.plain_left = -1; quiesce(); ndead = 0; }
void point() { sync_point(); }
void event(const char* fmt, ...) { char b[256]; In in; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); g().log.append(b, n); g().log += ' '; }
const std::string& log() { return g().log; }
long steps() { return g().nsteps; }
long switches() { return g().nsw; }
void enter() { ++inside; }
int self() { return self_th()->id; }

struct Dead { Th* owner; uintptr_t lo, hi; };
static Dead dead[64]; void (*on_dead)() = nullptr;
__attribute__((noinline)) void dead_stack() { In in; alive_stack(); if (ndead == 64) return; uintptr_t f = (uintptr_t)__builtin_frame_address(0); dead[ndead] = { self_th(), f - 65536, f }; ndead = ndead + 1; }
void alive_stack() { In in; Th* t = self_th(); for (int i = 0; i < ndead; ++i) if (dead[i].owner == t) { ndead = ndead - 1; dead[i] = dead[ndead]; return; } }
static inline void touch(const volatile void* a) { if (!ndead || inside || !me) return; for (int i = 0; i < ndead; ++i) if ((uintptr_t)a - dead[i].lo < 65536 && dead[i].owner != me) { ndead = 0; if (on_dead) on_dead(); return; } }
static inline void plain(const void* a) { touch(a); if (inside) return; G& x = g(); if (x.plain_left > 0 && me && x.active && --x.plain_left == 0) { draw_plain(); schedule(false, false); } }

struct MutexOps {
	static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
	static void lock(pthread_mutex_t* m, bool pt)
	{
		In in;
		Th* t = self_th(); if (pt) sync_point(); G& x = g();
		for (;;) {
			auto it = x.mtx.find(m);
			if (it == x.mtx.end()) { x.mtx[m] = { t, 1 }; on_lock(m); return; }
			if (it->second.first == t && recursive(m)) { it->second.second++; return; }
			t->st = B_MUTEX; t->obj = m; schedule(false, true);
		}
	}
	static int trylock(pthread_mutex_t* m)
	{
		In in;
		Th* t = self_th(); sync_point(); G& x = g(); auto it = x.mtx.find(m);
		if (it == x.mtx.end()) { x.mtx[m] = { t, 1 }; on_lock(m); return 0; }
		if (it->second.first == t && recursive(m)) { it->second.second++; return 0; }
		return EBUSY;
	}
	static void unlock(pthread_mutex_t* m, bool pt)
	{
		In in;
		self_th(); G& x = g(); auto it = x.mtx.find(m);
		if (it != x.mtx.end()) { if (--it->second.second > 0) return; x.mtx.erase(it); on_unlock(m); }
		for (Th* t : x.th) if (t->st == B_MUTEX && t->obj == m) t->st = RUN;
		if (pt) sync_point();
	}
};
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
	In in;
	Th* t = self_th(); sync_point();
	MutexOps::unlock(m, false);
	t->st = B_COND; t->obj = c; t->timed = timed; t->timedout = false;
	schedule(false, true);
	t->timed = false;
	bool to = t->timedout;
	MutexOps::lock(m, false);
	return to ? ETIMEDOUT : 0;
}
static void cond_wake(pthread_cond_t* c, bool all)
{
	In in; self_th(); sync_point(); G& x = g(); std::vector<Th*> w; for (Th* t : x.th) if (t->st == B_COND && t->obj == c) w.push_back(t);
	if (w.empty()) return;
	if (all) for (Th* t : w) t->st = RUN;
	else w[x.active && x.s.kind != Strategy::DFS ? below((uint32_t)w.size()) : 0]->st = RUN;
	sync_point();
}
static void* trampoline(void* p)
{
	Th* t = (Th*)p; me = t; fwait(t->go); on_start();
	t->ret = t->fn(t->arg);
	// destructors of the thread-local objects, still under control
	typedef void (*F)(); static F dt = (F)dlvsym(RTLD_DEFAULT, "__call_tls_dtors", "GLIBC_PRIVATE"); if (dt) dt();
	enter();
	In in; t->st = DONE;
	for (Th* o : g().th) if (o->st == B_JOIN && o->obj == t) o->st = RUN;
	schedule(false, true);
	return t->ret;
}
} // namespace ds

using namespace ds;
extern "C" {
int ds_inside() { return inside; }
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
	typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static F rc = ds::real<F>("pthread_create");
	self_th(); In in; G& x = g(); Th* t = new Th; t->id = (int)x.th.size(); t->fn = fn; t->arg = arg; if (x.active) t->prio = 1 + unif();
	int r = rc(&t->real, at, trampoline, t); if (r) { delete t; return r; }
	x.th.push_back(t); *out = t->real; on_create(t->id); sync_point(); return 0;
}
int pthread_join(pthread_t p, void** ret)
{
	typedef int (*F)(pthread_t, void**); static F rj = ds::real<F>("pthread_join");
	In in; Th* m = self_th(); sync_point(); Th* t = nullptr; for (Th* o : g().th) if (o->real == p && !o->joined) t = o;
	if (!t) return rj(p, ret);
	while (t->st != DONE) { m->st = B_JOIN; m->obj = t; schedule(false, true); }
	on_join(t->id); t->joined = true; if (ret) *ret = t->ret; return rj(p, nullptr);
}
int pthread_detach(pthread_t p) { typedef int (*F)(pthread_t); static F rd = ds::real<F>("pthread_detach"); for (Th* o : g().th) if (o->real == p) o->joined = true; return rd(p); }
int pthread_mutex_lock(pthread_mutex_t* m) { MutexOps::lock(m, true); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { return MutexOps::trylock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { MutexOps::unlock(m, true); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { In in; g().mtx.erase(m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { cond_wake(c, true); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int sched_yield(void) { self_th(); schedule(true, true); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { self_th(); schedule(true, true); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { self_th(); schedule(true, true); return 0; }
int usleep(useconds_t) { self_th(); schedule(true, true); return 0; }

// function-local statics
int __cxa_guard_acquire(long long* gd)
{
	unsigned char* b = (unsigned char*)gd; if (b[0]) { on_load(gd, 0, 2, nullptr); return 0; }
	Th* t = self_th(); while (b[1]) { t->st = B_GUARD; t->obj = (void*)gd; schedule(false, true); if (b[0]) { on_load(gd, 0, 2, nullptr); return 0; } }
	if (b[0]) return 0; b[1] = 1; return 1;
}
static void guard_done(void* gd) { for (Th* t : g().th) if (t->st == B_GUARD && t->obj == gd) t->st = RUN; }
void __cxa_guard_release(long long* gd) { unsigned char* b = (unsigned char*)gd; b[1] = 0; b[0] = 1; on_store(gd, 0, 3, nullptr); guard_done(gd); }
void __cxa_guard_abort(long long* gd) { unsigned char* b = (unsigned char*)gd; b[1] = 0; guard_done(gd); }

static inline void tsan_point() { if (!inside) sync_point(); }
// ---- compiler instrumentation (-fsanitize=thread)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
void __tsan_vptr_update(void** a, void*) { access(a, 8, 1, PC); plain(a); }
void __tsan_vptr_read(void** a) { access(a, 8, 0, PC); plain(a); }
void __tsan_read_range(void* a, unsigned long n) { access(a, n, 0, PC); plain(a); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, 1, PC); plain(a); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define PL(n) void __tsan_read##n(void* a) { access(a, n, 0, PC); plain(a); } void __tsan_write##n(void* a) { access(a, n, 1, PC); plain(a); } void __tsan_unaligned_read##n(void* a) { access(a, n, 0, PC); plain(a); } void __tsan_unaligned_write##n(void* a) { access(a, n, 1, PC); plain(a); } \
	void __tsan_volatile_read##n(void* a) { touch(a); tsan_point(); on_load(a, n, 0, PC); } void __tsan_volatile_write##n(void* a) { touch(a); tsan_point(); on_store(a, n, 0, PC); } void __tsan_unaligned_volatile_read##n(void* a) { touch(a); tsan_point(); on_load(a, n, 0, PC); } void __tsan_unaligned_volatile_write##n(void* a) { touch(a); tsan_point(); on_store(a, n, 0, PC); } \
	void __tsan_read##n##_pc(void* a, void*) { access(a, n, 0, PC); plain(a); } void __tsan_write##n##_pc(void* a, void*) { access(a, n, 1, PC); plain(a); }
PL(1) PL(2) PL(4) PL(8) PL(16)
typedef __int128 i128;
static bool weak_fail() { G& x = g(); return x.active && x.s.p_spurious > 0 && unif() < x.s.p_spurious; }
#define AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T* a, int o) { touch(a); tsan_point(); on_load(a, sizeof(T), o, PC); return *a; } \
	void __tsan_atomic##b##_store(volatile T* a, T v, int o) { touch(a); tsan_point(); on_store(a, sizeof(T), o, PC); *a = v; } \
	T __tsan_atomic##b##_exchange(volatile T* a, T v, int o) { touch(a); tsan_point(); on_rmw(a, sizeof(T), o, PC); T x = *a; *a = v; return x; } \
	T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int o) { touch(a); tsan_point(); on_rmw(a, sizeof(T), o, PC); T x = *a; *a = (T)(x + v); return x; } \
	T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int o) { touch(a); tsan_point(); on_rmw(a, sizeof(T), o, PC); T x = *a; *a = (T)(x - v); return x; } \
	T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int o) { touch(a); tsan_point(); on_rmw(a, sizeof(T), o, PC); T x = *a; *a = (T)(x & v); return x; } \
	T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int o) { touch(a); tsan_point(); on_rmw(a, sizeof(T), o, PC); T x = *a; *a = (T)(x | v); return x; } \
	T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int o) { touch(a); tsan_point(); on_rmw(a, sizeof(T), o, PC); T x = *a; *a = (T)(x ^ v); return x; } \
	T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int o) { touch(a); tsan_point(); on_rmw(a, sizeof(T), o, PC); T x = *a; *a = (T)(~(x & v)); return x; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int o, int fo) { touch(a); tsan_point(); if (*a == *c) { on_rmw(a, sizeof(T), o, PC); *a = v; return 1; } on_load(a, sizeof(T), fo, PC); *c = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int o, int fo) { touch(a); tsan_point(); if (*a == *c && !weak_fail()) { on_rmw(a, sizeof(T), o, PC); *a = v; return 1; } on_load(a, sizeof(T), fo, PC); *c = *a; return 0; } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int o, int fo) { touch(a); tsan_point(); T x = *a; if (x == c) { on_rmw(a, sizeof(T), o, PC); *a = v; } else on_load(a, sizeof(T), fo, PC); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, i128)
void __tsan_atomic_thread_fence(int o) { if (!inside && recording()) { emit(me->id, "F%d:%d:%d", me->id, (int)acq(o), (int)rel(o)); } }
// functions that access memory without instrumentation (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, 0, PC); access(d, n, 1, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { access(d, n, 1, PC); return __real_memset(d, v, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { int x = __real_memcmp(a, b, n); if (!x) { access(a, n, 0, PC); access(b, n, 0, PC); } return x; }
size_t __real_ZSTD_compressCCtx(void*, void*, size_t, const void*, size_t, int); size_t __real_ZSTD_decompress(void*, size_t, const void*, size_t); unsigned ZSTD_isError(size_t);
size_t __wrap_ZSTD_compressCCtx(void* c, void* d, size_t dn, const void* s, size_t n, int l) { access(s, n, 0, PC); size_t x = __real_ZSTD_compressCCtx(c, d, dn, s, n, l); access(c, 1, 1, PC); if (!ZSTD_isError(x)) access(d, x, 1, PC); return x; }
size_t __wrap_ZSTD_decompress(void* d, size_t dn, const void* s, size_t n) { access(s, n, 0, PC); size_t x = __real_ZSTD_decompress(d, dn, s, n); if (!ZSTD_isError(x)) access(d, x, 1, PC); return x; }
void ds_alloc(void* p, size_t n) { if (record && !inside && me) { In in; forget(p, n); } }
void ds_free(void* p, size_t n) { access(p, n, 1, PC); }
void __tsan_atomic_signal_fence(int) {}
}
namespace std { unsigned thread::hardware_concurrency() noexcept { return ds::hw_concurrency; } }
