// Schedules of submitters, waiters, workers and destruction of a tiny_pool; events are the trace of spec/Pool.tla.
#include "allochook.h"
#include "dsrun.h"
#include <stenos/internal/tiny_pool.h>
#include <memory>

static long live_functors = 0;
__attribute__((noinline, no_sanitize_thread)) static void live(int d) { live_functors += d; }
struct Functor {
	int id; int nest; stenos::tiny_pool* pool; int work; bool throws; char pad[1];
	Functor(int i, int n, stenos::tiny_pool* p, int w, bool t) : id(i), nest(n), pool(p), work(w), throws(t) { live(1); }
	Functor(const Functor& o) : id(o.id), nest(o.nest), pool(o.pool), work(o.work), throws(o.throws) { live(1); }
	Functor(Functor&& o) noexcept : id(o.id), nest(o.nest), pool(o.pool), work(o.work), throws(o.throws) { live(1); }
	~Functor() { live(-1); id = -99; }
	void operator()() const { ds::event("S%d", id); for (int i = 0; i < work; ++i) ds::point(); ds::event("F%d", id); if (throws) throw 1; }
};
template<int N> struct Big : Functor { char more[N]; Big(int i, int n, stenos::tiny_pool* p, int w, bool t) : Functor(i, n, p, w, t) { memset(more, 0x77, N); } };

static bool failing;
static void push(stenos::tiny_pool* p, int id, int kind, int work, bool thr, long fail)
{
	ds::event("P%d", id); bool ok;
	if (fail) { ah::st.owner = (unsigned long)pthread_self(); ah::st.count = 0; ah::st.on = true; ah::st.fail_at = 1; ah::st.persist = true; failing = true; }
	if (kind == 0) ok = p->push(Functor(id, 0, p, work, thr)); else if (kind == 1) ok = p->push(Big<8>(id, 0, p, work, thr)); else if (kind == 2) ok = p->push(Big<24>(id, 0, p, work, thr)); else if (kind == 3) ok = p->push(Big<16>(id, 0, p, work, thr)); else if (kind == 4) ok = p->push(Big<40>(id, 0, p, work, thr)); else if (kind == 5) ok = p->push(Big<4000>(id, 0, p, work, thr)); else ok = p->push(Big<400>(id, 0, p, work, thr));
	if (fail) { ah::st.on = false; ah::st.fail_at = 0; failing = false; }
	ds::event("p%d:%d:%d", id, (int)ok, (int)(fail != 0));
}

struct Script { std::vector<int> ops; }; // 0: push, 1: wait

static void body(long run, const ds::Strategy& st)
{
	dr::Opt& o = dr::opt(); int sc = o.scen;
	dr::Rng r{ (o.dfs ? (uint64_t)sc : o.seed * 31 + (uint64_t)(run / 10)) * 2654435761u + 77 };
	int workers, clients, fin; std::vector<Script> sp; bool mixed, failp, thr;
	if (o.dfs) {
		// small fixed scenarios
		static const struct { int w, c, a, b, fin; } S[] = { { 1, 1, 1, 0, 1 }, { 1, 2, 1, 1, 1 }, { 2, 1, 2, 0, 1 }, { 2, 2, 1, 1, 1 }, { 1, 1, 2, 0, 0 }, { 2, 1, 1, 0, 0 }, { 0, 1, 1, 0, 1 }, { 1, 2, 2, 1, 1 } };
		auto& s = S[sc % 8]; workers = s.w; clients = s.c; fin = s.fin; mixed = failp = thr = false;
		for (int c = 0; c < clients; ++c) { Script x; for (int i = 0; i < (c ? s.b : s.a); ++i) x.ops.push_back(0); x.ops.push_back(1); sp.push_back(x); }
		if (!fin) { sp[0].ops.pop_back(); }
	}
	else {
		workers = (int)r.below(4); clients = 1 + (int)r.below(3); fin = r.below(4) != 0; mixed = r.below(2); failp = r.below(5) == 0; thr = r.below(6) == 0;
		for (int c = 0; c < clients; ++c) { Script x; int n = 1 + (int)r.below(6); for (int i = 0; i < n; ++i) x.ops.push_back(r.below(3) == 0 ? 1 : 0); if (r.below(2)) x.ops.push_back(1); sp.push_back(x); }
	}
	char d[100]; snprintf(d, sizeof d, "workers=%d,clients=%d,final_wait=%d,fail=%d,seed=%llu,scen=%d,dfs=%d", workers, clients, fin, failp, (unsigned long long)o.seed, sc, (int)o.dfs); dr::desc() = d;
	live_functors = 0; int nid = 0, wid = 0;
	std::vector<std::vector<int>> ids; for (auto& s : sp) { std::vector<int> v; for (int op : s.ops) v.push_back(op ? ++wid : ++nid); ids.push_back(v); }
	uint64_t rs = r.next();
	ds::begin(st);
	{
		ds::event("N%d", workers);
		auto* p = new stenos::tiny_pool((unsigned)workers);
		auto client = [&](int c) {
			dr::Rng q{ rs + (uint64_t)c };
			for (size_t i = 0; i < sp[(size_t)c].ops.size(); ++i) {
				int id = ids[(size_t)c][i];
				if (sp[(size_t)c].ops[i] == 0) push(p, id, mixed ? (int)q.below(7) : 0, (int)q.below(3), thr && q.below(3) == 0, failp && q.below(3) == 0);
				else { ds::event("W%d", id); p->wait(); ds::event("w%d", id); }
			}
		};
		std::vector<std::thread> ts; for (int c = 1; c < clients; ++c) ts.emplace_back(client, c);
		client(0);
		for (auto& t : ts) t.join();
		if (fin) { ds::event("W%d", 99); p->wait(); ds::event("w%d", 99); }
		ds::event("D"); delete p; ds::event("d");
	}
	ds::event("L%ld", live_functors);
	ds::end();
}

int main(int argc, char** argv)
{
	dr::parse(argc, argv); dr::tags() = "A10";
	int rc = dr::loop(body, 150);
	if (!dr::opt().dfs && dr::opt().only < 0) {
		// memory does not grow when the same runs are repeated
		long long b[3]; std::string keep; for (int k = 0; k < 3; ++k) { for (long i = 0; i < 60; ++i) { ds::Strategy s = dr::strategy(i, 7, 150); dr::currun() = i; body(i, s); } b[k] = ah::st.bytes; }
		long long gr = b[1] - b[0] < b[2] - b[1] ? b[1] - b[0] : b[2] - b[1]; printf("T 1 G%lld\n", gr < 0 ? 0 : gr); fflush(stdout);
	}
	_exit(rc);
}
