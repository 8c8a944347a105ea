// Deterministic scheduler: every thread of the process runs under its control, one at a time.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace ds {
struct Strategy {
	enum Kind { RANDOM, PCT, DFS, PREFIX } kind = RANDOM;
	uint64_t seed = 1;
	double p_sync = 0.2;      // RANDOM: probability of a switch at a synchronisation
	double plain_gap = 0;     // mean number of plain accesses between two preemptions (0: none)
	int depth = 3;            // PCT: number of priority changes
	int est_steps = 400;      // PCT: expected number of synchronisations
	double p_spurious = 0;    // spurious wakeups and weak CAS failures
	int preempt_bound = 2;    // DFS
	long max_steps = 60000;   // synchronisations before the run counts as endless
};
void begin(const Strategy& s);           // from here on the strategy decides
// Ends the run: back to run-to-block scheduling, other threads run until they block
void end();
void point();                            // explicit scheduling point
void event(const char* fmt, ...);        // appends to the log of the run (one running thread: total order)
const std::string& log();
long steps(); long switches();
bool dfs_next();                         // DFS: prepares the next schedule, false when all were explored
long dfs_count(); long dfs_divergences();
// The stack of the calling thread below its caller is not to be accessed by other threads, until it is alive again.
void dead_stack(); void alive_stack(); extern void (*on_dead)();
int self(); void enter(); // from here on the thread is not scheduled and its allocations do not fail (reports)
// Recording of the memory accesses of a run, for spec/TraceRaces.tla.  races(): its events; races_info(): the code
// addresses of each pair of accesses, in the same order
extern bool record; std::string races(); const std::string& races_info();
extern unsigned hw_concurrency;
// called when no thread can run or the run does not end; must not return
extern void (*on_stuck)(const char* why);
// adversary hook: when set, returns the thread to run among the enabled ones (or -1: strategy)
extern int (*chooser)(const int* enabled, int n, int current, bool yielded);
}
