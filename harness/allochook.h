// Allocation accounting and fault injection, implemented in allochook.cpp (not for ASan builds).
#pragma once
#include <cstddef>
namespace ah {
// fail_at: countdown to the failing allocation (1 = next), 0 none.  persist: all the following ones fail too.
struct St { volatile long live = 0; volatile long long bytes = 0; volatile long count = 0; volatile long fail_at = 0; volatile bool persist = false; volatile long failed = 0; volatile unsigned mask = 0; /* not 0: allocations fail at random (fail_at: seed) */ volatile bool on = false; volatile long big = 0; volatile size_t big_from = ~(size_t)0; volatile bool inlib = false; volatile long liblive = 0; volatile long long libbytes = 0; /* blocks allocated while inlib */ volatile unsigned long owner = 0; /* thread whose allocations are counted and failed, 0: all */ };
extern St st;
extern thread_local bool exempt; // the allocations of this thread do not fail
}
