// Shared helpers of the conformance drivers: guarded buffers, violation reports, crash and hang reports.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>

#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#else
#define ASAN 0
#endif

namespace cm {
inline char* curbuf() { static char b[2048]; return b; }
// Describes what is running: printed when the process crashes or hangs.  tags: properties concerned.
inline void cur(const char* fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(curbuf(), 2000, fmt, a); va_end(a); }
inline void wr(const char* s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
inline void on_death() { wr("\nCRASH "); wr(curbuf()); wr("\n"); }
#if ASAN
} extern "C" __attribute__((weak, used)) void __ubsan_on_report() { cm::on_death(); } namespace cm {
#endif
inline void on_sig(int s) { if (s == SIGALRM) { wr("\nHANG "); wr(curbuf()); wr("\n"); _exit(99); } on_death(); _exit(98); }
inline void setup()
{
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
	static char alt[65536]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
	sigaction(SIGALRM, &sa, nullptr);
	sigaction(SIGABRT, &sa, nullptr);
#if ASAN
	__sanitizer_set_death_callback(on_death);
#else
	sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
#endif
}
inline void watchdog(unsigned seconds) { alarm(seconds); }
inline double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); /* not the simulated clock of apidrv */ return t.tv_sec + t.tv_nsec * 1e-9; }

// Buffer of exactly n bytes ending at (or starting at) an inaccessible page, or an exact ASan allocation.
struct GBuf {
	uint8_t* p = nullptr; size_t n = 0;
	uint8_t* base = nullptr; size_t span = 0; bool ro = false; bool front = false;
	static const size_t PG = 4096, CAN = 64;
	GBuf() = default; GBuf(const GBuf&) = delete; GBuf& operator=(const GBuf&) = delete;
	~GBuf()
	{
#if ASAN
		free(base);
#else
		if (base) munmap(base, span + 2 * PG);
#endif
	}
	void get(size_t sz, bool at_front = false)
	{
		n = sz;
#if ASAN
		free(base); base = (uint8_t*)malloc(sz ? sz : 1); p = base;
		if (!sz) { p = base + 1; }
		(void)at_front;
#else
		size_t need = (sz + CAN + PG - 1) / PG * PG + PG;
		if (ro) { mprotect(base + PG, span, PROT_READ | PROT_WRITE); ro = false; }
		if (need > span) {
			if (base) munmap(base, span + 2 * PG);
			span = need + need / 2; span = span / PG * PG;
			base = (uint8_t*)mmap(nullptr, span + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			mprotect(base + PG, span, PROT_READ | PROT_WRITE);
		}
		front = at_front;
		p = front ? base + PG : base + PG + span - sz;
		if (front) memset(p + sz, 0xC5, CAN); else memset(p - CAN, 0xC5, CAN);
#endif
	}
	void protect()
	{
#if !ASAN
		mprotect(base + PG, span, PROT_READ); ro = true;
#endif
	}
	bool canary_ok() const
	{
#if !ASAN
		const uint8_t* q = front ? p + n : p - CAN;
		for (size_t i = 0; i < CAN; ++i) if (q[i] != 0xC5) return false;
#endif
		return true;
	}
};
inline uint64_t hash(const uint8_t* p, size_t n)
{
	uint64_t h = 0x9E3779B97F4A7C15ull ^ n; size_t i = 0;
	for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, p + i, 8); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
	for (; i < n; ++i) { h = (h ^ p[i]) * 0xff51afd7ed558ccdull; h ^= h >> 29; }
	return h;
}
} // namespace cm
