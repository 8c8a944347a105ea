// malloc family of the drivers: counts live blocks and can fail chosen allocations.  Not instrumented.
#include "allochook.h"
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <malloc.h>
#include <stdlib.h>
#include <pthread.h>
#include <unistd.h>
extern "C" __attribute__((weak)) int ds_inside();
extern "C" __attribute__((weak)) void ds_alloc(void*, size_t); extern "C" __attribute__((weak)) void ds_free(void*, size_t);
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
namespace ah {
St st;
thread_local bool exempt = false;
static inline bool fail()
{
	if (!st.on || exempt) return false;
	if (ds_inside && ds_inside()) return false;
	if (st.owner && st.owner != (unsigned long)pthread_self()) return false;
	long c = __atomic_add_fetch(&st.count, 1, __ATOMIC_RELAXED);
	if (st.fail_at > 0 && (st.mask ? ((((uint64_t)c * 977 + (uint64_t)st.fail_at) * 0x9E3779B97F4A7C15ull) >> 40 & st.mask) == 0 : c == st.fail_at || (st.persist && c > st.fail_at))) { __atomic_fetch_add(&st.failed, 1, __ATOMIC_RELAXED); errno = ENOMEM; return true; }
	return false;
}
// Every block ends with its requested size and a pattern, verified when it is released.
static const size_t TAIL = 16; static const uint64_t MARK = 0x5AC5C5C5A5000000ull;
// The highest bit tells the blocks allocated while st.inlib (by a call of the library).
static const uint64_t LIBBIT = 1ull << 63;
static inline void seal(unsigned char* p, size_t n) { size_t u = malloc_usable_size(p); { void* q = p + n; size_t k = u - 8 - n; __asm__ volatile("rep stosb" : "+D"(q), "+c"(k) : "a"(0xC5) : "memory"); } /* no call: memset is recorded */ uint64_t v = MARK ^ n; if (st.inlib) { v ^= LIBBIT; __atomic_fetch_add(&st.liblive, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&st.libbytes, (long long)n, __ATOMIC_RELAXED); } memcpy(p + u - 8, &v, 8); }
static inline uint64_t stored(const void* p) { uint64_t v; memcpy(&v, (const char*)p + malloc_usable_size((void*)p) - 8, 8); return v ^ MARK; }
static inline void verify(const unsigned char* p)
{
	size_t u = malloc_usable_size((void*)p); uint64_t v; memcpy(&v, p + u - 8, 8); v = (v ^ MARK) & ~LIBBIT; bool ok = v <= u - 8 && v + TAIL + 4200 > u;
	for (size_t i = v; ok && i < u - 8; ++i) ok = p[i] == 0xC5;
	if (!ok) { st.on = false; static const char m[] = "\nwrite beyond the end of an allocated block\n"; ssize_t r = write(1, m, sizeof m - 1); (void)r; abort(); }
}
static inline void* reg(void* p, size_t rq) { if (p) { if (ds_alloc) ds_alloc(p, rq); seal((unsigned char*)p, rq); __atomic_fetch_add(&st.live, 1, __ATOMIC_RELAXED); size_t n = malloc_usable_size(p); __atomic_fetch_add(&st.bytes, (long long)n, __ATOMIC_RELAXED); if (n >= st.big_from) __atomic_fetch_add(&st.big, 1, __ATOMIC_RELAXED); } return p; }
static inline void unreg(void* p) { if (p) { verify((unsigned char*)p); uint64_t s = stored(p); if (ds_free) ds_free(p, (size_t)(s & ~LIBBIT)); if (s & LIBBIT) { __atomic_fetch_sub(&st.liblive, 1, __ATOMIC_RELAXED); __atomic_fetch_sub(&st.libbytes, (long long)(s & ~LIBBIT), __ATOMIC_RELAXED); } __atomic_fetch_sub(&st.live, 1, __ATOMIC_RELAXED); size_t n = malloc_usable_size(p); __atomic_fetch_sub(&st.bytes, (long long)n, __ATOMIC_RELAXED); if (n >= st.big_from) __atomic_fetch_sub(&st.big, 1, __ATOMIC_RELAXED); } }
}
extern "C" {
using ah::TAIL;
static const size_t HUGE_SZ = (size_t)1 << 62;
void* malloc(size_t n) noexcept { if (n > HUGE_SZ || ah::fail()) return nullptr; return ah::reg(__libc_malloc(n + TAIL), n); }
void free(void* p) noexcept { ah::unreg(p); int e = errno; __libc_free(p); errno = e; }
void* calloc(size_t a, size_t b) noexcept { if ((b && a > HUGE_SZ / b) || ah::fail()) return nullptr; return ah::reg(__libc_calloc(1, a * b + TAIL), a * b); }
void* realloc(void* p, size_t n) noexcept { if (n > HUGE_SZ || ah::fail()) return nullptr; ah::unreg(p); size_t o = 0; if (p) o = ah::stored(p) & ~ah::LIBBIT; void* r = __libc_realloc(p, n + TAIL); if (!r) ah::reg(p, o); else ah::reg(r, n); return r; }
void* memalign(size_t a, size_t n) noexcept { if (n > HUGE_SZ || ah::fail()) return nullptr; return ah::reg(__libc_memalign(a, n + TAIL), n); }
void* aligned_alloc(size_t a, size_t n) noexcept { if (n > HUGE_SZ || ah::fail()) return nullptr; return ah::reg(__libc_memalign(a, n + TAIL), n); }
int posix_memalign(void** o, size_t a, size_t n) noexcept { if (n > HUGE_SZ || ah::fail()) return ENOMEM; void* p = ah::reg(__libc_memalign(a, n + TAIL), n); if (!p) return ENOMEM; *o = p; return 0; }
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
// registration of a destructor by the C library, fatal when it fails
int __cxa_thread_atexit(void (*f)(void*), void* o, void* d) noexcept { bool e = ah::exempt; ah::exempt = true; int r = __cxa_thread_atexit_impl(f, o, d); ah::exempt = e; return r; }
}
