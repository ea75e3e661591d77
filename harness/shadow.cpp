// The receiving end of -fsanitize=thread instrumentation (its runtime is not linked): for every 8 bytes of
// static data and of live heap blocks, the objects on whose behalf they were read and written.  Everything
// runs in one thread, so what is recorded does not depend on timing.
#include "shadow.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sys/single_threaded.h>
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_once(pthread_once_t *, void (*)());
int __real___cxa_guard_acquire(void *); void __real___cxa_guard_release(void *); void __real___cxa_guard_abort(void *);
extern char __data_start, _end; extern int CBLAS_CallFromC __attribute__((weak)), RowMajorStrg __attribute__((weak)); }
namespace {
enum { PAGEBITS = 20, GRANULES = 1 << (PAGEBITS - 3), DIR = 1 << 14, OBJ = 7, LIVE = 1 << 14, MAXC = 256 };   // bits 0-6 read by, 7-13 written by
typedef uint16_t Cell;
struct Dir { uintptr_t key; Cell *page; }; Dir dir[DIR]; uintptr_t lastKey; Cell *lastPage;
bool on = false; int who = 0, held = 0; long nr = 0, nw = 0; uintptr_t clash[MAXC]; Cell clashCell[MAXC]; int nclash = 0;
Cell *page(uintptr_t a, bool make) {
    uintptr_t k = (a >> PAGEBITS) + 1; if (k == lastKey) return lastPage;
    size_t i = size_t(k * 0x9E3779B97F4A7C15ull >> 50) & (DIR - 1);
    for (size_t n = 0; n < DIR; ++n, i = (i + 1) & (DIR - 1)) {
        if (dir[i].key == k) { lastKey = k; return lastPage = dir[i].page; }
        if (!dir[i].key) { if (!make) return 0; Cell *p = (Cell *)__real_calloc(GRANULES, sizeof(Cell)); if (!p) abort(); dir[i].key = k; dir[i].page = p; lastKey = k; return lastPage = p; }
    }
    abort();
}
inline Cell *cell(uintptr_t a, bool make) { Cell *p = page(a, make); return p ? p + ((a >> 3) & (GRANULES - 1)) : 0; }
void fill(void *q, size_t n, Cell v) { if (!q || !on) return; uintptr_t a = uintptr_t(q) & ~uintptr_t(7), z = uintptr_t(q) + n; for (; a < z; a += 8) *cell(a, true) = v; }
inline void touch(uintptr_t a, size_t n, bool write) {
    if (!who || held || !n) return;
    if (write) ++nw; else ++nr;
    for (uintptr_t b = a & ~uintptr_t(7); b < a + n; b += 8) {
        Cell *c = cell(b, false); if (!c || !(*c & LIVE)) continue;
        Cell was = *c; *c |= Cell(1 << (who - 1 + (write ? OBJ : 0))); if (*c == was) continue;
        int r = *c & 127, w = *c >> OBJ & 127;
        if (w && ((r | w) & (r | w) - 1)) { int i = 0; for (; i < nclash && clash[i] != b; ++i) {} if (i < MAXC) { clash[i] = b; clashCell[i] = *c; if (i == nclash) ++nclash; } }
    }
}
}
#define WITHIN(a, s) ((a) >= (uintptr_t(&s) & ~uintptr_t(7)) && (a) < uintptr_t(&s) + sizeof s)
namespace shadow {
void begin() { on = true; __libc_single_threaded = 0; fill(&__data_start, size_t(&_end - &__data_start), LIVE); }
int as(int o) { int was = who; who = o; return was; }
int report(Place *out, int max, long *reads, long *writes) {
    int was = as(0), k = 0; *reads = nr; *writes = nw; on = false; uintptr_t lo = uintptr_t(&__data_start), hi = uintptr_t(&_end);
    auto put = [&](uintptr_t a, Cell c) { if (k >= max) return; for (int i = 0; i < k; ++i) if (out[i].at == a) return; const char *n = ""; if (&CBLAS_CallFromC && WITHIN(a, CBLAS_CallFromC)) n = "CBLAS_CallFromC"; else if (&RowMajorStrg && WITHIN(a, RowMajorStrg)) n = "RowMajorStrg"; out[k].at = a; out[k].statics = a >= lo && a < hi; out[k].name = n; out[k].readers = c & 127; out[k].writers = c >> OBJ & 127; ++k; };
    for (int i = 0; i < nclash; ++i) put(clash[i], clashCell[i]);
    int shared = 0, single = 0;     // and a few that were shared for reading only, and a few of one object's own
    for (uintptr_t a = lo & ~uintptr_t(7); a < hi && shared < 8; a += 8) { Cell *c = cell(a, false); if (c && (*c & 127) & ((*c & 127) - 1)) { put(a, *c); ++shared; } }
    for (int d = 0; d < DIR && single < 8; ++d) if (dir[d].key) for (int g = 0; g < GRANULES && single < 8; g += 61) { Cell c = dir[d].page[g]; if (c & LIVE && c & ~LIVE) { put(((dir[d].key - 1) << PAGEBITS) + g * 8, c); ++single; } }
    as(was); return k;
}
}
static void *got(void *p) { if (p) fill(p, malloc_usable_size(p), LIVE); return p; }
static void gone(void *p) { if (p) fill(p, malloc_usable_size(p), 0); }
extern "C" {
void *__wrap_malloc(size_t n) { return got(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { return got(__real_calloc(a, b)); }
void *__wrap_realloc(void *q, size_t n) { gone(q); return got(__real_realloc(q, n)); }
void __wrap_free(void *p) { gone(p); __real_free(p); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { touch(uintptr_t(s), n, false); touch(uintptr_t(d), n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { touch(uintptr_t(s), n, false); touch(uintptr_t(d), n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { touch(uintptr_t(d), n, true); return __real_memset(d, c, n); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { int r = __real_pthread_mutex_lock(m); if (!r) ++held; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (held) --held; return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) { ++held; int r = __real_pthread_once(o, f); --held; return r; }
int __wrap___cxa_guard_acquire(void *g) { int r = __real___cxa_guard_acquire(g); if (r) ++held; return r; }
void __wrap___cxa_guard_release(void *g) { if (held) --held; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void *g) { if (held) --held; __real___cxa_guard_abort(g); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { touch(uintptr_t(p), sizeof(void *), true); }
void __tsan_vptr_read(void **p) { touch(uintptr_t(p), sizeof(void *), false); }
void __tsan_read_range(void *p, unsigned long n) { touch(uintptr_t(p), n, false); }
void __tsan_write_range(void *p, unsigned long n) { touch(uintptr_t(p), n, true); }
#define VPH(n) void __tsan_read##n(void *p) { touch(uintptr_t(p), n, false); } void __tsan_write##n(void *p) { touch(uintptr_t(p), n, true); } \
  void __tsan_unaligned_read##n(void *p) { touch(uintptr_t(p), n, false); } void __tsan_unaligned_write##n(void *p) { touch(uintptr_t(p), n, true); } \
  void __tsan_volatile_read##n(void *p) { touch(uintptr_t(p), n, false); } void __tsan_volatile_write##n(void *p) { touch(uintptr_t(p), n, true); }
VPH(1) VPH(2) VPH(4) VPH(8) VPH(16)
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return __wrap_memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return __wrap_memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return __wrap_memmove(d, s, n); }
// atomic operations do not race
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define VPA(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { return __atomic_load_n(p, 5); } void __tsan_atomic##b##_store(volatile T *p, T v, int) { __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { return __atomic_exchange_n(p, v, 5); } T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { return __atomic_fetch_sub(p, v, 5); } T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { return __atomic_fetch_or(p, v, 5); } T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { return __atomic_fetch_xor(p, v, 5); } T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int) { return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int, int) { __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
VPA(8, uint8_t) VPA(16, uint16_t) VPA(32, uint32_t) VPA(64, uint64_t)
}
static void *get(size_t n) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return got(p); }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return got(__real_malloc(n ? n : 1)); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return got(__real_malloc(n ? n : 1)); }
static void put(void *p) { gone(p); __real_free(p); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
