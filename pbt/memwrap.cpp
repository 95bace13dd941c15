// Accounting of the library's own allocations (linked with --wrap).
#include <cstddef>
#include <cstdlib>
#include <malloc.h>
#include <new>
#include "frame.h"
struct MemCount { long blocks, bytes; };
static long blocks, bytes, limit, peak, segLimit;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); void *__real_aligned_alloc(size_t, size_t);
static void add(void *p) { if (p) { blocks++; bytes += malloc_usable_size(p); } }
static void sub(void *p) { if (p) { blocks--; bytes -= malloc_usable_size(p); } }
static bool refuse(size_t n) { if ((long)n > peak || (long)n < 0) peak = (long)n < 0 ? (1l << 62) : (long)n; return limit && n > (size_t)limit; }
void *__wrap_malloc(size_t n) { if (refuse(n)) return nullptr; void *p = __real_malloc(n); add(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (refuse(a * b)) return nullptr; void *p = __real_calloc(a, b); add(p); return p; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (refuse(n) || (segLimit && n > (size_t)segLimit)) return nullptr; void *p = __real_aligned_alloc(a, n); add(p); return p; }
void *__wrap_realloc(void *q, size_t n) { if (refuse(n)) return nullptr; sub(q); void *p = __real_realloc(q, n); if (p) add(p); else add(q); return p; }
void __wrap_free(void *p) { sub(p); __real_free(p); }
}
long calVerifMinGCLimit = 10000; int calVerifGCCheck = 100; unsigned long calVerifLargeBdd = 1ul << 19; int calVerifCacheIndex = 16;
MemCount memOutstanding() { return {blocks, bytes}; }
void memLimit(long b) { limit = b; }
void memSegLimit(long b) { segLimit = b; }
void memPeakReset() { peak = 0; }
long memPeak() { return peak; }
void rawFree(void *p) { __real_free(p); }
extern "C" const char *__asan_default_options() { return "allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_abort=1:quarantine_size_mb=16:malloc_context_size=6:print_legend=0:print_full_thread_history=0"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=98"; }
