// Counts (and optionally fails) the library's own malloc/calloc/realloc/free calls.
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#pragma once
#include <atomic>
#include <stdlib.h>
#include <string.h>
extern "C" __attribute__((weak)) void __sanitizer_print_stack_trace(void);
namespace at {
static const bool trace = getenv("AT_TRACE") && __sanitizer_print_stack_trace;
static std::atomic<long> live{0};          // live blocks
static std::atomic<unsigned long> count{0}; // allocation requests while armed
static std::atomic<long> fail_at{-1};       // fail the n-th request from now (0-based); -1 = never
static std::atomic<bool> fail_sticky{false};
static std::atomic<unsigned long> failed{0};
static int fill = -1;                        // byte that fills new blocks
static inline bool should_fail() {
  count.fetch_add(1, std::memory_order_relaxed);
  long f = fail_at.load(std::memory_order_relaxed);
  if (f < 0) return false;
  if (f == 0) { failed++; if (__builtin_expect(trace, 0)) __sanitizer_print_stack_trace(); if (!fail_sticky) fail_at = -1; return true; }
  fail_at = f - 1; return false;
}
static inline void arm(long n, bool sticky = false) { count = 0; failed = 0; fail_sticky = sticky; fail_at = n; }
static inline void disarm() { fail_at = -1; fail_sticky = false; }
}
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { if (at::should_fail()) return nullptr; void* p = __real_malloc(n); if (p) { at::live.fetch_add(1, std::memory_order_relaxed); if (at::fill >= 0 && n <= (8u << 20)) memset(p, at::fill, n); } return p; }
void* __wrap_calloc(size_t a, size_t b) { if (at::should_fail()) return nullptr; void* p = __real_calloc(a, b); if (p) at::live.fetch_add(1, std::memory_order_relaxed); return p; }
void* __wrap_realloc(void* q, size_t n) { if (at::should_fail()) return nullptr; void* p = __real_realloc(q, n); if (p && !q) at::live.fetch_add(1, std::memory_order_relaxed); return p; }
void __wrap_free(void* p) { if (p) at::live.fetch_sub(1, std::memory_order_relaxed); __real_free(p); }
}
