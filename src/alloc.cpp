#include "alloc.hpp"
#include <cstdlib>
#include <cstring>
#include <malloc.h>
namespace alc {
thread_local int pattern = -1; long live = 0, total = 0; size_t live_bytes = 0;
__attribute__((noinline)) void pollute_stack(int pat) { volatile char buf[49152]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char)pat; }
}
extern "C" {
void __msan_poison(const volatile void*, size_t) __attribute__((weak)); void __msan_unpoison(const volatile void*, size_t) __attribute__((weak));
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void __real_free(void*); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) { __atomic_add_fetch(&alc::live, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&alc::total, 1, __ATOMIC_RELAXED); if (alc::pattern >= 0) memset(p, alc::pattern, n); if (__msan_poison) __msan_poison(p, n); } return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (p) { __atomic_add_fetch(&alc::live, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&alc::total, 1, __ATOMIC_RELAXED); } return p; }
void __wrap_free(void* p) { if (p) { __atomic_sub_fetch(&alc::live, 1, __ATOMIC_RELAXED); if (alc::pattern >= 0) memset(p, alc::pattern ^ 0x5A, malloc_usable_size(p)); if (__msan_unpoison) __msan_unpoison(p, malloc_usable_size(p)); } __real_free(p); }
void* __wrap_realloc(void* p, size_t n) { if (!p) return __wrap_malloc(n); return __real_realloc(p, n); }
}
