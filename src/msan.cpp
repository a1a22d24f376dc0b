#include "msan.hpp"
#include <dlfcn.h>
extern "C" { void __msan_unpoison(const volatile void*, size_t); long __msan_test_shadow(const volatile void*, size_t); }
namespace ms {
static thread_local long n = 0; static thread_local void* first = nullptr;
long count() { return n; }
void reset() { n = 0; first = nullptr; }
std::string where() { Dl_info d; if (first && dladdr(first, &d) && d.dli_sname) return d.dli_sname; return "the library"; }
__attribute__((noinline)) void fresh() { __msan_unpoison(__builtin_frame_address(0), 1 << 16); }
long undefined(const void* p, size_t k) { return k ? __msan_test_shadow(p, k) : -1; }
static void hit(void* pc) { if (!n++) first = pc; }
}
extern "C" {
const char* __msan_default_options() { return "poison_in_malloc=0:poison_in_free=0:report_umrs=0:halt_on_error=0:exit_code=0"; }
void __wrap___msan_warning() { ms::hit(__builtin_return_address(0)); }
void __wrap___msan_warning_noreturn() { ms::hit(__builtin_return_address(0)); }
void __wrap___msan_warning_with_origin(unsigned) { ms::hit(__builtin_return_address(0)); }
void __wrap___msan_warning_with_origin_noreturn(unsigned) { ms::hit(__builtin_return_address(0)); }
}
