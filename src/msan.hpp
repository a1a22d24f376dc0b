// MemorySanitizer build of the library (flavour 'msan'): the library's objects are instrumented, the harness is not.
// A use of an uninitialised value calls __msan_warning, which the linker redirects to a counter (src/msan.cpp).
#pragma once
#include <string>
#include <cstddef>
namespace ms {
long count();                       // warnings since reset()
void reset();
std::string where();                // function of the first warning
void fresh();                       // the harness's own stack counts as initialised
long undefined(const void* p, size_t n);   // offset of the first uninitialised byte, or -1
}
