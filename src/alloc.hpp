// Allocator seen by the library code only (linker --wrap; C++ allocations of the harness do not pass through it).
#pragma once
#include <cstddef>
namespace alc { extern thread_local int pattern; extern long live, total; extern size_t live_bytes; void pollute_stack(int pat); }
