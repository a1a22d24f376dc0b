// Interposed clock (linker --wrap=clock_gettime): a run can be given any clock readings.
#include <time.h>
#include "logx.hpp"
namespace lx { bool on = false; long long now = 0, step = 0; std::vector<long long> reads; }
extern "C" { int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (!lx::on) return __real_clock_gettime(c, t); t->tv_sec = lx::now / 1000000000LL; t->tv_nsec = lx::now % 1000000000LL; lx::reads.push_back(lx::now); lx::now += lx::step; return 0; } }
