#pragma once
#include <stdint.h>
#include <functional>
#include <vector>
// Schedules at basic-block granularity: the library is compiled with -fsanitize-coverage=trace-pc, and every basic
// block it enters is a point where another job may take over. All jobs run in one OS thread, so a run is reproducible.
namespace coro {
extern thread_local uint64_t* rng;                    // the running job's state behind rand()
long count(const std::function<void()>& f);          // run f, return the number of basic blocks it enters
// next(i, n): how many basic blocks job i runs when it is given control for the n-th time (negative: to its end);
// pick(k): which of the k unfinished jobs runs now. Returns the number of switches in the middle of a job.
long run(std::vector<std::function<void()>>& jobs, const std::function<long(size_t, long)>& next, const std::function<size_t(size_t)>& pick);
}
