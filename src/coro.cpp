#include "coro.hpp"
#include <stdlib.h>
#include <ucontext.h>
#include <memory>
namespace coro {
thread_local uint64_t* rng = nullptr;
static thread_local long steps = 0;
static thread_local bool active = false;              // a job is running and may be preempted
static thread_local long budget = 0;                  // basic blocks until it is; negative: never
struct Co { ucontext_t u; std::unique_ptr<char[]> stack; std::function<void()>* f; bool done = false; long turns = 0; };
static ucontext_t sched; static Co* cur = nullptr;
static void entry() { (*cur->f)(); active = false; cur->done = true; }
long count(const std::function<void()>& f) { long s = steps; f(); return steps - s; }
long run(std::vector<std::function<void()>>& jobs, const std::function<long(size_t, long)>& next, const std::function<size_t(size_t)>& pick) {
  std::vector<std::unique_ptr<Co>> C; const size_t SZ = 1 << 18;
  for (auto& j : jobs) {
    C.emplace_back(new Co); Co& c = *C.back(); c.f = &j; c.stack.reset(new char[SZ]);
    getcontext(&c.u); c.u.uc_stack.ss_sp = c.stack.get(); c.u.uc_stack.ss_size = SZ; c.u.uc_link = &sched; makecontext(&c.u, (void (*)())entry, 0);
  }
  std::vector<size_t> live; for (size_t i = 0; i < C.size(); i++) live.push_back(i);
  long sw = 0;
  while (!live.empty()) {
    size_t k = live.size() > 1 ? pick(live.size()) : 0; Co& c = *C[live[k]];
    budget = live.size() > 1 ? next(live[k], c.turns) : -1; if (budget == 0) budget = 1;
    c.turns++; cur = &c; active = true; swapcontext(&sched, &c.u); active = false;
    if (c.done) live.erase(live.begin() + k); else sw++;
  }
  return sw;
}
static void leave() { uint64_t* r = rng; active = false; swapcontext(&cur->u, &sched); active = true; rng = r; }
}
extern "C" void __sanitizer_cov_trace_pc(void) { coro::steps++; if (!coro::active || coro::budget < 0) return; if (--coro::budget <= 0) coro::leave(); }
extern "C" int __real_rand(void);
extern "C" int __wrap_rand(void) { if (!coro::rng) return __real_rand(); uint64_t& h = *coro::rng; h = h * 6364136223846793005ull + 1442695040888963407ull; return (int)(h >> 33); }
