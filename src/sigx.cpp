// Interposed sqrt / sigaction (library only, linker --wrap): lets a SIGINT arrive at any chosen instant of a solve.
#include <signal.h>
#include <stdio.h>
#include <stdarg.h>
#include "sigx.hpp"
namespace sx { bool on = false; long count = 0, fire = -1, installs = 0, fire_install = -1, fire_remove = -1; bool fired = false; }
extern "C" {
double __real_sqrt(double); int __real_sigaction(int, const struct sigaction*, struct sigaction*);
double __wrap_sqrt(double v) { if (sx::on) { if (++sx::count == sx::fire) { sx::fired = true; raise(SIGINT); } } return __real_sqrt(v); }
int __wrap_sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
  if (!sx::on || sig != SIGINT || !a) return __real_sigaction(sig, a, o);
  sx::installs++;      // odd: a solve installs its handler, even: it puts the old one back
  if (sx::installs % 2 == 0 && sx::installs / 2 == sx::fire_remove) { sx::fired = true; raise(SIGINT); }
  int r = __real_sigaction(sig, a, o);
  if (sx::installs % 2 == 1 && (sx::installs + 1) / 2 == sx::fire_install) { sx::fired = true; raise(SIGINT); }
  return r;
}
int __wrap_printf(const char* f, ...) { va_list a; va_start(a, f); int r = vprintf(f, a); va_end(a); return r; }
}
