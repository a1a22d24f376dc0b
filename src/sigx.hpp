#pragma once
namespace sx { extern bool on; extern long count, fire, installs, fire_install, fire_remove; extern bool fired;
  struct Arm { Arm(long at = -1, long inst = -1, long rem = -1) { count = installs = 0; fire = at; fire_install = inst; fire_remove = rem; fired = false; on = true; } ~Arm() { on = false; } }; }
