// Interposed ECOS_solve: exit codes of the relaxations of a mixed-integer solve.
#include <vector>
extern "C" {
#include "ecos.h"
}
namespace rel { bool on = false; std::vector<int> codes; }
extern "C" { idxint __real_ECOS_solve(pwork*); idxint __wrap_ECOS_solve(pwork* w) { idxint k = __real_ECOS_solve(w); if (rel::on) rel::codes.push_back((int)k); return k; } }
