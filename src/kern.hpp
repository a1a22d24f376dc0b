// Access to the numerical kernels of the library. Weak: a kernel that a tree does not have is skipped, not an error.
#pragma once
#include "gen.hpp"
extern "C" {
#include "ecos.h"
#include "equil.h"
#include "wright_omega.h"
#include "splamm.h"
}
#undef MAX
#undef MIN
#pragma weak evalExpHessian
#pragma weak evalExpGradient
#pragma weak evalBarrierValue
#pragma weak scaleToAddExpcone
#pragma weak evalExpPrimalFeas
#pragma weak evalExpDualFeas
#pragma weak wrightOmega
#pragma weak bring2cone
#pragma weak unitInitialization
#pragma weak updateScalings
#pragma weak scale
#pragma weak scale2add
#pragma weak unscale
#pragma weak conicProduct
#pragma weak conicDivision
#pragma weak evalSymmetricBarrierValue
#pragma weak unstretch
#pragma weak sparseMV
#pragma weak sparseMtVm
#pragma weak vadd
#pragma weak vsubscale
#pragma weak norm2
#pragma weak norminf
#pragma weak eddot
#pragma weak ecoscreateSparseMatrix
#pragma weak newSparseMatrix
#pragma weak freeSparseMatrix
#pragma weak transposeSparseMatrix
#pragma weak permuteSparseSymmetricMatrix
#pragma weak pinv
#pragma weak copySparseMatrix
#pragma weak kkt_factor
#pragma weak kkt_solve
#pragma weak kkt_update
#pragma weak kkt_init

// ---- exponential cone, long double reference (barrier of the dual cone and its conjugate) ----
struct EPt { ld u, v, w, l, r; };
inline EPt ept(ld u, ld v, ld w) { ld l = logl(-v / u); return {u, v, w, l, w - u - u * l}; }
inline ld e_bar(const EPt& p) { return -logl(p.r) - logl(-p.u) - logl(p.v); }
inline void e_grad(const EPt& p, ld g[3]) { g[0] = p.l / p.r - 1 / p.u; g[1] = p.u / (p.v * p.r) - 1 / p.v; g[2] = -1 / p.r; }
inline void e_hess(const EPt& p, ld H[3][3]) {
  // r_u = -l, r_v = -u/v, r_w = 1;  r_uu = 1/u, r_uv = -1/v, r_vv = u/v^2
  ld d[3] = {-p.l, -p.u / p.v, 1}, dd[3][3] = {{1 / p.u, -1 / p.v, 0}, {-1 / p.v, p.u / (p.v * p.v), 0}, {0, 0, 0}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) H[i][j] = d[i] * d[j] / (p.r * p.r) - dd[i][j] / p.r;
  H[0][0] += 1 / (p.u * p.u); H[1][1] += 1 / (p.v * p.v);
}
// a dual interior point with a chosen distance to the boundary
inline EPt gen_ept(Ctx& c, double& cond) {
  Src& s = c.s; double sc = s.logpos(-4, 4), u = -s.logpos(-3, 2) * sc, q = s.val(6, 64), r = s.logpos(-5, 2) * sc; double v = -u * exp(q), w = (double)((ld)u + (ld)u * logl(-(ld)v / u) + r);
  EPt p = ept(u, v, w); if (!(p.r > 0)) throw Discard(); cond = (double)((fabsl(p.w) + fabsl(p.u) + fabsl(p.u * p.l)) / p.r + 1); if (cond > 1e6) throw Discard(); return p;
}
