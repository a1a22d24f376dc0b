// Histories on one workspace: settings, solves, data updates; and data on which the library's own equilibration is the identity.
#pragma once
#include "gen.hpp"
#include <signal.h>

inline bool bits(const dvec& a, const dvec& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
inline bool same_d(double a, double b) { return !memcmp(&a, &b, 8) || (std::isnan(a) && std::isnan(b)); }
inline bool same_vec(const dvec& a, const dvec& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same_d(a[i], b[i])) return false; return true; }
inline bool same_info(const stats& a, const stats& b) {
  return same_d(a.pcost, b.pcost) && same_d(a.dcost, b.dcost) && same_d(a.pres, b.pres) && same_d(a.dres, b.dres) && same_d(a.gap, b.gap) && same_d(a.relgap, b.relgap) && same_d(a.pinfres, b.pinfres) && same_d(a.dinfres, b.dinfres) && same_d(a.mu, b.mu) && same_d(a.kapovert, b.kapovert) && a.iter == b.iter && same_d(a.pinf, b.pinf) && same_d(a.dinf, b.dinf) && same_d(a.step, b.step) && same_d(a.step_aff, b.step_aff) &&
    (a.iter < 1 || (same_d(a.sigma, b.sigma) && a.nitref1 == b.nitref1 && a.nitref2 == b.nitref2 && a.nitref3 == b.nitref3 && a.affBack == b.affBack && a.cmbBack == b.cmbBack));
}
// empty string when two results are bit-for-bit the same
inline std::string diff_sol(const Sol& a, const Sol& b) {
  if (a.code != b.code) return fmt("exit codes %d and %d", a.code, b.code);
  if (a.info.iter != b.info.iter) return fmt("%ld and %ld iterations", (long)a.info.iter, (long)b.info.iter);
  if (!same_vec(a.x, b.x)) return "different x"; if (!same_vec(a.y, b.y)) return "different y"; if (!same_vec(a.s, b.s)) return "different s"; if (!same_vec(a.z, b.z)) return "different z";
  if (!same_info(a.info, b.info)) return "different reported statistics"; return "";
}
// Matrices whose rows, cone blocks and columns already have unit size, so that scaling leaves every bit alone.
inline Prob gen_unit(Ctx& c, bool& feasible) {
  Src& s = c.s; Shape S; bool big = s.chance(6); S.l = s.chance(12) ? 0 : s.range(1, big ? 30 : s.chance(8) ? 20 : 6); S.nex = s.chance(35) ? s.range(1, big ? 8 : 3) : 0; long k = s.chance(50) ? s.range(1, big ? 9 : 3) : 0; for (long i = 0; i < k; i++) S.q.push_back(1L << s.range(0, big ? 5 : 2));
  if (S.l == 0 && k == 0 && S.nex == 0) S.l = 1;
  S.m = S.l + 3 * S.nex; for (auto d : S.q) S.m += d; S.p = s.chance(45) ? s.range(1, big ? 8 : 3) : 0; if (S.l == 0 && S.p == 0) S.p = 1; S.n = s.range(std::max<long>(1, S.p), std::max<long>(S.p, std::min<long>(S.m + S.p, big ? 24 : 9))); S.density = s.weighted({3, 3, 2});
  Dense G(S.m, S.n), A(S.p, S.n); int pct = S.density == 0 ? 25 : S.density == 1 ? 55 : 95;
  std::vector<double> mag; for (long i = 0; i < S.l; i++) mag.push_back(1); for (auto d : S.q) for (long j = 0; j < d; j++) mag.push_back(1.0 / d); for (long e = 0; e < 3 * S.nex; e++) mag.push_back(1.0 / 3);
  auto pm = [&] { return s.chance(50) ? 1.0 : -1.0; };
  for (long j = 0; j < S.n; j++) { for (long i = 0; i < S.m; i++) if (s.chance(pct)) G.set(i, j, pm() * mag[i]); for (long i = 0; i < S.p; i++) if (s.chance(pct)) A.set(i, j, pm()); }
  for (long j = 0; j < S.n; j++) { bool one = false; for (long i = 0; i < S.l; i++) one |= G.p(i, j) != 0; for (long i = 0; i < S.p; i++) one |= A.p(i, j) != 0; if (!one) { if (S.l) G.set(j % S.l, j, pm()); else A.set(j % S.p, j, pm()); } }
  for (long i = S.l; i < S.m; i++) { bool any = false; for (long j = 0; j < S.n; j++) any |= G.p(i, j) != 0; if (!any) G.set(i, i % S.n, pm() * mag[i]); }
  Prob P; assemble(S, G, A, P); P.hasA = S.p > 0 || s.chance(30);
  feasible = s.chance(65);
  if (feasible) { dvec x = gen_vec(c, S.n, 2), s0, z0, y = gen_vec(c, S.p, 2); int_point(c, S, s0, false); int_point(c, S, z0, true); P.h = primal_rhs_h(P, x, s0); P.b = primal_rhs_b(P, x); P.c = dual_c(P, y, z0); }
  else { P.h = gen_vec(c, S.m, 3); P.b = gen_vec(c, S.p, 3); P.c = gen_vec(c, S.n, 3); }
  return P;
}
inline bool unit_equil(pwork* w) { for (idxint i = 0; i < w->n; i++) if (w->xequil[i] != 1) return false; for (idxint i = 0; i < w->p; i++) if (w->Aequil[i] != 1) return false; for (idxint i = 0; i < w->m; i++) if (w->Gequil[i] != 1) return false; return true; }

struct Set { double f = 1e-8, a = 1e-8, r = 1e-8; long maxit = 100, nitref = 9; };
inline Set gen_set(Ctx& c) { Src& s = c.s; Set t; if (s.chance(35)) t.maxit = s.range(0, 15); if (s.chance(25)) t.f = t.a = t.r = s.logpos(-10, -2); if (s.chance(15)) t.nitref = s.range(0, 9); return t; }
inline void put(pwork* w, const Set& t) { settings& s = *w->stgs; s.feastol = t.f; s.abstol = t.a; s.reltol = t.r; s.maxit = t.maxit; s.nitref = t.nitref; s.verbose = 0; }
inline std::string set_str(const Set& t) { return fmt("[tol %g/%g/%g maxit %ld nitref %ld]", t.f, t.a, t.r, t.maxit, t.nitref); }
