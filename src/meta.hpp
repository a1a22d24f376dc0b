// Metamorphic relations: a problem, an equivalent problem, and how to carry a result of the second back to the first.
#pragma once
#include "gen.hpp"

struct Morph {
  Prob Q;                              // the equivalent problem
  std::function<Sol(const Sol&)> back; // result of Q expressed for P (x,y,s,z); identity when empty
  double osc = 1, oadd = 0;            // value(Q) = osc * value(P) + oadd
  bool full = true;                    // back() yields a complete primal-dual point (false: only the value is compared)
};
struct MetaTol { double f = 1e-5, g = 1e-4, cone = 1e-6, obj = 1e-5, cert = 1e-2; };

// Expected status by construction: 0 optimum exists, 1 primal infeasible, 2 unbounded.
struct MetaCase { Prob P; int want; bool sym; };
inline MetaCase gen_meta_case(Ctx& c, const GenOpt& o) {
  MetaCase M; int k = c.s.weighted({4, 4, 1, 1});
  switch (k) { case 0: M.P = gen_solvable(c, o).P; M.want = 0; break; case 1: M.P = gen_known_opt(c, o).P; M.want = 0; break; case 2: M.P = gen_pinf(c, o).P; M.want = 1; break; default: M.P = gen_dinf(c, o).P; M.want = 2; }
  M.sym = k == 0 && M.P.nex == 0; return M;
}
// One comparison. Returns "" ok, "miss" when one of the runs gave up (numerics / reduced accuracy), otherwise the violation.
inline std::string compare_meta(Ctx& c, const MetaCase& K, const Morph& T, const MetaTol& tol, const std::string& what) {
  const Prob& P = K.P; Sol a = solve_once(c, P), b = solve_once(c, T.Q);
  if (c.want_note) { c.note << what << "\n"; show(c, P, a); c.note << " equivalent problem:\n"; show(c, T.Q, b); }
  c.label("exit " + code_name(a.code) + " / " + code_name(b.code));
  auto definitive = [](int k) { return k == 0 || k == 1 || k == 2; };
  if (definitive(a.code) && a.code != K.want) return what + ": first form, exit " + code_name(a.code) + " but the problem was built with status " + fmt("%d ", K.want) + P.shape();
  if (definitive(b.code) && b.code != K.want) return what + ": equivalent form, exit " + code_name(b.code) + " but the problem was built with status " + fmt("%d ", K.want) + T.Q.shape();
  bool ga = a.code == K.want, gb = b.code == K.want;
  if (ga && gb && K.want == 0) {
    double va = (double)dot(P.c, a.x), vb = ((double)dot(T.Q.c, b.x) - T.oadd) / T.osc, sc = 1 + fabs(va) + fabs(T.oadd / T.osc);
    hist(c, "value difference", fabs(va - vb) / sc);
    if (!(fabs(va - vb) <= tol.obj * sc)) return what + fmt(": optimal value %.12g, equivalent form gives %.12g ", va, vb) + P.shape();
  }
  if (gb && T.full) {
    Sol m = T.back ? T.back(b) : b; std::string e; double q = 0;
    if (K.want == 0) e = certify_optimal(P, m, tol.f, tol.g, tol.cone);
    if (K.want == 1) { e = certify_pinf(P, m, tol.cert, tol.cone, &q); hist(c, "carried-back infeasibility certificate", q); }
    if (K.want == 2) { e = certify_dinf(P, m, tol.cert, tol.cone, &q); hist(c, "carried-back unboundedness certificate", q); }
    if (!e.empty()) return what + ": result of the equivalent form carried back: " + e + " " + P.shape();
  }
  return ga && gb ? "" : "miss";
}
