// C20: the mixed-integer optimum.
#include "mi.hpp"
// too large to enumerate: the optimum is the smaller of the optima with one boolean fixed at 0 and at 1
static bool weak_run(const MiProb& M, const MiOut& r) { if (r.clean) return false; for (int k : r.codes) if (k == -1 || k == -2) return !M.ints.empty() || M.P.nex; return M.P.nex > 0; }
static void split(Ctx& c, MiCfg g) {
  Src& s = c.s; g.relg = std::min(g.relg, 1e-3); g.abs = 1e-6; MiOpt o; o.maxbool = 20; o.maxint = s.chance(25) ? 2 : 0; o.infeas_bias = 10; o.maxcont = 3; MiProb M = gen_mi(c, o); if (M.bools.size() < 2) throw Discard(); size_t k = s.pick(M.bools.size()); long v = M.bools[k];
  MiOut r = mi_run(c, M, g), h[2]; MiProb F[2]; bool sub = s.chance(50); MiCfg g2 = g; g2.br = (int)s.range(0, 4); g2.ns = (int)s.range(0, 2);
  for (int e = 0; e < 2; e++) { MiProb N = M; Dense G = to_dense(M.P.G), A = to_dense(M.P.A);
    if (sub) { for (long i = 0; i < M.P.m; i++) N.P.h[i] -= e * G(i, v); for (long i = 0; i < M.P.p; i++) N.P.b[i] -= e * A(i, v); Dense H(M.P.m, M.P.n - 1), B(M.P.p, M.P.n - 1); for (long j = 0; j < M.P.n; j++) if (j != v) { long t = j - (j > v); for (long i = 0; i < M.P.m; i++) if (G.p(i, j)) H.set(i, t, G(i, j)); for (long i = 0; i < M.P.p; i++) if (A.p(i, j)) B.set(i, t, A(i, j)); } N.P.n--; N.P.G = to_csc(H); N.P.A = to_csc(B); N.P.c.erase(N.P.c.begin() + v); N.bools.erase(N.bools.begin() + k); for (auto& j : N.bools) j -= j > v; for (auto& j : N.ints) j -= j > v; }
    else { Dense H(M.P.m + 1, M.P.n); for (long j = 0; j < M.P.n; j++) for (long i = 0; i < M.P.m; i++) if (G.p(i, j)) H.set(i + 1, j, G(i, j)); H.set(0, v, e ? -1 : 1); N.P.h.insert(N.P.h.begin(), e ? -0.5 : 0.5); N.P.G = to_csc(H); N.P.m++; N.P.l++; }
    F[e] = N; h[e] = mi_run(c, N, g2); }
  c.label("large: split on a boolean"); label_cfg(c, g); label_mi(c, M, r); double add = sub ? M.P.c[v] : 0, v0 = h[0].U, v1 = h[1].U + add, want = std::min(v0, v1);
  if (c.want_note) { print_mi(c.note, M); c.note << "  " << cfg_str(g) << fmt(" -> exit %d value %.12g branchings %ld; variable %ld fixed at 0: exit %d value %.12g, at 1: exit %d value %.12g\n", r.code, r.U, r.it, v, h[0].code, v0, h[1].code, v1); }
  std::string why = fmt(" (exit %d value %.12g branchings %ld; boolean %ld fixed at 0: exit %d value %.12g, at 1: exit %d value %.12g) ", r.code, r.U, r.it, v, h[0].code, v0, h[1].code, v1) + cfg_str(g) + " " + M.P.shape();
  if (weak_run(M, r) || weak_run(F[0], h[0]) || weak_run(F[1], h[1])) { c.label("not judged: a relaxation was not solved"); return; } if (r.code >= 10 || h[0].code >= 10 || h[1].code >= 10) { c.label("not judged: node budget ran out"); return; }
  if (r.code != 0 && r.code != 1) c.fail("undocumented exit" + why); if ((r.code == 0) != (h[0].code == 0 || h[1].code == 0)) c.fail("feasible exactly when one of the two halves is" + why);
  if (r.code == 0) { std::string e = mi_point(M, g, r); if (!e.empty()) c.fail("optimal exit: " + e + why); double cs = 0; for (auto q : M.P.c) cs += fabs(q); bool cl = r.clean && h[0].clean && h[1].clean; double op = std::max(fabs(r.U), fabs(want)) + fabs(add), tol = g.abs + 1.1 * g.relg * op + cs * g.itol * 2.02 + (M.ints.empty() ? 1e-5 : cl ? 2e-4 : 2e-2) * (1 + op) + (cl ? 0 : 1e-2 * (1 + op)); if (!(fabs(r.U - want) <= tol)) c.fail("the optimum is not the better of the two halves" + why); }
  if (r.it > 0) c.nontrivial(M.P.hash() ^ (uint64_t)(g.br * 8 + g.ns)); }
eng::Prop make_prop() {
  Prop p; p.id = "C20"; p.quick = 180000; p.thorough = 1500000; p.min_nontrivial_pct = 30;
  p.rule = "Mixed-integer programs (booleans, bounded integers, continuous variables, linear, second-order and exponential cones, equalities; also knapsack, covering and subset-sum families with up to 12 booleans, and large ones with up to 48 booleans decided by dynamic programming) under every branching rule, node selection, gap and integrality tolerance. The optimum comes from enumerating every assignment; of problems too large for that (up to 20 booleans) it must be the better of the optima with one boolean fixed at 0 and at 1. An optimal exit must give an integral feasible point with consistent slack and values, optimal within the gap tolerances; a feasible problem is solved within the node budget. Verdicts are judged exactly when all relaxations were solved to full accuracy (always the case to date for boolean problems). Non-trivial: at least one branching.";
  p.assumptions = {"brute-force enumeration uses ECOS_solve only for the continuous rest, checked by certificate"};
  p.fixed = [](Ctx& c) {   // listed finding: a relaxation ends with exit -2 (the implicit bounds +-8388608 of integer variables) and its point prunes the optimum
    MiProb M; Prob& P = M.P; P.n = 9; P.m = P.l = 9; P.p = 1; P.hasA = true; Dense G(9, 9), A(1, 9); for (long k = 0; k < 4; k++) { G.set(2 * k, 5 + k, 1); G.set(2 * k + 1, 5 + k, -1); } A.set(0, 7, 1); P.G = to_csc(G); P.A = to_csc(A); P.b = {0}; P.c.assign(9, -7); P.h = {1.5, 1.5, 1.5, 1.5, 2.25, 1.25, 1.25, 1.25, 0.5}; M.bools = {0, 1, 2, 3, 4}; M.ints = {5, 6}; M.B = 1;
    MiCfg g; g.br = 0; g.ns = 0; g.eta = 0; g.seed = 0; MiOut r = mi_run(c, M, g); bool bad = false; for (int k : r.codes) if (k == -1 || k == -2) bad = true;
    if (r.code == 0 && r.U > -57.75 + 0.1) { std::string m = fmt("value %.9g reported as optimal, the optimum is -57.75: a relaxation that ended with exit -1/-2 bounds the tree (5 booleans, 2 integers in [-1,1])", r.U); if (bad && eng::listed("C20", "unsolved-relaxation")) c.known = "unsolved-relaxation " + m; else c.fail(m); } };
  p.run = [](Ctx& c) {
    Src& s = c.s; MiProb M; MiRef ref; MiCfg g = gen_cfg(c);
    int big = s.weighted({96, 2, 2}); if (big == 2) { split(c, g); return; }
    if (big == 1) { bool f; double o; M = gen_big(c, o, f); ref.feas = f; ref.opt = o; g.maxit = s.chance(30) ? 3000 : 1000; }
    else if (s.chance(25)) { bool f; double o; M = gen_combi(c, o, f); ref.feas = f; ref.opt = o; c.label("family: combinatorial"); }
    else { MiOpt o; o.exp = true; o.maxint = s.chance(40) ? 2 : 0; o.maxbool = s.chance(10) ? 8 : 5; o.infeas_bias = 5; M = gen_mi(c, o); ref = brute(c, M); if (!ref.ok) throw Discard(); }
    if (!ref.feas) throw Discard();
    MiOut r = mi_run(c, M, g); label_cfg(c, g); label_mi(c, M, r);
    if (c.want_note) { print_mi(c.note, M); c.note << "  " << cfg_str(g) << fmt(" -> exit %d value %.12g, optimum %.12g, branchings %ld, relaxations %ld\n", r.code, r.U, ref.opt, r.it, r.solves);  for (int k : r.codes) c.note << " " << k; c.note << " pres " << r.info.pres << "\n"; }
    std::string why = fmt(" (exit %d, value %.12g, optimum %.12g, branchings %ld) ", r.code, r.U, ref.opt, r.it) + cfg_str(g) + " " + M.P.shape();
    if (r.code != 0 && r.code != 1 && r.code != 10 && r.code != 11) c.fail("undocumented exit" + why);
    // a relaxation that ended in -1 or -2 (reduced accuracy with both integers and exponential cones) is the listed finding 'unsolved-relaxation'
    bool bad = false; for (int k : r.codes) if (k == -1 || k == -2) bad = true; bool weak = !r.clean && (bad || M.P.nex); if (M.ints.empty() && !M.P.nex) weak = false;
    if (weak) { c.label("not judged: a relaxation was not solved"); return; }
    if (r.code != 0) { if (r.it < g.maxit - 1 || r.code == 1) c.fail("a feasible problem with an optimum was not solved" + why); return; }
    std::string e = mi_point(M, g, r); if (!e.empty()) c.fail("optimal exit: " + e + why);
    double tol = mi_gap(g, ref, M); double cs = 0; for (auto v : M.P.c) cs += fabs(v); tol += cs * g.itol * 1.01 + (r.clean ? 0 : 1e-2 * (1 + fabs(ref.opt)));
    if (!(r.U <= ref.opt + tol)) c.fail("not the optimum" + why); if (!(r.U >= ref.opt - (M.ints.empty() ? 1e-6 : r.clean ? 1e-4 : 1e-2) * (1 + fabs(ref.opt)) - cs * g.itol * 1.01)) c.fail("better than the optimum" + why);
    if (r.it > 0) c.nontrivial(M.P.hash() ^ (uint64_t)(g.br * 8 + g.ns));
  };
  return p;
}
