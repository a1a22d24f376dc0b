// C21: the mixed-integer infeasibility verdict.
#include "mi.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C21"; p.quick = 120000; p.thorough = 1500000; p.min_nontrivial_pct = 25;
  p.rule = "Mixed-integer programs biased towards infeasibility (integer data, half-integer right-hand sides; subset-sum pairs with no solution although the relaxation is feasible; also feasible ones), every branching rule and node selection. Enumeration decides feasibility. Exit 'infeasible' exactly when no assignment is feasible, unless the node budget ends first; a root relaxation that is feasible makes the verdict the tree's doing. Non-trivial: infeasible problem whose tree branches, or feasible problem with some infeasible relaxation.";
  p.fixed = [](Ctx& c) {   // listed finding: unbounded mixed-integer problems are reported infeasible
    MiProb M; Prob& P = M.P; P.n = 2; P.m = P.l = 1; Dense G(1, 2); G.set(0, 0, 1); P.G = to_csc(G); P.A = to_csc(Dense(0, 2)); P.hasA = false; P.c = {1, -1}; P.h = {1.5}; M.bools = {0}; MiCfg g; MiOut r = mi_run(c, M, g);
    if (r.code == 1) { std::string m = "min x0 - x1, x0 boolean, x1 free is unbounded but reported infeasible (exit 1): an unbounded relaxation counts as infeasible"; if (eng::listed("C21", "unbounded-relaxation")) c.known = "unbounded-relaxation " + m; else c.fail(m); } };
  p.run = [](Ctx& c) {
    Src& s = c.s; MiProb M; MiRef ref; MiCfg g = gen_cfg(c); bool inf_bias = s.chance(75);
    if (s.chance(2)) { bool f; double o; M = gen_big(c, o, f, inf_bias); ref.feas = f; g.maxit = s.chance(30) ? 3000 : 1000; }
    else if (s.chance(25)) { bool f; double o; M = gen_combi(c, o, f); if (inf_bias && M.P.m == 2) { // exactly one sum, often unreachable
          Prob& P = M.P; Dense G = to_dense(P.G); long k = s.range(2, 4); for (long j = 0; j < P.n; j++) { double v = (double)(k * s.range(1, 4)); G.set(0, j, v); G.set(1, j, -v); } P.G = to_csc(G); double v = (double)(k * s.range(0, 2 * P.n) + s.range(0, k - 1)); P.h = {v + .5, -v + .5}; f = false; for (long a = 0; a < (1L << P.n) && !f; a++) { double t = 0; for (long j = 0; j < P.n; j++) if (a >> j & 1) t += G(0, j); if (t == v) f = true; } c.label("family: unreachable sums"); }
        ref.feas = f; }
    else { MiOpt o; o.exp = true; o.maxint = s.chance(40) ? 2 : 0; o.maxbool = s.chance(10) ? 8 : 5; o.infeas_bias = inf_bias ? 100 : 20; M = gen_mi(c, o); ref = brute(c, M); if (!ref.ok) throw Discard(); }
    MiOut r = mi_run(c, M, g); label_cfg(c, g); label_mi(c, M, r); c.label(ref.feas ? "truth: feasible" : "truth: infeasible");
    if (c.want_note) { print_mi(c.note, M); c.note << "  " << cfg_str(g) << fmt(" -> exit %d, truth %s, branchings %ld, relaxations %ld\n", r.code, ref.feas ? "feasible" : "infeasible", r.it, r.solves); }
    std::string why = fmt(" (exit %d, value %.12g, branchings %ld) ", r.code, r.U, r.it) + cfg_str(g) + " " + M.P.shape();
    bool weak = !r.clean && (!M.ints.empty() || M.P.nex); if (weak) { bool only10 = !M.P.nex; for (int k : r.codes) if (k < 0) only10 = false; if (!only10) { c.label("not judged: a relaxation was not solved"); return; } }
    if (r.code == 1 && ref.feas) c.fail("feasible problem reported infeasible" + why);
    if ((r.code == 0 || r.code == 10) && !ref.feas) c.fail("infeasible problem reported solved" + why);
    if (r.code == 11 && r.it < g.maxit - 1) c.fail("gave up before the node budget" + why); if (r.code != 0 && r.code != 1 && r.code != 10 && r.code != 11) c.fail("undocumented exit" + why);
    if (!ref.feas && r.code == 1 && !(std::isinf(r.U) && r.U > 0)) c.fail("infeasible exit with a finite best value" + why);
    bool someinf = false; for (int k : r.codes) someinf |= k == 1; if (ref.feas ? someinf : r.it > 0) c.nontrivial(M.P.hash() ^ (uint64_t)(g.br * 8 + g.ns)); c.label("infeasible although the root relaxation is feasible", !ref.feas && !r.codes.empty() && r.codes[0] == 0);
  };
  return p;
}
