// C23: the node budget, the incumbent and the bounds of a mixed-integer solve.
#include "mi.hpp"
#include "hist.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C23"; p.quick = 87500; p.thorough = 600000; p.min_nontrivial_pct = 25;
  p.rule = "One mixed-integer program with known optimum (enumeration) is run with node budgets M1 < M2 < unlimited under one strategy and rand() seed. Branchings stay below the budget and the number of relaxations is bounded by it; the exit says whether the budget ended the search and whether an incumbent exists; the incumbent is integral, feasible, never better than the optimum; min(lower bound, incumbent) never exceeds the optimum; a larger budget never gives a worse incumbent; a budget the search does not need changes no bit of the result. Non-trivial: the smaller budget stops a search that would go on.";
  p.run = [](Ctx& c) {
    Src& s = c.s; MiCfg g = gen_cfg(c, false); MiProb M; MiRef ref; if (s.chance(35)) { bool f; double o; M = s.chance(5) ? gen_big(c, o, f) : gen_combi(c, o, f); ref.feas = f; ref.opt = o; } else { MiOpt o; o.exp = true; o.maxbool = s.chance(15) ? 8 : 6; o.maxint = s.chance(30) ? 2 : 0; o.infeas_bias = 25; M = gen_mi(c, o); ref = brute(c, M); if (!ref.ok) throw Discard(); }
    long nv = (long)(M.bools.size() + M.ints.size()); MiCfg gu = g; gu.maxit = s.chance(20) ? 200 : 1000; MiOut u = mi_run(c, M, gu); long m1 = s.range(1, std::min<long>(u.it + 2, 60)), m2 = m1 + s.range(1, 12);
    MiCfg g1 = g, g2 = g; g1.maxit = m1; g2.maxit = m2; MiOut a = mi_run(c, M, g1), b = mi_run(c, M, g2); label_cfg(c, g); label_mi(c, M, a); c.label(ref.feas ? "truth: feasible" : "truth: infeasible");
    if (c.want_note) { print_mi(c.note, M); c.note << "  " << cfg_str(g) << fmt(" optimum %.12g: ", ref.opt); for (auto* r : {&a, &b, &u}) c.note << fmt(" exit %d value %.12g lower %.12g branchings %ld relaxations %ld;", r->code, r->U, r->L, r->it, r->solves); c.note << "\n"; }
    auto weak = [&](const MiOut& r) { if (r.clean || (M.ints.empty() && !M.P.nex)) return false; for (int k : r.codes) if (k < 0) return true; return M.P.nex > 0; };
    double cs = 0; for (auto v : M.P.c) cs += fabs(v);
    auto one = [&](const MiOut& r, const MiCfg& q) {
      std::string why = fmt(" (budget %ld: exit %d value %.12g lower bound %.12g optimum %.12g branchings %ld relaxations %ld) ", q.maxit, r.code, r.U, r.L, ref.opt, r.it, r.solves) + cfg_str(q) + " " + M.P.shape(); bool inc = r.U < INFINITY;
      if (r.it > q.maxit - 1) c.fail("more branchings than the node budget allows" + why); long per = g.br == 1 || g.br == 3 ? 3 + 2 * nv : 2; if (r.solves > (1 + 2 * r.it) * per) c.fail("more relaxations than the tree needs" + why);
      int want = r.it < q.maxit - 1 ? (inc ? 0 : 1) : (inc ? 10 : 11); if (r.code != want) c.fail(fmt("exit code should be %d", want) + why);
      if (weak(r)) { c.label("values not judged: a relaxation was not solved"); return; } double tol = (M.ints.empty() ? 1e-6 : r.clean ? 1e-4 : 1e-2) * (1 + (ref.feas ? fabs(ref.opt) : 1)) + cs * g.itol * 1.01;
      if (inc) { if (!ref.feas) c.fail("incumbent of an infeasible problem" + why); std::string e = mi_point(M, q, r); if (!e.empty()) c.fail("incumbent: " + e + why); if (r.U < ref.opt - tol) c.fail("incumbent better than the optimum" + why); }
      if (ref.feas && std::min(r.U, r.L) > ref.opt + tol) c.fail("lower bound above the optimum" + why); if (ref.feas && r.code == 1) c.fail("feasible problem reported infeasible" + why);
      if (r.code == 1 && !(r.L == INFINITY)) c.fail("search complete without a solution, but the lower bound is not infinite" + why);
      if (r.code == 0 && !(r.L >= r.U - mi_gap(q, ref, M) - tol)) c.fail("search complete, but the lower bound does not match the value" + why);
      if (ref.feas && r.code == 0 && r.U > ref.opt + mi_gap(q, ref, M) + tol) c.fail("not optimal" + why); };
    one(a, g1); one(b, g2); one(u, gu); std::string why = fmt(" (budgets %ld/%ld: value %.12g lower %.12g exit %d, value %.12g lower %.12g exit %d) ", m1, m2, a.U, a.L, a.code, b.U, b.L, b.code) + cfg_str(g) + " " + M.P.shape();
    if (b.U > a.U) c.fail("a larger node budget gives a worse incumbent" + why); if (u.U > b.U && gu.maxit > m2) c.fail("the unlimited run ends with a worse incumbent" + why);
    if (!weak(b) && b.it > a.it && b.L < a.L - 1e-6 * (1 + fabs(a.L)) && M.ints.empty() && std::isfinite(a.L)) c.fail("a larger node budget gives a worse lower bound" + why);
    auto same = [&](const MiOut& x, const MiOut& y, const char* what) { if (x.code != y.code || x.it != y.it || !same_d(x.U, y.U) || !same_d(x.L, y.L) || !same_vec(x.x, y.x) || !same_vec(x.s, y.s) || !same_vec(x.z, y.z) || !same_vec(x.y, y.y) || x.codes != y.codes) c.fail(std::string("a node budget the search does not need changes the result, ") + what + why); };
    if (u.it < m1 - 1) same(a, u, "smaller"); if (u.it < m2 - 1) same(b, u, "larger"); if (u.it >= m1) c.nontrivial(M.P.hash() ^ (uint64_t)m1); c.label("budget ends the search", u.it >= m1); c.label("budget ends it with an incumbent", u.it >= m1 && a.code == 10);
  };
  return p;
}
