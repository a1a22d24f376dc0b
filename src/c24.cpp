// C24: the life of a mixed-integer workspace: repeated solves, changed settings and updated data.
#include "mi.hpp"
#include "hist.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C24"; p.quick = 108000; p.thorough = 800000; p.min_nontrivial_pct = 30;
  p.rule = "A mixed-integer workspace (conic rows, equalities, own or default settings) lives through a random history of solves, changes of strategy, tolerances and node budget (up to the one at setup), single-entry updates of h and c through the public functions. After every solve the exit and value agree with a fresh workspace given the current data, the incumbent satisfies the current data, ecos_prob holds the same solution; the caller's objective equals the current one after every solve, and after cleanup c, A, b, G, h and all index lists are the caller's. Non-trivial: at least two solves with a change in between, one of them branching.";
  p.run = [](Ctx& c) {
    Src& s = c.s; MiProb M; bool combi = s.chance(20); if (combi) { bool f; double o; M = gen_combi(c, o, f); } else { MiOpt o; o.exp = s.chance(20); o.maxbool = 6; o.maxint = s.chance(30) ? 2 : 0; o.maxcont = 3; M = gen_mi(c, o); }
    MiInst I(M); MiCfg g = gen_cfg(c, false); long max0 = s.chance(20) ? s.range(2, 20) : 1000; g.maxit = max0; put(I, g); I.use_default = s.chance(25); if (I.use_default) { g = MiCfg(); max0 = 1000; }
    dvec c0 = M.P.c; if (!I.setup()) c.fail("mixed-integer setup refused " + M.P.shape()); MiProb N = M; dvec cu = M.P.c; long k = s.range(2, 6), solves = 0; bool changed = false, branched = false, chgsolve = false; std::string log; double slack = 0;
    for (long t = 0; t < k; t++) {
      int op = t == k - 1 ? 0 : t == 0 ? s.weighted({2, 1, 1, 1}) : s.weighted({4, 3, 3, 2});
      if (op == 1) { long i; i = (long)s.pick(M.P.m); if (M.P.nex && i > M.P.m - 3) i = M.P.m - 3; double v = N.P.h[i] + (double)s.range(-3, 3) * (i < M.P.l ? 1 : 0.5); updateDataEntry_h(I.w, i, v); N.P.h[i] = v; changed = true; log += fmt(" h[%ld]=%g", i, v); c.label("op: update h"); }
      else if (op == 2) { long j = (long)s.pick(M.P.n); double v = (double)s.range(-7, 7); updateDataEntry_c(I.w, j, v); N.P.c[j] = v; changed = true; log += fmt(" c[%ld]=%g", j, v); c.label("op: update c"); }
      else if (op == 3) { MiCfg n = gen_cfg(c, false); n.maxit = s.chance(30) ? s.range(1, max0) : max0; g = n; auto& st = *I.w->stgs; st.branching_strategy = (enum BRANCHING_STRATEGY)g.br; st.node_selection_method = (enum NODE_SELECTION_METHOD)g.ns; st.maxit = g.maxit; st.reliable_eta = g.eta; st.abs_tol_gap = g.abs; st.rel_tol_gap = g.relg; st.integer_tol = g.itol; changed = true; log += " " + cfg_str(g); c.label("op: settings"); }
      else {
        MiOut r = mi_solve(c, I, g), f = mi_run(c, N, g); solves++; log += fmt(" solve=%d", r.code); c.label(fmt("exit %d", r.code)); branched |= r.it > 0; if (solves > 1 && changed) chgsolve = true; changed = false;
        std::string why = fmt(" (history:%s; value %.12g branchings %ld, fresh exit %d value %.12g branchings %ld) ", log.c_str(), r.U, r.it, f.code, f.U, f.it) + cfg_str(g) + " " + M.P.shape();
        auto weak = [&](const MiOut& q) { if (q.clean || (M.ints.empty() && !M.P.nex)) return false; for (int z : q.codes) if (z < 0) return true; return M.P.nex > 0; };
        for (long j = 0; j < M.P.n; j++) if (!(fabs(I.c[j] - N.P.c[j]) <= 1e-11 * fabs(N.P.c[j]))) c.fail(fmt("objective entry %ld is %.17g after the solve, should be %.17g", j, I.c[j], N.P.c[j]) + why);
        if (r.it > g.maxit - 1) c.fail("more branchings than the budget" + why);
        if (r.code == 0 || r.code == 10) { dvec ex(I.w->ecos_prob->x, I.w->ecos_prob->x + M.P.n); if (!bits(ex, r.x)) c.fail("ecos_prob->x is not the incumbent" + why); if (!weak(r)) { MiCfg gg = g; std::string e = mi_point(N, gg, r); if (!e.empty()) c.fail("incumbent: " + e + why); } }
        if (weak(r) || weak(f)) { c.label("values not judged: a relaxation was not solved"); continue; } double cs = 0; for (auto v : N.P.c) cs += fabs(v); double o = std::max(fabs(r.U), fabs(f.U)), tol = g.abs + 1.1 * g.relg * o + cs * g.itol * 2.02 + (M.ints.empty() ? 2e-6 : r.clean && f.clean ? 1e-4 : 1e-2) * (1 + o);
        if (r.code < 10 && f.code < 10) { if (r.code != f.code) c.fail("exit differs from a fresh workspace" + why); if (r.code == 0 && !(fabs(r.U - f.U) <= tol)) c.fail("value differs from a fresh workspace" + why); }
        else if (r.code == 10 && f.code == 0 && r.U < f.U - tol) c.fail("incumbent better than the optimum of a fresh workspace" + why); else if (f.code == 10 && r.code == 0 && f.U < r.U - tol) c.fail("optimal value worse than the incumbent of a fresh workspace" + why); else if ((f.code == 1 && r.code == 10) || (r.code == 1 && f.code == 10)) c.fail("infeasible and incumbent disagree" + why);
      }
    }
    if (c.want_note) { print_mi(c.note, M); c.note << "  history:" << log << "\n"; }
    I.cleanup(); auto near = [](const dvec& x, const dvec& y) { for (size_t i = 0; i < x.size(); i++) if (!(fabs(x[i] - y[i]) <= 1e-11 * fabs(x[i]))) return false; return true; };
    if (!near(N.P.c, I.c) || !near(M.P.A.pr, I.A.pr) || !near(M.P.b, I.b)) c.fail("caller's c, A or b not restored by cleanup (history:" + log + ") " + M.P.shape()); if (!bits(M.P.G.pr, I.G.pr) || !bits(M.P.h, I.h)) c.fail("caller's G or h changed (history:" + log + ") " + M.P.shape());
    if (M.bools != I.bi || M.ints != I.ii || M.P.G.ir != I.G.ir || M.P.G.jc != I.G.jc || M.P.A.ir != I.A.ir || M.P.A.jc != I.A.jc || M.P.q != I.q) c.fail("index arrays changed (history:" + log + ") " + M.P.shape());
    if (chgsolve && branched) c.nontrivial(M.P.hash() ^ (uint64_t)k); c.label("default settings", I.use_default); c.label("solves per history >= 3", solves >= 3);
  };
  return p;
}
