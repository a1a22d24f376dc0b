// C13: solving again on the same workspace gives what a fresh workspace gives.
#include "hist.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C13"; p.quick = 600000; p.thorough = 2400000; p.min_nontrivial_pct = 60;
  p.rule = "A history of 2..5 solves on one workspace under changing settings (iteration limits, tolerances, refinement steps). After each solve the result is compared with a fresh workspace under the same settings: bit for bit (vectors, exit code, iterations, statistics) on data whose internal scaling is the identity, otherwise by status and optimality of the original problem. Non-trivial: at least two solves with an iteration each.";
  p.assumptions = {"on general data every solve perturbs the objective vector by a rounding (it is scaled and unscaled in place), so only status and accuracy are compared there, for problems with an optimum"};
  p.run = [](Ctx& c) {
    Src& s = c.s; Prob P; bool feas = true, unit = s.chance(75); GenOpt o; o.huge_pct = 1; if (unit) P = gen_unit(c, feas); else P = gen_solvable(c, o).P;
    Inst I(P); if (!I.setup()) c.fail("setup refused " + P.shape()); bool u = unit_equil(I.w); if (c.want_note) P.print(c.note);
    c.label(u ? "scaling is the identity (bitwise)" : "general scaling (tolerance)"); std::string log; int eff = 0; long k = s.range(2, 5);
    for (long t = 0; t < k; t++) {
      Set S = gen_set(c); if (!u) S.f = S.a = S.r = 1e-8, S.nitref = 9; if (t == k - 1 && s.chance(70)) S = Set();
      put(I.w, S); Sol r = I.solve(); log += " " + set_str(S) + fmt("=%d/%ld", r.code, (long)r.info.iter); c.subevals += 2; if (c.want_note) c.note << "  solve " << set_str(S) << " -> exit " << r.code << " iter " << r.info.iter << "\n";
      Inst F(P); F.setup(); put(F.w, S); Sol f = F.solve(); c.label("exit " + code_name(r.code)); if (r.info.iter > 0) eff++;
      if (u) { std::string e = diff_sol(r, f); if (!e.empty()) c.fail(fmt("solve number %ld on the same workspace differs from a fresh one: ", t + 1) + e + fmt(" (exit %d iter %ld versus %d %ld); history", r.code, (long)r.info.iter, f.code, (long)f.info.iter) + log + " " + P.shape()); }
      else if (S.maxit == 100) {
        if (f.code == 0 && r.code != 0 && r.code != 10) c.fail("solve number " + fmt("%ld", t + 1) + " on the same workspace: " + code_name(r.code) + ", a fresh one: optimal; history" + log + " " + P.shape());
        if (r.code == 0) { std::string e = certify_optimal(P, r, 2e-5, 2e-4, 1e-6); if (!e.empty()) c.fail("repeated solve: " + e + log + " " + P.shape()); }
      } else if (r.code != f.code && !(r.code == -1 || f.code == -1)) c.fail(fmt("limited solve number %ld: exit %d, fresh workspace %d; history", t + 1, r.code, f.code) + log + " " + P.shape());
    }
    if (eff >= 2) c.nontrivial(P.hash() ^ (uint64_t)k);
  };
  return p;
}
