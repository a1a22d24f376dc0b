// C02: problems that have strictly feasible primal and dual points are solved, to the right value.
#include "gen.hpp"
#include "closed.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C02"; p.quick = 500000; p.thorough = 6000000; p.min_nontrivial_pct = 50;
  p.rule = "Problems with a planted optimal primal-dual pair, problems with planted interior points on both sides (optimal value bracketed), closed-form families (box/simplex/assignment LPs, balls, point-hyperplane distance, medians, Chebyshev centre, log-sum-exp, entropy, weighted logs), and batches of 40 (60%: all of one generated shape, so that a failure confined to some shapes cannot hide) to judge the success rate. Non-trivial: the optimal value was known and compared.";
  p.assumptions = {"general planted problems may end with a numerical failure in rare cases (measured 0.1-0.3%); they are never given a wrong verdict, and no batch of 40 may have 7 failures (12 when all have one shape; measured worst 5)", "closed-form and symmetric-cone interior problems must all be solved"};
  p.run = [](Ctx& c) {
    GenOpt o; o.huge_pct = 1;
    auto one = [&](const Known& K, bool must, double tol) -> bool {
      Sol r = solve_once(c, K.P); show(c, K.P, r); std::string fam = K.P.nex ? "exp" : "sym";
      c.label((K.exact ? "planted optimum " : "planted interior ") + fam + ": exit " + code_name(r.code));
      if (r.code == 1 || r.code == 11 || r.code == 2 || r.code == 12) c.fail("a problem with a known optimum was declared " + code_name(r.code) + "\n" + K.P.shape());
      if (r.code != 0 && r.code != 10) { if (must) c.fail("a benign problem was not solved: exit " + code_name(r.code) + " " + K.P.shape()); if (r.code != -1 && r.code != -2) c.fail("exit " + code_name(r.code)); return false; }
      double t = (r.code == 10 ? 1e-2 : tol); double sc = 1 + std::max(fabs(K.pfeas), fabs(K.dfeas));
      double v = (double)dot(K.P.c, r.x), lo = (K.dfeas - v) / sc, hi = (v - K.pfeas) / sc;
      if (r.code == 0) hist(c, fam + " value error", std::max(lo, hi));
      if (!(lo <= t && hi <= t)) c.fail(fmt("optimal value %.12g is outside the known range [%.12g, %.12g] (exit %d) %s", v, K.dfeas, K.pfeas, r.code, K.P.shape().c_str()));
      if (r.code == 0) { hist(c, "iterations/10: ", 1); c.label(fmt("iterations %s", r.info.iter <= 20 ? "<=20" : r.info.iter <= 40 ? "<=40" : r.info.iter <= 60 ? "<=60" : ">60")); }
      return true;
    };
    int k = c.s.weighted({10, 10, 12, 2});
    if (k == 0) { Known K = gen_solvable(c, o); label_shape(c, K.P); one(K, K.P.nex == 0, 2e-5); c.nontrivial(K.P.hash()); }
    else if (k == 1) { Known K = gen_known_opt(c, o); label_shape(c, K.P); one(K, false, K.P.nex ? 2e-5 : 1e-6); c.nontrivial(K.P.hash()); }
    else if (k == 2) {
      Closed F = gen_closed(c); Sol r = solve_once(c, F.P); show(c, F.P, r); c.label("closed form " + F.name + ": exit " + code_name(r.code));
      if (r.code != 0) c.fail("closed-form problem '" + F.name + "' not solved: exit " + code_name(r.code) + " " + F.P.shape());
      double v = (double)dot(F.P.c, r.x); double e = fabs(v - F.opt) / (1 + fabs(F.opt)); hist(c, "closed form value error", e);
      if (!(e <= 1e-5)) c.fail(fmt("closed form '%s': value %.12g, should be %.12g", F.name.c_str(), v, F.opt));
      c.nontrivial(F.P.hash());
    } else {
      int bad = 0, tot = 0; GenOpt q = o; Shape S; gen_theme(c, q, S);
      for (int i = 0; i < 40; i++) { try { Known K = c.s.chance(50) ? gen_solvable(c, q) : gen_known_opt(c, q); tot++; if (!one(K, false, 2e-5)) bad++; c.nontrivial(K.P.hash()); } catch (const Discard&) {} }
      c.label(fmt("batch %s: %d failures of 40", q.fixed ? "one" : q.big_pct == 30 ? "big" : "the", bad)); if (bad >= (q.fixed ? 12 : 7)) c.fail(fmt("%d of %d well-posed problems were not solved", bad, tot));
    }
  };
  return p;
}
