// C04: unbounded problems are reported as such, with a descent ray.
#include "structured.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C04"; p.quick = 1000000; p.thorough = 6000000; p.min_nontrivial_pct = 50;
  p.rule = "Problems made unbounded by a planted feasible point and a planted interior ray of descent (all cones, with equalities), structured unbounded families, and batches of 40 (60%: all of one generated shape) for the success rate. Non-trivial: the problem is unbounded by construction and the verdict plus the ray c'x<0, Gx+s=0, Ax=0, s in K were checked against the original data.";
  p.assumptions = {"a numerical-failure exit is tolerated in rare cases of the random exponential/large class (measured <1%), never another verdict"};
  p.run = [](Ctx& c) {
    GenOpt o; o.huge_pct = 1;
    auto one = [&](const Prob& P, bool must, const std::string& what) -> bool {
      Sol r = solve_once(c, P); show(c, P, r); c.label(what + (P.nex ? " exp" : " sym") + ": exit " + code_name(r.code));
      if (r.code == ECOS_DINF || r.code == 12) {
        double q = -1; std::string e = certify_dinf(P, r, r.code == 12 ? 1e-1 : 2e-3, 3e-7, &q);
        if (r.code == ECOS_DINF) hist(c, "certificate residual", q);
        if (!e.empty()) c.fail("exit " + code_name(r.code) + " but " + e + " " + P.shape());
        if (r.code == ECOS_DINF) return true;
      } else if (r.code != -1 && r.code != -2) c.fail("an unbounded problem (" + what + ") ended with exit " + code_name(r.code) + " " + P.shape());
      if (must) c.fail("unbounded problem '" + what + "' not recognised: exit " + code_name(r.code) + " " + P.shape());
      return false;
    };
    int k = c.s.weighted({10, 7, 1});
    if (k == 0) { Known K = gen_dinf(c, o); label_shape(c, K.P); one(K.P, false, "planted"); c.nontrivial(K.P.hash()); }
    else if (k == 1) { Closed F = gen_struct_dinf(c); one(F.P, F.P.nex == 0, F.name); c.nontrivial(F.P.hash()); }
    else {
      int bad = 0, tot = 0; GenOpt q = o; Shape S; gen_theme(c, q, S);
      for (int i = 0; i < 40; i++) { try { Known K = gen_dinf(c, q); tot++; if (!one(K.P, false, "planted")) bad++; c.nontrivial(K.P.hash()); } catch (const Discard&) {} }
      c.label(fmt("batch %s: %d failures of 40", q.fixed ? "one" : q.big_pct == 30 ? "big" : "the", bad)); if (bad >= (q.fixed ? 12 : 7)) c.fail(fmt("%d of %d unbounded problems were not recognised", bad, tot));
    }
  };
  return p;
}
