// C01: an "optimal" exit is certified from the caller's data alone.
#include "gen.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C01"; p.quick = 900000; p.thorough = 9000000; p.min_nontrivial_pct = 20;
  p.rule = "Random conic programs: well-posed ones (strictly feasible, planted optimum, infeasible, unbounded) and arbitrary ones (rank deficient, no interior, empty rows/columns, rescaled by 1e-3..1e3). Non-trivial: the solver said 'optimal', and m>=2; then s in K, z in K*, Gx+s=h, Ax=b, G'z+A'y+c=0 and the gap were evaluated in long double from the original arrays.";
  p.assumptions = {"'optimal' is read as the documented tolerances 1e-8 up to the loss of the equilibration: residuals 2e-6 and gap 2e-5 relative on well-scaled data, 1e-3/0.3 on arbitrary data rescaled by 1e+-3"};
  p.run = [](Ctx& c) {
    GenOpt o; o.huge_pct = 1; Prob P; bool strict = true;
    switch (c.s.weighted({4, 4, 1, 1, 6})) {
      case 0: P = gen_solvable(c, o).P; break; case 1: P = gen_known_opt(c, o).P; break; case 2: P = gen_pinf(c, o).P; break; case 3: P = gen_dinf(c, o).P; break;
      default: P = gen_any(c, o); strict = false;
    }
    Sol r = solve_once(c, P); show(c, P, r);
    c.label(std::string(strict ? "well-posed" : "arbitrary") + ": exit " + code_name(r.code));
    if (r.code != ECOS_OPTIMAL) return;
    label_shape(c, P);
    if (c.want_note) { for (long i = 0; i < P.m; i++) c.note << "  s,z[" << i << "] " << r.s[i] << " " << r.z[i] << "\n"; } Kkt k = kkt_eval(P, r); const char* w = strict ? (P.nex ? "well-posed exp" : "well-posed sym") : (P.nex ? "arbitrary exp" : "arbitrary sym");
    hist(c, std::string(w) + " residual", std::max(k.pres, k.dres)); hist(c, std::string(w) + " gap", k.gap); double mg = std::min(k.smargin, k.zmargin); if (mg < 0) hist(c, std::string(w) + " outside cone by", -mg);
    std::string e = certify_optimal(P, r, strict ? 2e-6 : 1e-3, strict ? 2e-5 : 0.3, strict ? 3e-7 : 1e-5);
    if (!e.empty()) c.fail("exit 'optimal' but " + e + "\n" + P.shape());
    if (P.m >= 2) c.nontrivial(P.hash());
  };
  return p;
}
