// C05: degenerate, badly scaled, hostile data: the solver terminates with a documented code and never gives a false verdict.
#include "gen.hpp"
static void poison(Ctx& c, Prob& P, double v, bool& used) {
  Src& s = c.s; std::vector<double*> t; int w = (int)s.pick(4);
  if (w == 0) for (auto& x : P.c) t.push_back(&x); if (w == 1) for (auto& x : P.h) t.push_back(&x);
  if (w == 2) for (auto& x : P.G.pr) t.push_back(&x); if (w == 3) { for (auto& x : P.b) t.push_back(&x); for (auto& x : P.A.pr) t.push_back(&x); }
  used = !t.empty(); if (used) *t[s.pick(t.size())] = v;
}
eng::Prop make_prop() {
  Prop p; p.id = "C05"; p.quick = 1200000; p.thorough = 7000000; p.min_nontrivial_pct = 50; p.cpu_limit = 20;
  p.rule = "Arbitrary problems (dependent equalities, no interior, empty rows/columns, duplicate columns, zero objective, rescaled), optionally with extreme magnitudes (1e-12..1e12, 1e+-150, 1e+-300), NaN or infinite entries, iteration limits and odd settings. Non-trivial: the case is degenerate, extreme or non-finite; termination, documented exit code, iteration bound and (for finite data of moderate size) the certificate behind every definitive verdict were checked.";
  p.assumptions = {"a definitive verdict on badly scaled finite data is judged by its certificate with wide tolerances (residual 1e-3, gap 0.3, certificate ratio 0.5) (the documented tolerances hold on equilibrated data)", "data whose magnitudes exceed 1e6 are only checked for termination, code and iteration bound, infinite data likewise (infinity arithmetic is outside the documented domain), and NaN data for never receiving a verdict"};
  p.run = [](Ctx& c) {
    GenOpt o; o.huge_pct = 1; Src& s = c.s; Prob P = gen_any(c, o); if (s.chance(30)) { GenOpt q; P = gen_any(c, q); }
    int mode = s.weighted({6, 2, 1, 2, 1}); bool nan = false, inf = false, extreme = false;
    if (mode == 1) { int k = (int)s.range(1, 4); for (int i = 0; i < k; i++) { double f = s.logpos(-12, 12), z; bool u; int w = (int)s.pick(3); if (w == 0) for (auto& x : P.c) x *= f; else if (w == 1) for (auto& x : P.h) x *= f; else if (P.G.nnz()) { long j = (long)s.pick(P.n); for (long q = P.G.jc[j]; q < P.G.jc[j + 1]; q++) P.G.pr[q] *= f; } } extreme = true; c.label("data: magnitudes 1e+-12"); }
    else if (mode == 2) { double f = s.chance(50) ? 1e150 : s.chance(50) ? 1e300 : s.chance(50) ? 1e-150 : 1e-300; bool u; for (long k = s.range(1, 3); k > 0; k--) poison(c, P, f * s.nz(1, 8), u); extreme = true; c.label("data: magnitudes 1e+-150..300"); }
    else if (mode == 3) { poison(c, P, NAN, nan); c.label("data: NaN"); }
    else if (mode == 4) { poison(c, P, s.chance(50) ? INFINITY : -INFINITY, inf); c.label("data: infinite"); }
    else c.label("data: finite, moderate");
    if (c.want_note) P.print(c.note);
    Inst I(P); if (!I.setup()) c.fail("setup refused a consistent problem " + P.shape());
    long maxit = 100; if (s.chance(10)) { maxit = s.range(0, 30); I.w->stgs->maxit = maxit; }
    if (s.chance(5)) I.w->stgs->nitref = s.range(0, 12);
    Sol r = I.solve(); c.subevals++; show(c, P, r);
    c.label(std::string(nan ? "NaN" : inf ? "inf" : extreme ? "extreme" : "moderate") + ": exit " + code_name(r.code));
    if (code_name(r.code).find("undocumented") != std::string::npos || r.code == -4) c.fail("exit code " + code_name(r.code));
    if (r.info.iter > maxit || r.info.iter < 0) c.fail(fmt("%ld iterations with a limit of %ld", (long)r.info.iter, maxit));
    if (nan && r.code >= 0) c.fail("a problem with a NaN coefficient was declared " + code_name(r.code));
    if (!nan && !inf && !extreme) {
      std::string e; double q = 0;
      if (r.code == 0) e = certify_optimal(P, r, 1e-3, 0.3, 1e-5);
      if (r.code == 1) { e = certify_pinf(P, r, 0.5, 1e-5, &q); hist(c, "infeasibility certificate", q); }
      if (r.code == 2) { e = certify_dinf(P, r, 0.5, 1e-5, &q); hist(c, "unboundedness certificate", q); }
      if (r.code == 10 || r.code == 11 || r.code == 12) { if (!finite_sol(r)) e = "non-finite point"; }
      if (!e.empty()) c.fail("exit " + code_name(r.code) + " but " + e + " " + P.shape());
    }
    c.nontrivial(P.hash());
  };
  return p;
}
