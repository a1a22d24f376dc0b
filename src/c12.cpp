// C12: the caller's arrays are given back unchanged, whatever happened in between.
#include "hist.hpp"
struct Guarded {      // an array with known words around it
  std::vector<double> m; size_t n; explicit Guarded(const dvec& v) : m(v.size() + 8, 12345.6789), n(v.size()) { std::copy(v.begin(), v.end(), m.begin() + 4); }
  double* p() { return m.data() + 4; } bool intact() const { for (int i = 0; i < 4; i++) if (m[i] != 12345.6789 || m[4 + n + i] != 12345.6789) return false; return true; } dvec get() const { return dvec(m.begin() + 4, m.begin() + 4 + n); } };
static std::string back(const char* nm, const dvec& orig, const dvec& now, double tol) {
  for (size_t i = 0; i < orig.size(); i++) { if (orig[i] == 0 ? now[i] != 0 : !(fabs(now[i] - orig[i]) <= tol * fabs(orig[i])) && !(std::isnan(orig[i]) && std::isnan(now[i])) && !(orig[i] == now[i])) return fmt("%s[%zu] was %.17g, came back as %.17g", nm, i, orig[i], now[i]); } return ""; }
eng::Prop make_prop() {
  Prop p; p.id = "C12"; p.quick = 1125000; p.thorough = 4500000; p.min_nontrivial_pct = 60;
  p.rule = "Arbitrary problems (incl. badly scaled and NaN data) in guarded arrays; a history of setup, 0..4 solves under changing settings (iteration limits, tolerances), then cleanup with a random number of kept vectors. After every solve the objective vector, and after cleanup every numeric array, must equal the original to a few roundings (exactly where zero), index arrays and cone sizes and guard words must be bit-identical, and the SIGINT disposition must be the caller's. Non-trivial: a solve was made on data whose internal scaling is not the identity.";
  p.assumptions = {"rounding allowance 1e-13 per step of the history: scaling and unscaling each entry is exact only to the last bits"};
  auto one = [](Ctx& c, Prob P, const std::vector<Set>& ops, int keep, bool own_handler) {
    Guarded G(P.G.pr), A(P.A.pr), cc(P.c), h(P.h), b(P.b); ivec gj = P.G.jc, gi = P.G.ir, aj = P.A.jc, ai = P.A.ir, q = P.q; static idxint iz[1];
    struct sigaction before, mine, after; memset(&mine, 0, sizeof mine); mine.sa_handler = SIG_IGN; sigaction(SIGINT, NULL, &before); if (own_handler) sigaction(SIGINT, &mine, NULL); struct sigaction ref; sigaction(SIGINT, NULL, &ref);
    struct Undo { struct sigaction b; ~Undo() { sigaction(SIGINT, &b, NULL); } } undo{before};
    bool a = P.p > 0 || P.hasA, g = P.m > 0;
    pwork* w = ECOS_setup(P.n, P.m, P.p, P.l, (idxint)q.size(), q.empty() ? NULL : q.data(), P.nex, g ? G.p() : NULL, g ? gj.data() : NULL, g ? (gi.empty() ? iz : gi.data()) : NULL, a ? A.p() : NULL, a ? aj.data() : NULL, a ? (ai.empty() ? iz : ai.data()) : NULL, cc.p(), g ? h.p() : NULL, P.p ? b.p() : NULL);
    if (!w) c.fail("setup refused " + P.shape());
    bool unit = unit_equil(w); std::string log; double tol = 1e-13; bool bad = false; for (double v : P.G.pr) bad |= !std::isfinite(v); for (double v : P.A.pr) bad |= !std::isfinite(v);
    for (auto& t : ops) { put(w, t); int code = (int)ECOS_solve(w); c.subevals++; log += fmt(" solve%s=%d", set_str(t).c_str(), code); c.label("exit " + code_name(code)); tol += 1e-14;
      std::string e = bad ? "" : back("c", P.c, cc.get(), tol); if (!e.empty()) { ECOS_cleanup(w, 0); c.fail("after solve: " + e + " (" + log + ") " + P.shape()); }
      sigaction(SIGINT, NULL, &after); if (after.sa_handler != ref.sa_handler || ((after.sa_flags ^ ref.sa_flags) & ~0x04000000)) { ECOS_cleanup(w, 0); c.fail("the caller's SIGINT handler was not put back after solve (" + log + ") " + P.shape()); } }
    double *x = w->x, *y = w->y, *s = w->s, *z = w->z; ECOS_cleanup(w, keep); if (keep >= 1) free(x); if (keep >= 2) free(y); if (keep >= 3) free(s); if (keep >= 4) free(z);
    if (c.want_note) { P.print(c.note); c.note << "  history:" << log << fmt(" cleanup(%d)\n", keep); }
    // a NaN or infinite coefficient spreads over the matrices through the scaling; everything else must come back
    std::string e; if (!bad) { e = back("G", P.G.pr, G.get(), tol); if (e.empty()) e = back("A", P.A.pr, A.get(), tol); if (e.empty()) e = back("h", P.h, h.get(), tol); if (e.empty()) e = back("b", P.b, b.get(), tol); if (e.empty()) e = back("c", P.c, cc.get(), tol); }
    if (!e.empty()) c.fail("after cleanup: " + e + " (" + log + ") " + P.shape());
    if (!G.intact() || !A.intact() || !cc.intact() || !h.intact() || !b.intact()) c.fail("memory around a caller array was written " + P.shape());
    if (gj != P.G.jc || gi != P.G.ir || aj != P.A.jc || ai != P.A.ir || q != P.q) c.fail("index arrays or cone sizes were changed " + P.shape());
    if (!ops.empty() && !unit) c.nontrivial(P.hash() ^ ops.size()); c.label("scaling was the identity", unit); if (bad) c.label("non-finite matrix");
  };
  p.run = [one](Ctx& c) {
    GenOpt o; o.huge_pct = 1; Src& s = c.s; Prob P; switch (s.weighted({3, 1, 1, 1, 1})) { case 0: P = gen_any(c, o); break; case 1: P = gen_solvable(c, o).P; break; case 2: P = gen_pinf(c, o).P; break; case 3: P = gen_dinf(c, o).P; break; default: { bool f; P = gen_unit(c, f); } }
    if (s.chance(8)) { std::vector<double*> t; for (auto* v : {&P.c, &P.h, &P.b, &P.G.pr, &P.A.pr}) for (auto& x : *v) t.push_back(&x); *t[s.pick(t.size())] = s.chance(60) ? NAN : INFINITY; c.label("NaN or infinite coefficient"); }
    std::vector<Set> ops; for (long k = s.weighted({1, 5, 3, 2, 1}); k > 0; k--) ops.push_back(gen_set(c));
    one(c, P, ops, (int)s.weighted({6, 1, 1, 1, 1}), s.chance(30));
  };
  return p;
}
