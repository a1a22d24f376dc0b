// C07: settings mean what they say (tolerances, reduced-accuracy codes, iteration limit, verbosity, defaults).
#include "gen.hpp"
#include <unistd.h>
#include <fcntl.h>
static bool same(const dvec& a, const dvec& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static bool same_sol(const Sol& a, const Sol& b) { return a.code == b.code && a.info.iter == b.info.iter && same(a.x, b.x) && same(a.y, b.y) && same(a.s, b.s) && same(a.z, b.z); }
struct Tol { double f, a, r, fi, ai, ri; };
static void put(settings* s, const Tol& t) { s->feastol = t.f; s->abstol = t.a; s->reltol = t.r; s->feastol_inacc = t.fi; s->abstol_inacc = t.ai; s->reltol_inacc = t.ri; }
// settings of the engine room: refinement and backtracking limits, step fraction, backtracking factor, centrality, regularization
static void engine_settings(Ctx& c, const Prob& P) {
  Src& s = c.s; struct E { long nit, bk, mi; double g, sc, ce; };
  auto run = [&](const E& e, double eps, double del, settings& S, dvec* D, std::vector<int>* sg) { Inst I(P); if (!I.setup(false)) c.fail("setup refused"); settings& d = *I.w->stgs;
    d.verbose = 0; d.nitref = e.nit; d.max_bk_iter = e.bk; d.maxit = e.mi; d.gamma = e.g; d.bk_scale = e.sc; d.centrality = e.ce; if (eps > 0) { d.eps = eps; d.delta = del; } S = d; Sol r = I.solve(); if (memcmp(&S, I.w->stgs, sizeof S)) c.fail("the solver changed the settings"); c.subevals++;
    if (D) { D->assign(I.w->KKT->D, I.w->KKT->D + I.w->KKT->PKPt->n); sg->assign(I.w->KKT->Sign, I.w->KKT->Sign + I.w->KKT->PKPt->n); } return r; };
  auto any = [&] { E e; e.nit = s.range(0, 12); e.bk = s.chance(50) ? s.range(1, 12) : 90; e.mi = s.chance(50) ? s.range(0, 6) : 100; e.g = s.chance(50) ? .99 : s.pos_in(.3, .99); e.sc = s.chance(50) ? .8 : s.pos_in(.2, .95); e.ce = s.chance(50) ? 1 : s.pos_in(.2, 3); return e; };
  settings S; E e = any(); Sol r = run(e, 0, 0, S, nullptr, nullptr); const stats& f = r.info;
  auto why = [&](const std::string& m) { return m + fmt(": exit %d iter %ld nitref=%ld max_bk_iter=%ld maxit=%ld gamma=%g bk_scale=%g centrality=%g ", r.code, (long)f.iter, e.nit, e.bk, e.mi, e.g, e.sc, e.ce) + P.shape(); };
  if (f.iter >= 1 ? f.nitref1 > e.nit || f.nitref2 > e.nit || f.nitref3 > e.nit : !P.nex && (f.nitref1 > e.nit || f.nitref2 > e.nit)) c.fail(why(fmt("refinement steps %ld %ld %ld exceed the limit", (long)f.nitref1, (long)f.nitref2, (long)f.nitref3)));
  if (f.iter > e.mi) c.fail(why("more iterations than allowed"));
  bool nan = std::isnan(f.step) || std::isnan(f.step_aff);
  if (f.iter >= 1 && !nan) {
    if (P.nex) { long b = (long)(f.cb + f.cob + f.pb + f.db); if (b > e.bk || f.affBack > e.bk || f.cmbBack > e.bk) c.fail(why(fmt("%ld (affine %ld, combined %ld) backtracking steps exceed the limit", b, (long)f.affBack, (long)f.cmbBack)));
      if (f.step > 0 && !(f.centrality < e.ce) && f.centrality != 1e300) c.fail(why(fmt("a step with centrality measure %g was accepted", f.centrality))); }
    if (f.step > .999 * e.g * (1 + 1e-12)) c.fail(why(fmt("step %.17g is longer than the allowed fraction", f.step)));
  }
  // the first step: same start and direction whatever these settings are
  E a = any(), b = any(); a.mi = b.mi = 1; b.nit = a.nit; if (s.chance(50)) b.g = a.g; if (s.chance(40)) { a.bk = b.bk = 90; }
  settings T; Sol x = run(a, 0, 0, S, nullptr, nullptr), y = run(b, 0, 0, T, nullptr, nullptr); const stats &u = x.info, &v = y.info;
  bool fin = std::isfinite(u.step) && std::isfinite(v.step) && std::isfinite(u.step_aff) && std::isfinite(v.step_aff);
  if (fin && u.iter == 1 && v.iter == 1) {
    auto w2 = [&](const char* m, double p, double q) { return std::string(m) + fmt(" %.12g versus %.12g; gamma %g/%g bk_scale %g/%g backtracks %ld/%ld ", p, q, a.g, b.g, a.sc, b.sc, (long)u.affBack, (long)v.affBack) + P.shape(); };
    auto eq = [](double p, double q) { return std::fabs(p - q) <= 1e-9 * std::fabs(p) + 1e-300; };
    if (!P.nex) { c.label("first step compared"); if (u.step_aff != v.step_aff) c.fail(w2("affine step of the first iteration depends on the step fraction:", u.step_aff, v.step_aff)); if (!eq(u.step / a.g, v.step / b.g)) c.fail(w2("first step is not the step fraction of the longest one:", u.step / a.g, v.step / b.g)); }
    else if (u.step_aff > 0 && v.step_aff > 0) { c.label("first step compared (exponential)"); double p = u.step_aff / (a.g * pow(a.sc, (double)u.affBack)), q = v.step_aff / (b.g * pow(b.sc, (double)v.affBack)); if (!eq(p, q)) c.fail(w2("first affine step is not fraction * factor^backtracks of the longest one:", p, q));
      if (u.affBack == 0 && v.affBack == 0 && a.g == b.g && u.step > 0 && v.step > 0) { double p2 = u.step / pow(a.sc, (double)u.cmbBack), q2 = v.step / pow(b.sc, (double)v.cmbBack); if (!eq(p2, q2)) c.fail(w2("first step is not factor^backtracks of the longest one:", p2, q2)); c.label("first combined step compared (exponential)"); } }
  }
  if (s.chance(40)) { // every pivot below eps is replaced by +-delta
    E q = any(); q.mi = s.range(0, 1); double del = s.logpos(-6, 2); dvec D; std::vector<int> sg; Sol z = run(q, 1e300, del, S, &D, &sg);
    if (z.info.iter >= 1 || !P.nex) { for (size_t i = 0; i < D.size(); i++) if (!std::isnan(D[i]) && D[i] != sg[i] * del && !(sg[i] * D[i] > 1e300)) c.fail(fmt("pivot %zu is %g although all are below eps, sign %d, delta %g ", i, D[i], sg[i], del) + P.shape()); c.label("pivots compared"); } }
}
eng::Prop make_prop() {
  Prop p; p.id = "C07"; p.quick = 650000; p.thorough = 3000000; p.min_nontrivial_pct = 50;
  p.rule = "Well-posed, infeasible, unbounded and arbitrary problems solved under generated settings: six independent tolerances (1e-10..1e-1), iteration limits, refinement steps, verbosity. Verdicts are compared with the reported residuals and the requested tolerances in both directions, loose runs with tight runs, silent runs with talking runs. Non-trivial: the settings differ from the defaults and the run made an iteration.";
  p.run = [](Ctx& c) {
    GenOpt o; o.huge_pct = 1; Prob P; Src& s = c.s; bool wp = true; int cls = s.weighted({4, 3, 2, 2, 3});
    switch (cls) { case 0: P = gen_solvable(c, o).P; break; case 1: P = gen_known_opt(c, o).P; break; case 2: P = gen_pinf(c, o).P; break; case 3: P = gen_dinf(c, o).P; break; default: P = gen_any(c, o); wp = false; }
    auto tol = [&] { return s.chance(25) ? 1e-8 : s.logpos(-10, -1); };
    Tol T{tol(), tol(), tol(), 1e-4, 5e-5, 5e-5}; if (s.chance(50)) { T.fi = s.logpos(-8, -1); T.ai = s.logpos(-8, -1); T.ri = s.logpos(-8, -1); }
    long maxit = s.chance(40) ? s.range(0, 25) : 100;
    if (c.want_note) { P.print(c.note); c.note << fmt("  feastol %g abstol %g reltol %g inacc %g %g %g maxit %ld\n", T.f, T.a, T.r, T.fi, T.ai, T.ri, maxit); }
    auto run = [&](const Tol& t, long mi, bool verbose, long nit = -1) { Inst I(P); if (!I.setup(false)) c.fail("setup refused"); 
      settings& d = *I.w->stgs;
      if (d.maxit != 100 || d.feastol != 1e-8 || d.abstol != 1e-8 || d.reltol != 1e-8 || d.feastol_inacc != 1e-4 || d.abstol_inacc != 5e-5 || d.reltol_inacc != 5e-5 || d.nitref != 9 || !d.verbose) c.fail("settings do not start at their documented defaults");
      put(&d, t); d.maxit = mi; d.verbose = verbose; if (nit >= 0) d.nitref = nit; c.subevals++; settings before; memcpy(&before, &d, sizeof d); Sol r = I.solve(); if (memcmp(&before, &d, sizeof d)) c.fail("the solve changes its settings " + P.shape()); return r; };
    Sol r = run(T, maxit, false); c.label("exit " + code_name(r.code)); const stats& f = r.info;
    auto why = [&](const char* m) { return std::string(m) + fmt(": exit %d iter %ld pres %.3g dres %.3g gap %.3g relgap %.3g pinfres %.3g dinfres %.3g; feastol %.3g abstol %.3g reltol %.3g inacc %.3g %.3g %.3g ", r.code, (long)f.iter, f.pres, f.dres, f.gap, f.relgap, f.pinfres, f.dinfres, T.f, T.a, T.r, T.fi, T.ai, T.ri) + P.shape(); };
    if (f.iter > maxit) c.fail(why("more iterations than allowed"));
    if (r.code == -1 && f.iter != maxit) c.fail(why("iteration limit reported early"));
    bool ofull = f.pres < T.f && f.dres < T.f && (f.gap < T.a || f.relgap < T.r), oin = f.pres < T.fi && f.dres < T.fi && (f.gap < T.ai || f.relgap < T.ri);
    if (r.code == 0 && !ofull) c.fail(why("'optimal' although the requested tolerances are not met"));
    if (r.code == 10 && !oin) c.fail(why("'close to optimal' although the reduced tolerances are not met"));
    if (r.code == 1 && !(f.pinfres < T.f)) c.fail(why("'infeasible' although the requested tolerance is not met"));
    if (r.code == 11 && !(f.pinfres < T.fi) && !(f.pinfres < T.f)) c.fail(why("'close to infeasible' although the reduced tolerance is not met"));
    if (r.code == 2 && !(f.dinfres < T.f)) c.fail(why("'unbounded' although the requested tolerance is not met"));
    if (r.code == 12 && !(f.dinfres < T.fi)) c.fail(why("'close to unbounded' although the reduced tolerance is not met"));
    // reduced accuracy is reported when it is reached (cost sign conditions of the optimality test evaluated on the returned point)
    if ((r.code == -1 || r.code == -2) && finite_sol(r)) { double cx = (double)dot(P.c, r.x) * r.tau, hb = (double)(dot(P.h, r.z) + dot(P.b, r.y)) * r.tau; bool sign = cx < -1e-12 || -hb >= -T.ai + 1e-12;
      if (sign && f.pres < T.fi * .999 && f.dres < T.fi * .999 && (f.gap < T.ai * .999 || f.relgap < T.ri * .999)) c.fail(why("reduced accuracy was reached but not reported")); }
    if (wp && (cls == 0 || cls == 1) && (r.code == 1 || r.code == 2)) { if (T.f <= 1e-6) c.fail(why("feasible and bounded problem declared infeasible/unbounded")); }
    // loosening every tolerance never costs iterations, and the two runs follow the same path
    int k = s.weighted({3, 3, 2, 2});
    if (k == 0) { Tol L{T.f * 10, T.a * 10, T.r * 10, T.fi, T.ai, T.ri}; Sol q = run(L, maxit, false); if (r.code >= 0 && r.code < 3 && q.info.iter > f.iter && std::isfinite(f.pres) ) { 
        // exception: a looser reltol also moves the threshold at which infeasibility certificates are considered
        if (r.code == 0) c.fail(why("looser tolerances needed more iterations")); } if (q.code == 0 && r.code == 0) { Sol u = run(T, q.info.iter, false); if (u.info.iter == q.info.iter && u.code == 0 && !same_sol(u, q)) c.fail(why("same path expected")); } c.label("compared: loosened"); }
    else if (k == 1) { // talking must not change anything
      fflush(stdout); int save = dup(1); char nm[] = "/tmp/ecosverbXXXXXX"; int fd = mkstemp(nm); unlink(nm); dup2(fd, 1); Sol q = run(T, maxit, true); fflush(stdout); long talk = lseek(fd, 0, SEEK_CUR); Sol q2 = run(T, maxit, false); fflush(stdout); long quiet = lseek(fd, 0, SEEK_CUR) - talk; dup2(save, 1); close(save); close(fd);
      if (!same_sol(q, r) || !same_sol(q2, r)) c.fail(why("verbosity changes the result")); if (quiet) c.fail(fmt("%ld bytes printed with verbose = 0", quiet)); if (!talk) c.fail("nothing printed with verbose = 1"); c.label("compared: verbose"); }
    else if (k == 2 && maxit >= f.iter) { Sol q = run(T, f.iter, false); if (r.code >= 0 && r.code < 3 && !same_sol(q, r)) c.fail(why("an iteration limit that is not exceeded changes the result")); Sol q2 = run(T, 1000, false); if (r.code >= 0 && r.code < 3 && !same_sol(q2, r)) c.fail(why("a larger iteration limit changes the result")); c.label("compared: limit"); }
    else if (k == 3 && cls == 0 && !P.nex) { Tol D{1e-8, 1e-8, 1e-8, 1e-4, 5e-5, 5e-5}; Sol a = run(D, 100, false), b = run(D, 100, false, s.range(1, 20)); if (a.code == 0 && b.code == 0) { double e = fabs(a.info.pcost - b.info.pcost) / (1 + fabs(a.info.pcost)); hist(c, "refinement limit: value change", e); if (e > 1e-5) c.fail(why("refinement limit changes the optimal value")); } c.label("compared: nitref"); }
    if (s.chance(35)) engine_settings(c, P);
    if (f.iter >= 1) c.nontrivial(P.hash() ^ (uint64_t)(1e12 * (T.f + T.a + 2 * T.r)) ^ (uint64_t)maxit);
  };
  return p;
}
