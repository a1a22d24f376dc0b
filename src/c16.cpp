// C16: memory safety and exact allocation balance over the whole public interface.
#include "hist.hpp"
#include "mi.hpp"
#include "alloc.hpp"
#include <unistd.h>
#include <fcntl.h>
// heap copies with no slack, so that a sanitizer red zone follows immediately
template <class T> struct Ex { T* p; size_t n; explicit Ex(const std::vector<T>& v) : p(new T[v.size()]), n(v.size()) { std::copy(v.begin(), v.end(), p); } ~Ex() { delete[] p; } Ex(const Ex&) = delete; };
static void quiet_stdout(bool on) { static int save = -1; fflush(stdout); if (on) { if (save < 0) save = dup(1); int d = open("/dev/null", O_WRONLY); dup2(d, 1); close(d); } else dup2(save, 1); }
static void conic(Ctx& c, Prob P) {
  Src& s = c.s; Ex<double> G(P.G.pr), A(P.A.pr), cc(P.c), h(P.h), b(P.b); Ex<idxint> gj(P.G.jc), gi(P.G.ir), aj(P.A.jc), ai(P.A.ir), q(P.q); bool a = P.p > 0 || P.hasA, g = P.m > 0; std::string log;
  std::vector<std::unique_ptr<Ex<double>>> later; long bad = 0; if (s.chance(12)) bad = s.chance(50) ? 1 : -1;     // inconsistent dimension
  pwork* w = ECOS_setup(P.n, P.m, P.p, P.l + bad, (idxint)P.q.size(), P.q.empty() ? NULL : q.p, P.nex, g ? G.p : NULL, g ? gj.p : NULL, g ? gi.p : NULL, a ? A.p : NULL, a ? aj.p : NULL, a ? ai.p : NULL, cc.p, g ? h.p : NULL, P.p ? b.p : NULL);
  if (bad) { c.label("inconsistent dimensions"); if (w) { ECOS_cleanup(w, 0); c.fail("setup accepted inconsistent dimensions " + P.shape()); } return; }
  if (!w) c.fail("setup refused " + P.shape()); bool verbose = s.chance(4);
  long steps = s.range(0, 4); if (verbose) quiet_stdout(true);
  for (long t = 0; t < steps; t++) { int op = s.weighted({5, 1, 1, 1}); 
    if (op == 0) { Set S = gen_set(c); put(w, S); w->stgs->verbose = verbose; int code = (int)ECOS_solve(w); c.subevals++; c.label("exit " + code_name(code)); }
    else if (op == 1 && P.m) ecos_updateDataEntry_h(w, (idxint)s.pick(P.m), s.val(3)); else if (op == 2) ecos_updateDataEntry_c(w, (idxint)s.pick(P.n), s.val(3));
    else if (op == 3 && g) { auto nu = [&](const dvec& v) { dvec u = v; for (auto& x : u) x += s.val(.1, 8); later.emplace_back(new Ex<double>(u)); return later.back()->p; }; double* n1 = nu(P.G.pr); double* n2 = a ? nu(P.A.pr) : NULL; double* n3 = nu(P.c); double* n4 = nu(P.h); double* n5 = P.p ? nu(P.b) : NULL; ECOS_updateData(w, n1, n2, n3, n4, n5); c.label("update"); } }
  if (verbose) quiet_stdout(false);
  int keep = (int)s.weighted({6, 1, 1, 1, 1}); double* v[4] = {w->x, w->y, w->s, w->z}; long len[4] = {P.n, P.p, P.m, P.m}; dvec val[4]; for (int k = 0; k < keep; k++) val[k].assign(v[k], v[k] + len[k]);
  ECOS_cleanup(w, keep); c.label(fmt("cleanup keeping %d", keep));
  for (int k = 0; k < keep; k++) { for (long i = 0; i < len[k]; i++) if (!same_d(v[k][i], val[k][i])) c.fail(fmt("vector %d kept by cleanup(%d) changed", k, keep)); }
  auto* fr = (void (*)(void*))nullptr; (void)fr; for (int k = 0; k < keep; k++) free(v[k]);
}
static void mixed(Ctx& c) {
  Src& s = c.s; MiOpt o; o.maxB = 3; o.exp = s.chance(25); MiProb M = gen_mi(c, o); auto& P = M.P;
  Ex<double> G(P.G.pr), A(P.A.pr), cc(P.c), h(P.h), b(P.b); Ex<idxint> gj(P.G.jc), gi(P.G.ir), aj(P.A.jc), ai(P.A.ir), q(P.q), bi(M.bools), ii(M.ints); bool a = P.p > 0 || P.hasA; long bad = s.chance(10) ? 1 : 0;
  settings_bb* st = NULL; settings_bb own; if (s.chance(80)) { settings_bb* d = get_default_ECOS_BB_settings(); own = *d; free(d); own.verbose = 0; own.maxit = s.chance(60) ? s.range(1, 12) : 300; own.branching_strategy = (enum BRANCHING_STRATEGY)s.range(0, 4); own.node_selection_method = (enum NODE_SELECTION_METHOD)s.range(0, 2); own.reliable_eta = s.range(0, 6); st = &own; }
  ecos_bb_pwork* w = ECOS_BB_setup(P.n, P.m, P.p, P.l + bad, (idxint)P.q.size(), P.q.empty() ? NULL : q.p, P.nex, G.p, gj.p, gi.p, a ? A.p : NULL, a ? aj.p : NULL, a ? ai.p : NULL, cc.p, h.p, P.p ? b.p : NULL, (idxint)M.bools.size(), M.bools.empty() ? NULL : bi.p, (idxint)M.ints.size(), M.ints.empty() ? NULL : ii.p, st);
  if (bad) { if (w) { ECOS_BB_cleanup(w, 0); c.fail("mixed-integer setup accepted inconsistent dimensions"); } c.label("mixed: inconsistent dimensions"); return; }
  if (!w) c.fail("mixed-integer setup refused " + P.shape()); if (!st) w->stgs->verbose = 0;
  long n = s.range(0, 2); for (long t = 0; t < n; t++) { int code = (int)ECOS_BB_solve(w); c.subevals++; c.label(fmt("mixed: exit %d", code)); if (s.chance(40)) updateDataEntry_h(w, (idxint)s.pick(P.m), P.h[0] + s.val(1)); if (s.chance(40)) updateDataEntry_c(w, (idxint)s.pick(P.n), s.val(3)); }
  ECOS_BB_cleanup(w, 0);
}
eng::Prop make_prop() {
  Prop p; p.id = "C16"; p.quick = 180000; p.thorough = 1500000; p.min_nontrivial_pct = 50;
  p.rule = "Library built with address and undefined-behaviour sanitizers. Arbitrary problems (every cone mix, empty matrices, degenerate or NaN data, inconsistent dimensions) in exact-size heap arrays; histories of setup, solves under settings (verbose or not), entry and whole-data updates, cleanup keeping 0..4 vectors; mixed-integer histories with every branching rule and small node budgets. Any sanitizer report, any change of a kept vector, any allocation not released (or released twice) fails. Non-trivial: at least one solve.";
  p.run = [](Ctx& c) {
    Src& s = c.s; long l0 = alc::live, t0 = alc::total; bool mi = s.chance(25); uint64_t h = 0;
    if (mi) mixed(c);
    else { GenOpt o; o.big_pct = 3; o.huge_pct = 1; Prob P; switch (s.weighted({4, 2, 1})) { case 0: P = gen_any(c, o); break; case 1: { bool f; P = gen_unit(c, f); break; } default: P = gen_solvable(c, o).P; }
      if (s.chance(10)) { std::vector<double*> t; for (auto* v : {&P.c, &P.h, &P.b, &P.G.pr, &P.A.pr}) for (auto& x : *v) t.push_back(&x); *t[s.pick(t.size())] = s.chance(40) ? NAN : s.chance(50) ? INFINITY : 1e200; c.label("hostile coefficient"); }
      if (s.chance(4)) { P.m = 0; P.l = 0; P.nex = 0; P.q.clear(); P.h.clear(); P.G = Csc(); P.G.n = P.n; P.G.jc.assign(P.n + 1, 0); if (P.p == 0) { P.p = 1; P.A = Csc(); P.A.m = 1; P.A.n = P.n; P.A.jc = {0}; for (long j = 0; j < P.n; j++) { P.A.ir.push_back(0); P.A.pr.push_back(1); P.A.jc.push_back(j + 1); } P.b = {1}; } c.label("no conic rows"); }
      if (c.want_note) P.print(c.note); h = P.hash(); conic(c, P); }
    if (alc::live != l0) c.fail(fmt("%ld allocations were %s after cleanup", labs(alc::live - l0), alc::live > l0 ? "still held" : "released too often"));
    if (alc::total > t0) c.nontrivial(h ^ (uint64_t)(alc::total - t0) ^ ((uint64_t)c.subevals << 40) ^ (mi ? 99991ull * c.s.rec.size() + c.s.rec[c.s.rec.size() / 2] : 0));
  };
  return p;
}
