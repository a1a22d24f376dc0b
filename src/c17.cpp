// C17: results do not depend on what uninitialised memory happens to contain.
#include "hist.hpp"
#include "mi.hpp"
#include "alloc.hpp"
#include "msan.hpp"
// no decision taken on an uninitialised value so far, and nothing uninitialised is handed out
static void defined(Ctx& c, const char* what, const pwork* w, const std::string& sh) {
  if (ms::count()) c.fail(fmt("%s: %s decides on an uninitialised value ", what, ms::where().c_str()) + sh);
  if (!w) return; long k; const stats* f = w->info;
  if ((k = ms::undefined(w->x, w->n * sizeof(double))) >= 0) c.fail(fmt("%s: x[%ld] returned uninitialised ", what, k / 8) + sh);
  if ((k = ms::undefined(w->y, w->p * sizeof(double))) >= 0) c.fail(fmt("%s: y[%ld] returned uninitialised ", what, k / 8) + sh);
  if ((k = ms::undefined(w->s, w->m * sizeof(double))) >= 0) c.fail(fmt("%s: s[%ld] returned uninitialised ", what, k / 8) + sh);
  if ((k = ms::undefined(w->z, w->m * sizeof(double))) >= 0) c.fail(fmt("%s: z[%ld] returned uninitialised ", what, k / 8) + sh);
  if ((k = ms::undefined(f, offsetof(stats, sigma))) >= 0 || (k = ms::undefined(&f->mu, (const char*)&f->nitref3 - (const char*)&f->mu)) >= 0) c.fail(fmt("%s: statistic at offset %ld uninitialised ", what, k) + sh);
  if (f->iter > 0 && (ms::undefined(&f->sigma, sizeof(double)) >= 0 || ms::undefined(&f->nitref3, sizeof(idxint)) >= 0)) c.fail(fmt("%s: sigma or nitref3 uninitialised ", what) + sh);   // printed as --- before the first step
  if (ms::undefined(&f->tsetup, 8) >= 0 || ms::undefined(&f->tsolve, 8) >= 0) c.fail(fmt("%s: times uninitialised ", what) + sh);
}
eng::Prop make_prop() {
  Prop p; p.id = "C17"; p.quick = 60000; p.thorough = 600000; p.min_nontrivial_pct = 50;
  p.rule = "One history (setup, solves under settings, updates, cleanup; or mixed-integer solves, also with node budgets that leave no incumbent) is run on a MemorySanitizer build of the library: no branch, address or argument may depend on an uninitialised value, and x, y, s, z and the statistics handed out must be initialised. In a fifth of the cases it is run three times with every library allocation and the stack pre-filled with 0xFF (NaN), 0x00 and 0x3C bytes and freed blocks overwritten: exit codes, vectors and statistics must be bit-identical. Non-trivial: a solve that iterates.";
  p.run = [](Ctx& c) {
    Src& s = c.s; static const int pats[3] = {0xFF, 0x00, 0x3C}; bool eff = false; int runs = s.chance(20) ? 3 : 1; ms::reset();
    if (s.chance(70)) {
      GenOpt o; o.big_pct = 3; o.huge_pct = 1; Prob P; bool f; switch (s.weighted({5, 2, 1})) { case 0: P = gen_any(c, o); break; case 1: P = gen_unit(c, f); break; default: P = gen_known_opt(c, o).P; }
      if (s.chance(5)) P.h[s.pick(P.h.size())] = NAN;
      std::vector<int> ops; std::vector<Set> st; std::vector<std::pair<long, double>> arg; long k = s.range(1, 4); for (long t = 0; t < k; t++) { ops.push_back(t == k - 1 ? 0 : s.weighted({4, 1, 1, 1})); st.push_back(gen_set(c)); arg.push_back({s.range(0, 63), s.val(2)}); }
      Prob R = P; for (auto& v : R.h) v += s.chance(30) ? s.val(1, 8) : 0; for (auto& v : R.G.pr) if (s.chance(10)) v *= 2;
      if (c.want_note) { P.print(c.note); for (size_t t = 0; t < ops.size(); t++) c.note << "  op " << ops[t] << " " << set_str(st[t]) << "\n"; }
      std::vector<Sol> out[3];
      for (int v = 0; v < runs; v++) {
        alc::pattern = pats[v]; Inst I(P); Prob N = R; alc::pollute_stack(pats[v]); ms::fresh(); if (!I.setup()) { alc::pattern = -1; c.fail("setup refused " + P.shape()); }
        for (size_t t = 0; t < ops.size(); t++) { alc::pollute_stack(pats[v]); ms::fresh(); if (ops[t] == 1) { if (P.m) ecos_updateDataEntry_h(I.w, arg[t].first % P.m, arg[t].second); } else if (ops[t] == 2) ecos_updateDataEntry_c(I.w, arg[t].first % P.n, arg[t].second); else if (ops[t] == 3) { N = R; bool a = P.p > 0 || P.hasA; static double dz[1]; ECOS_updateData(I.w, N.G.pr.empty() ? dz : N.G.pr.data(), a ? (N.A.pr.empty() ? dz : N.A.pr.data()) : NULL, N.c.data(), N.h.data(), P.p ? N.b.data() : NULL); } else { put(I.w, st[t]); out[v].push_back(I.solve()); c.subevals++; defined(c, "solve", I.w, P.shape()); } }
        ms::fresh(); I.cleanup(); defined(c, "cleanup", nullptr, P.shape()); alc::pattern = -1;
      }
      for (auto& r : out[0]) { c.label("exit " + code_name(r.code)); if (r.info.iter > 0) eff = true; }
      for (int v = 1; v < runs; v++) for (size_t k = 0; k < out[0].size(); k++) { std::string e = diff_sol(out[0][k], out[v][k]); if (!e.empty()) c.fail(fmt("solve %zu depends on uninitialised memory: ", k + 1) + e + " " + P.shape()); }
      if (eff) c.nontrivial(P.hash());
    } else {
      MiOpt o; o.infeas_bias = 40; o.exp = s.chance(25); MiProb M = gen_mi(c, o); long maxit = s.chance(50) ? s.range(1, 6) : s.range(7, 200); int br = (int)s.range(0, 4), ns = (int)s.range(0, 2); long eta = s.range(0, 6); int reps = (int)s.range(1, 2);
      if (c.want_note) { print_mi(c.note, M); c.note << fmt("  maxit %ld branching %d selection %d\n", maxit, br, ns); }
      struct Out { int code; dvec x, y, s, z; double U; long it; }; std::vector<Out> out[3];
      for (int v = 0; v < runs; v++) {
        alc::pattern = pats[v]; MiInst I(M); I.st.maxit = maxit; I.st.branching_strategy = (enum BRANCHING_STRATEGY)br; I.st.node_selection_method = (enum NODE_SELECTION_METHOD)ns; I.st.reliable_eta = eta; alc::pollute_stack(pats[v]); ms::fresh();
        if (!I.setup()) { alc::pattern = -1; c.fail("mixed-integer setup refused"); }
        srand(7); for (int t = 0; t < reps; t++) { alc::pollute_stack(pats[v]); ms::fresh(); int code = I.solve(); auto* w = I.w; c.subevals++; defined(c, "mixed-integer solve", code == 0 || code == 10 ? w->ecos_prob : nullptr, M.P.shape()); long m2 = w->ecos_prob->m; bool sol = code == 0 || code == 10; out[v].push_back({code, sol ? I.x() : dvec(), sol ? dvec(w->y, w->y + M.P.p) : dvec(), sol ? dvec(w->s, w->s + m2) : dvec(), sol ? dvec(w->z, w->z + m2) : dvec(), w->global_U, (long)w->iter}); }
        ms::fresh(); I.cleanup(); defined(c, "cleanup", nullptr, M.P.shape()); alc::pattern = -1;
      }
      for (auto& r : out[0]) c.label(fmt("mixed: exit %d", r.code));
      for (int v = 1; v < runs; v++) for (size_t k = 0; k < out[0].size(); k++) { auto &a = out[0][k], &b = out[v][k]; const char* e = a.code != b.code ? "exit code" : a.it != b.it ? "iterations" : !same_d(a.U, b.U) ? "best value" : !same_vec(a.x, b.x) ? "x" : !same_vec(a.y, b.y) ? "y" : !same_vec(a.s, b.s) ? "s" : !same_vec(a.z, b.z) ? "z" : nullptr; if (e) c.fail(fmt("mixed-integer solve %zu: %s depends on uninitialised memory (exit %d / %d) ", k + 1, e, a.code, b.code) + M.P.shape()); }
      c.nontrivial(M.P.hash() ^ (uint64_t)(maxit * 16 + br * 4 + ns));
    }
  };
  return p;
}
