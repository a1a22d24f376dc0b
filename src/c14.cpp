// C14: replacing the numbers of a problem in an existing workspace is the same as setting the new problem up afresh.
#include "hist.hpp"
struct Arrays { dvec G, A, c, h, b; };
eng::Prop make_prop() {
  Prop p; p.id = "C14"; p.quick = 625000; p.thorough = 2500000; p.min_nontrivial_pct = 60;
  p.rule = "A history on one workspace: solves, whole-data updates (new arrays, the same arrays rewritten in place, some arrays shared, adjacent allocations), single-entry updates of h and c, more solves. After each solve the result is compared with a fresh workspace built from the current numbers: bit for bit after an update to new arrays or when scaling is the identity, otherwise by status and optimality. Arrays replaced by an update to disjoint memory and, at the end, the current ones must hold their original numbers. Non-trivial: at least one update followed by a solve with an iteration.";
  p.assumptions = {"when any new array overlaps the old one the caller is taken to have rewritten all shared arrays, as the interface documents"};
  p.run = [](Ctx& c) {
    Src& s = c.s; bool unit = s.chance(45), feas = true; GenOpt o; o.big_pct = 3; o.huge_pct = 1; Prob P = unit ? gen_unit(c, feas) : gen_solvable(c, o).P;
    bool zeros = s.chance(35); c.label("stored zeros appear and disappear", zeros); if (zeros && s.chance(40)) for (auto* M : {&P.G.pr, &P.A.pr}) for (auto& v : *M) if (s.chance(12)) v = 0;
    // arena: all array generations live in one block so that adjacent placements are possible
    size_t tot = P.G.pr.size() + P.A.pr.size() + P.c.size() + P.h.size() + P.b.size(); std::vector<double> arena(tot * 12 + 400, 777.0); size_t top = 8;
    struct Ptr { double *G, *A, *c, *h, *b; }; bool adjacent = s.chance(50); c.label("adjacent arrays", adjacent);
    auto alloc = [&](size_t n) { double* q = arena.data() + top; top += n + (adjacent ? 0 : 3); return q; };
    auto place = [&](const Prob& Q) { Ptr q; std::vector<int> ord = {0, 1, 2, 3, 4}; if (s.chance(50)) { auto pm = s.perm(5); for (int i = 0; i < 5; i++) ord[i] = (int)pm[i]; } double** f[5] = {&q.G, &q.A, &q.c, &q.h, &q.b}; const dvec* v[5] = {&Q.G.pr, &Q.A.pr, &Q.c, &Q.h, &Q.b}; for (int i : ord) { *f[i] = alloc(v[i]->size()); std::copy(v[i]->begin(), v[i]->end(), *f[i]); } return q; };
    Ptr cur = place(P); ivec gj = P.G.jc, gi = P.G.ir, aj = P.A.jc, ai = P.A.ir, q = P.q; bool a = P.p > 0 || P.hasA; static idxint iz[1];
    pwork* w = ECOS_setup(P.n, P.m, P.p, P.l, (idxint)q.size(), q.empty() ? NULL : q.data(), P.nex, cur.G, gj.data(), gi.empty() ? iz : gi.data(), a ? cur.A : NULL, a ? aj.data() : NULL, a ? (ai.empty() ? iz : ai.data()) : NULL, cur.c, cur.h, P.p ? cur.b : NULL);
    if (!w) c.fail("setup refused " + P.shape()); w->stgs->verbose = 0; struct Clean { pwork*& w; ~Clean() { if (w) ECOS_cleanup(w, 0); } } clean{w};
    if (c.want_note) P.print(c.note);
    std::string log; bool exact = true, updated = false, upsolve = false; int nsol = 0; Prob Q = P; long steps = s.range(2, 7); int ups = 0;
    auto near = [&](const char* nm, const double* now, const dvec& orig) { for (size_t i = 0; i < orig.size(); i++) if (!(fabs(now[i] - orig[i]) <= 1e-12 * fabs(orig[i]))) c.fail(fmt("%s[%zu] came back as %.17g instead of %.17g after", nm, i, now[i], orig[i]) + log + " " + P.shape()); };
    auto newdata = [&] {   // same pattern and sizes, new numbers, still solvable (or not, on identity-scaled data)
      Prob R = Q; if (unit) { for (auto& v : R.G.pr) if (s.chance(20)) v = -v; for (auto& v : R.A.pr) if (s.chance(20)) v = -v; } else { double f = s.logpos(-2, 2); if (s.chance(50)) f = 1; for (auto& v : R.G.pr) v *= f * s.pos_in(.95, 1.05); for (auto& v : R.A.pr) v *= f * s.pos_in(.95, 1.05); }
      if (zeros) { for (auto* M : {&R.G.pr, &R.A.pr}) for (auto& v : *M) if (v == 0 ? s.chance(40) : s.chance(12)) v = v == 0 ? (unit ? (s.chance(50) ? 1 : -1) : s.nz(1.5)) : 0; }   // entries become zero and come back
      Shape S; S.l = P.l; S.nex = P.nex; S.q = P.q; S.n = P.n; S.m = P.m; S.p = P.p; if (!unit || s.chance(60)) { dvec x = gen_vec(c, S.n, 2), s0, z0, y = gen_vec(c, S.p, 2); int_point(c, S, s0, false); int_point(c, S, z0, true); R.h = primal_rhs_h(R, x, s0); R.b = primal_rhs_b(R, x); R.c = dual_c(R, y, z0); } else { R.h = gen_vec(c, S.m, 3); R.b = gen_vec(c, S.p, 3); R.c = gen_vec(c, S.n, 3); } return R; };
    auto solve = [&](bool last) {
      Set S = last ? Set() : gen_set(c); put(w, S); int code = (int)ECOS_solve(w); nsol++; Sol r; r.code = code; r.x.assign(w->x, w->x + P.n); r.y.assign(w->y, w->y + P.p); r.s.assign(w->s, w->s + P.m); r.z.assign(w->z, w->z + P.m); r.info = *w->info; log += fmt(" solve=%d", code);
      Inst F(Q); if (!F.setup()) c.fail("setup refused"); put(F.w, S); Sol f = F.solve(); c.subevals += 2; c.label("exit " + code_name(r.code)); bool ident = unit_equil(F.w);
      if (exact || ident) { c.label("compared bit for bit"); std::string e = diff_sol(r, f); if (!e.empty()) c.fail("updated workspace differs from a fresh one: " + e + fmt(" (exit %d iter %ld versus %d %ld); history:", r.code, (long)r.info.iter, f.code, (long)f.info.iter) + log + " " + P.shape()); }
      else if (S.maxit == 100 && S.f == 1e-8 && S.nitref == 9) { c.label("compared by status and accuracy"); if (f.code == 0 && r.code != 0 && r.code != 10) c.fail("updated workspace: " + code_name(r.code) + ", a fresh one: optimal; history:" + log + " " + P.shape()); if (r.code == 0) { std::string e = certify_optimal(Q, r, 2e-5, 2e-4, 1e-6); if (!e.empty()) c.fail("updated workspace: " + e + "; history:" + log + " " + P.shape()); } }
      exact = false; if (updated && r.info.iter > 0) upsolve = true; };
    for (long t = 0; t < steps; t++) {
      int op = s.weighted({4, ups < 9 ? 3 : 0, 2, 2, 2, 1});
      if (op == 0) solve(false);
      else if (op == 1) { Prob R = newdata(); Ptr nu = place(R); ECOS_updateData(w, nu.G, a ? nu.A : NULL, nu.c, nu.h, P.p ? nu.b : NULL); log += " update(new arrays)"; near("old G", cur.G, Q.G.pr); near("old A", cur.A, Q.A.pr); near("old c", cur.c, Q.c); near("old h", cur.h, Q.h); near("old b", cur.b, Q.b); cur = nu; Q = R; exact = true; updated = true; ups++; c.label("update: new arrays"); }
      else if (op == 2) { Prob R = newdata(); std::copy(R.G.pr.begin(), R.G.pr.end(), cur.G); std::copy(R.A.pr.begin(), R.A.pr.end(), cur.A); std::copy(R.c.begin(), R.c.end(), cur.c); std::copy(R.h.begin(), R.h.end(), cur.h); std::copy(R.b.begin(), R.b.end(), cur.b); ECOS_updateData(w, cur.G, a ? cur.A : NULL, cur.c, cur.h, P.p ? cur.b : NULL); log += " update(in place)"; Q = R; exact = true; updated = true; c.label("update: in place"); }
      else if (op == 3 && P.m) { long i = (long)s.pick(P.m); double v = Q.h[i] + s.val(1, 16); if (!unit) v = Q.h[i] + (i < P.l ? fabs(s.val(1, 16)) : 0) + (i >= P.l && i < P.l + P.soc_total() ? 0 : 0); Q.h[i] = v; ecos_updateDataEntry_h(w, i, v); log += fmt(" h[%ld]=%.6g", i, v); updated = true; if (nsol && !exact) {} c.label("update: entry of h"); }
      else if (op == 4) { long j = (long)s.pick(P.n); double v = unit ? s.val(3) : Q.c[j] * s.pos_in(.98, 1.02); Q.c[j] = v; ecos_updateDataEntry_c(w, j, v); log += fmt(" c[%ld]=%.6g", j, v); updated = true; c.label("update: entry of c"); }
      else if (op == 5 && ups < 9) { Prob R = newdata(); Ptr nu = place(R); int keepw = (int)s.pick(3); if (keepw == 0) { nu.c = cur.c; std::copy(R.c.begin(), R.c.end(), nu.c); } else if (keepw == 1) { nu.h = cur.h; std::copy(R.h.begin(), R.h.end(), nu.h); } else { nu.G = cur.G; std::copy(R.G.pr.begin(), R.G.pr.end(), nu.G); } ECOS_updateData(w, nu.G, a ? nu.A : NULL, nu.c, nu.h, P.p ? nu.b : NULL); log += " update(one array shared)"; cur = nu; Q = R; exact = true; updated = true; ups++; c.label("update: one array shared"); }
    }
    solve(true);
    pwork* v = w; w = nullptr; ECOS_cleanup(v, 0); near("G", cur.G, Q.G.pr); near("A", cur.A, Q.A.pr); near("c", cur.c, Q.c); near("h", cur.h, Q.h); near("b", cur.b, Q.b);
    if (c.want_note) c.note << "  history:" << log << "\n";
    if (upsolve) c.nontrivial(P.hash() ^ (uint64_t)log.size());
  };
  return p;
}
