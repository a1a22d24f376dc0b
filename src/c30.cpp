// C30: equilibration is a scaling and nothing else.
#include "kern.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C30"; p.quick = 1600000; p.thorough = 10000000; p.min_nontrivial_pct = 50;
  p.rule = "Problems with any cones, entries over up to 16 decades, empty rows and columns, no A or an empty A. After setup the workspace must hold G, A, b, h divided by positive finite scales that are constant over every second-order and exponential cone, c untouched; data already balanced are left nearly alone and badly scaled rows and columns are brought together; after any number of solves and data updates with arrays that are the caller's own or new, cleanup gives the original numbers back to rounding. Non-trivial: a scale differs from 1.";
  p.run = [](Ctx& c) {
    Src& s = c.s; GenOpt o; o.big_pct = 5; o.huge_pct = 1; Shape S = gen_shape(c, o); if (S.m == 0) throw Discard(); Prob P; Dense G(S.m, S.n), A(S.p, S.n); fill_random(c, G, S.density, 2); fill_random(c, A, S.density, 2); double w = s.chance(60) ? s.pos_in(0, 4) : 0; dvec rg(S.m, 1.0), ra(S.p, 1.0), cx(S.n, 1.0); for (auto& v : rg) v = s.logpos(-w, w); for (auto& v : ra) v = s.logpos(-w, w); for (auto& v : cx) v = s.logpos(-w, w); for (long j = 0; j < S.n; j++) { for (long i = 0; i < S.m; i++) G(i, j) *= rg[i] * cx[j]; for (long i = 0; i < S.p; i++) A(i, j) *= ra[i] * cx[j]; }
    assemble(S, G, A, P); P.h = gen_vec(c, S.m, 3); P.b = gen_vec(c, S.p, 3); P.c = gen_vec(c, S.n, 3); P.hasA = S.p > 0 || s.chance(30); if (c.want_note) P.print(c.note);
    Inst I(P); if (!I.setup()) c.fail("setup refused " + P.shape()); pwork* W = I.w; std::string sh = " " + P.shape(); label_shape(c, P);
    auto scales = [&](const Prob& Q, const char* when) {
#if defined EQUILIBRATE && EQUILIBRATE > 0
      const pfloat *x = W->xequil, *a = W->Aequil, *g = W->Gequil; bool hasA = P.p > 0 || P.hasA; bool nontr = false;
      for (long j = 0; j < P.n; j++) { if (!(x[j] > 0) || !std::isfinite(x[j])) c.fail(fmt("column scale %ld is %g ", j, x[j]) + when + sh); nontr |= fabs(x[j] - 1) > 1e-9; } for (long i = 0; i < P.m; i++) if (!(g[i] > 0) || !std::isfinite(g[i])) c.fail(fmt("row scale %ld of G is %g ", i, g[i]) + when + sh); for (long i = 0; i < P.p; i++) if (!(a[i] > 0) || !std::isfinite(a[i])) c.fail(fmt("row scale %ld of A is %g ", i, a[i]) + when + sh);
      long k = P.l; for (auto d : P.q) { for (long i = 1; i < d; i++) if (!(fabs(g[k + i] - g[k]) <= 1e-14 * g[k])) c.fail(fmt("scales differ inside a second-order cone (%.17g, %.17g) ", g[k], g[k + i]) + when + sh); k += d; } for (long e = 0; e < P.nex; e++, k += 3) for (long i = 1; i < 3; i++) if (!(fabs(g[k + i] - g[k]) <= 1e-14 * g[k])) c.fail(fmt("scales differ inside an exponential cone (%.17g, %.17g) ", g[k], g[k + i]) + when + sh);
      auto close = [&](double v, ld ref, const char* what, long i) { if (!(fabsl(v - ref) <= 4e-15L * fabsl(ref))) c.fail(fmt("%s entry %ld is %.17g %s, the scaled original is %.17Lg", what, i, v, when, ref) + sh); };
      for (long j = 0; j < P.n; j++) for (long q = Q.G.jc[j]; q < Q.G.jc[j + 1]; q++) { close(W->G->pr[q], (ld)Q.G.pr[q] / x[j] / g[Q.G.ir[q]], "G", q); if (W->G->ir[q] != Q.G.ir[q]) c.fail("pattern of G changed" + sh); } if (hasA && P.p) for (long j = 0; j < P.n; j++) for (long q = Q.A.jc[j]; q < Q.A.jc[j + 1]; q++) close(W->A->pr[q], (ld)Q.A.pr[q] / x[j] / a[Q.A.ir[q]], "A", q);
      for (long i = 0; i < P.m; i++) close(W->h[i], (ld)Q.h[i] / g[i], "h", i); for (long i = 0; i < P.p; i++) close(W->b[i], (ld)Q.b[i] / a[i], "b", i); for (long j = 0; j < P.n; j++) if (!(fabs(W->c[j] - Q.c[j]) <= 1e-14 * fabs(Q.c[j]))) c.fail(fmt("c entry %ld is %.17g %s, was %.17g", j, W->c[j], when, Q.c[j]) + sh);
      // effect: largest entry of each column and each row (cone) group
      dvec cm(P.n, 0.0), rm(P.m, 0.0), am(P.p, 0.0), c0(P.n, 0.0), r0(P.m, 0.0), a0(P.p, 0.0); for (long j = 0; j < P.n; j++) { for (long q = Q.G.jc[j]; q < Q.G.jc[j + 1]; q++) { double v = fabs(W->G->pr[q]), u = fabs(Q.G.pr[q]); cm[j] = std::max(cm[j], v); rm[Q.G.ir[q]] = std::max(rm[Q.G.ir[q]], v); c0[j] = std::max(c0[j], u); r0[Q.G.ir[q]] = std::max(r0[Q.G.ir[q]], u); } if (hasA && P.p) for (long q = Q.A.jc[j]; q < Q.A.jc[j + 1]; q++) { double v = fabs(W->A->pr[q]), u = fabs(Q.A.pr[q]); cm[j] = std::max(cm[j], v); am[Q.A.ir[q]] = std::max(am[Q.A.ir[q]], v); c0[j] = std::max(c0[j], u); a0[Q.A.ir[q]] = std::max(a0[Q.A.ir[q]], u); } }
      bool lponly = P.q.empty() && P.nex == 0; double lo = INFINITY, hi = 0, lo0 = INFINITY, hi0 = 0; auto up = [&](const dvec& v, double& l, double& h) { for (double t : v) if (t > 0) { l = std::min(l, t); h = std::max(h, t); } }; up(cm, lo, hi); up(rm, lo, hi); up(am, lo, hi); up(c0, lo0, hi0); up(r0, lo0, hi0); up(a0, lo0, hi0);
      if (hi > 0) { double spread = log10(hi / lo), spread0 = log10(hi0 / lo0); if (spread0 > 2 && lo0 > 1e-4) hist(c, "log10 spread of row/column sizes after / before", spread / spread0); if (lponly && spread0 > 2 && lo0 > 1e-4 && !(spread <= 0.5 * spread0)) c.fail(fmt("equilibration left a spread of 10^%.2f in the row and column sizes (10^%.2f before)", spread, spread0) + sh); if (!(hi <= 2.0 * std::max(1.0, 0.0) + 1e-9) && lo0 > 1e-4) hist(c, "largest entry after", hi); }
      if (nontr) c.nontrivial(P.hash());
#endif
    };
    scales(P, "after setup");
    Prob cur = P; long k = s.range(0, 3); bool own = true; std::vector<std::unique_ptr<Prob>> keep;
    for (long t = 0; t < k; t++) { if (s.chance(50)) { W->stgs->maxit = s.range(0, 6); I.solve(); c.subevals++; c.label("solved"); cur.c = dvec(W->c, W->c + P.n); for (long j = 0; j < P.n; j++) if (!(fabs(cur.c[j] - (own ? P.c[j] : keep.back()->c[j])) <= 1e-12 * fabs(cur.c[j]))) c.fail("c changed by a solve" + sh); scales(cur, "after a solve"); }
      else { std::unique_ptr<Prob> N(new Prob(P)); double f = s.logpos(-2, 2); for (auto& v : N->G.pr) v *= s.pos_in(.5, 2) * f; for (auto& v : N->A.pr) v *= s.pos_in(.5, 2); for (auto& v : N->h) v += s.val(1); for (auto& v : N->b) v += s.val(1); for (auto& v : N->c) v += s.val(1); Prob ref = *N; bool a = P.p > 0 || P.hasA; static double dz[1]; ECOS_updateData(W, N->G.pr.empty() ? dz : N->G.pr.data(), a ? (N->A.pr.empty() ? dz : N->A.pr.data()) : NULL, N->c.data(), N->h.data(), P.p ? N->b.data() : NULL); c.subevals++;
        auto& F = own ? static_cast<Inst&>(I) : I; const dvec &oG = own ? I.G.pr : keep.back()->G.pr, &oA = own ? I.A.pr : keep.back()->A.pr, &oh = own ? I.h : keep.back()->h; const Prob& was = own ? P : cur; (void)F; (void)oA; for (size_t i = 0; i < oG.size(); i++) if (!(fabs(oG[i] - was.G.pr[i]) <= 1e-13 * fabs(was.G.pr[i]))) c.fail(fmt("data replaced by an update are not given back: G entry %zu is %.17g, was %.17g", i, oG[i], was.G.pr[i]) + sh); for (size_t i = 0; i < oh.size(); i++) if (!(fabs(oh[i] - was.h[i]) <= 1e-13 * fabs(was.h[i]))) c.fail("data replaced by an update are not given back: h" + sh);
        keep.push_back(std::move(N)); own = false; cur = ref; c.label("updated"); scales(cur, "after an update"); } }
    I.cleanup(); const dvec &eG = own ? I.G.pr : keep.back()->G.pr, &eA = own ? I.A.pr : keep.back()->A.pr, &eh = own ? I.h : keep.back()->h, &eb = own ? I.b : keep.back()->b; auto back = [&](const char* nm, const dvec& v, const dvec& r) { for (size_t i = 0; i < v.size(); i++) if (!(fabs(v[i] - r[i]) <= 1e-13 * fabs(r[i]))) c.fail(fmt("%s entry %zu is %.17g after cleanup, was %.17g", nm, i, v[i], r[i]) + sh); }; back("G", eG, cur.G.pr); back("A", eA, cur.A.pr); back("h", eh, cur.h); back("b", eb, cur.b);
  };
  return p;
}
