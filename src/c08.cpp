// C08: an iteration limit cuts the run short without changing it, and what comes back is the best iterate so far.
#include "gen.hpp"
static bool same(const dvec& a, const dvec& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static bool same_pt(const Sol& a, const Sol& b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.s, b.s) && same(a.z, b.z); }
eng::Prop make_prop() {
  Prop p; p.id = "C08"; p.quick = 175000; p.thorough = 900000; p.min_nontrivial_pct = 50;
  p.rule = "A problem (well-posed, infeasible, unbounded or arbitrary, default or tighter tolerances) is solved without and with every iteration limit k = 0..N+1, N the iterations of the full run. Non-trivial: N >= 2; the limited runs form a chain in which every returned point is bitwise the previous one or has strictly smaller gap and mu, limits >= N change nothing, limits < N stop after exactly k iterations with a limit/reduced-accuracy code, and the full run does not return a point worse than the best of its limited runs unless it met full accuracy.";
  p.run = [](Ctx& c) {
    GenOpt o; o.huge_pct = 1; Prob P; Src& s = c.s;
    switch (s.weighted({2, 2, 2, 2, 5})) { case 0: P = gen_solvable(c, o).P; break; case 1: P = gen_known_opt(c, o).P; break; case 2: P = gen_pinf(c, o).P; break; case 3: P = gen_dinf(c, o).P; break; default: P = gen_any(c, o); }
    int tight = s.weighted({2, 2, 1}); double T = tight == 0 ? 1e-8 : tight == 1 ? s.logpos(-16, -9) : s.logpos(-7, -2);
    double TI = tight == 1 && s.chance(60) ? s.logpos(-16, -9) : 1e-4; bool bad = s.chance(25); int nref = bad ? (int)s.range(0, 1) : 9;
    if (c.want_note) { P.print(c.note); c.note << fmt("  tolerances %g / %g nitref %d\n", T, TI, nref); }
    auto run = [&](long mi, double loose = 0) { Inst I(P); if (!I.setup()) c.fail("setup refused " + P.shape()); settings& t = *I.w->stgs; t.feastol = t.abstol = t.reltol = T; if (TI != 1e-4) t.feastol_inacc = t.abstol_inacc = t.reltol_inacc = TI; t.nitref = nref; t.maxit = mi; if (loose > 0) { t.feastol = loose; t.abstol = loose; } c.subevals++; return I.solve(); };
    Sol full = run(40); long N = full.info.iter; c.label("full run: exit " + code_name(full.code)); if (c.want_note) c.note << fmt("  full run: exit %d iter %ld\n", full.code, N);
    auto st = [](const Sol& r) { return fmt("exit %d iter %ld gap %.17g mu %.17g pres %.3g dres %.3g tau %.17g", r.code, (long)r.info.iter, r.info.gap, r.info.mu, r.info.pres, r.info.dres, r.tau); };
    auto step_ok = [&](const Sol& prev, const Sol& cur, bool& kept) {
      kept = same_pt(prev, cur) && !memcmp(&prev.tau, &cur.tau, 8) && !memcmp(&prev.kap, &cur.kap, 8);
      if (kept) { auto eq = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
        const stats &a = prev.info, &b = cur.info; return eq(a.gap, b.gap) && eq(a.mu, b.mu) && eq(a.pres, b.pres) && eq(a.dres, b.dres) && eq(a.pcost, b.pcost) && eq(a.dcost, b.dcost) && eq(a.kapovert, b.kapovert) && eq(a.relgap, b.relgap) && eq(a.pinfres, b.pinfres) && eq(a.dinfres, b.dinfres); }
      return cur.info.gap > 0 && prev.info.gap > cur.info.gap && cur.info.mu > 0 && prev.info.mu > cur.info.mu; };
    Sol prev; bool have = false; int keptn = 0;
    for (long k = 0; k < N; k++) {
      Sol r = run(k);
      if (r.info.iter != k) c.fail(fmt("limit %ld, full run %ld iterations: stopped after %ld (", k, N, (long)r.info.iter) + st(r) + ") " + P.shape());
      if (r.code != -1 && r.code != 10 && r.code != 11 && r.code != 12) c.fail(fmt("limit %ld < %ld iterations: ", k, N) + st(r));
      if (have) { bool kept; if (!step_ok(prev, r, kept)) c.fail(fmt("limit %ld returned neither the iterate kept by limit %ld nor a better one: ", k, k - 1) + st(prev) + " -> " + st(r) + " " + P.shape()); keptn += kept; }
      prev = r; have = true;
    }
    if (N > 0 && full.code != 0 && full.code != 1 && full.code != 2) { bool kept; if (!step_ok(prev, full, kept)) c.fail("the run gave up but returned neither its best iterate nor a better one: " + st(prev) + " -> " + st(full) + " " + P.shape()); c.label("gave up: returned an earlier iterate", kept); }
    // an iterate better than the kept one in every measure is not passed over: a loose run stops at and returns iterate k itself
    for (int rep = 0; rep < 2; rep++) {
      double tl = s.logpos(-7, 0); if (tl <= T) continue; Sol L = run(40, tl); long k = L.info.iter; if (L.code != 0 || k < 1 || k >= N) continue;
      Sol a = run(k - 1), b = run(k); const stats &x = L.info, &y = a.info;
      bool dom = x.gap > 0 && x.gap < y.gap && x.mu > 0 && x.mu < y.mu && x.pres > 0 && x.pres < y.pres && x.dres > 0 && x.dres < y.dres && x.kapovert > 0 && x.kapovert < y.kapovert && x.kapovert <= 1;
      c.label(dom ? "iterate k dominates the kept one" : "iterate k does not dominate the kept one");
      if (dom && !same_pt(b, L)) c.fail(fmt("limit %ld did not return iterate %ld although it improves every measure: ", k, k) + st(L) + " vs returned " + st(b) + " " + P.shape());
      if (!dom && !same_pt(b, L) && !same_pt(b, a)) c.fail(fmt("limit %ld returned neither iterate %ld nor the best before it", k, k) + P.shape());
    }
    bool definitive = full.code == 0 || full.code == 1 || full.code == 2;
    if (N < 40 || definitive) {     // otherwise the full run was itself limited
      long far = N + (definitive ? 0 : 1) + s.range(0, 30); Sol r = run(far);
      if (r.code != full.code || r.info.iter != N || !same_pt(r, full)) c.fail(fmt("limit %ld >= %ld changes the result: ", far, N) + st(full) + " vs " + st(r) + " " + P.shape());
    }
    c.label("some limit recovered an earlier iterate", keptn > 0);
    if (N >= 2) c.nontrivial(P.hash() ^ (uint64_t)(T * 1e18));
  };
  return p;
}
