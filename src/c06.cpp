// C06: what the solver reports about its result describes the vectors it returns.
#include "gen.hpp"
static bool close(ld a, ld b, ld scale, ld rel) { if (std::isnan((double)a) || std::isnan((double)b)) return std::isnan((double)a) && std::isnan((double)b); return fabsl(a - b) <= rel * (fabsl(a) + fabsl(b) + scale) + 1e-300L; }
eng::Prop make_prop() {
  Prop p; p.id = "C06"; p.quick = 1250000; p.thorough = 6000000; p.min_nontrivial_pct = 60;
  p.rule = "Well-posed, infeasible, unbounded and arbitrary problems, stopped early or run to the end, with default or changed tolerances. Every reported quantity (costs, gap, relative gap, residuals, infeasibility measures, mu, kappa/tau, flags, counters, times) is recomputed in long double from the original data and the returned vectors. Non-trivial: the run made at least one iteration and returned finite vectors.";
  p.assumptions = {"residual fields are defined on the equilibrated problem; they are recomputed with the scaling vectors stored in the workspace", "the reported gap is s'z of the homogeneous embedding, i.e. tau^2 s'z of the returned vectors"};
  p.run = [](Ctx& c) {
    GenOpt o; o.huge_pct = 1; Prob P; Src& s = c.s;
    switch (s.weighted({3, 3, 2, 2, 3})) { case 0: P = gen_solvable(c, o).P; break; case 1: P = gen_known_opt(c, o).P; break; case 2: P = gen_pinf(c, o).P; break; case 3: P = gen_dinf(c, o).P; break; default: P = gen_any(c, o); }
    Inst I(P); if (!I.setup()) c.fail("setup refused " + P.shape());
    settings& st = *I.w->stgs; long maxit = st.maxit;
    if (s.chance(40)) st.maxit = maxit = s.range(0, 20);
    if (s.chance(20)) { st.feastol = s.logpos(-9, -3); st.abstol = s.logpos(-9, -3); st.reltol = s.logpos(-9, -3); }
    double reltol = st.reltol; if (s.chance(15)) st.nitref = s.range(0, 9); long nitref = st.nitref;
    Sol r = I.solve(); c.subevals++; show(c, P, r); c.label("exit " + code_name(r.code)); label_shape(c, P);
    const stats& f = r.info; pwork* w = I.w;
    if (f.iter < 0 || f.iter > maxit) c.fail(fmt("iteration counter %ld, limit %ld", (long)f.iter, maxit));
    if (!(f.tsetup >= 0 && f.tsolve >= 0 && f.tsetup < 60 && f.tsolve < 60)) c.fail(fmt("times %g %g", f.tsetup, f.tsolve));
    { bool wp = r.code >= 0 && r.code % 10 == 1, wd = r.code >= 0 && r.code % 10 == 2; if ((f.pinf != 0) != wp || (f.dinf != 0) != wd) c.fail(fmt("flags pinf=%ld dinf=%ld with exit %d", (long)f.pinf, (long)f.dinf, r.code)); }
    if (f.iter >= 1) {
      if (f.nitref1 < 0 || f.nitref1 > nitref || f.nitref2 < 0 || f.nitref2 > nitref || f.nitref3 < 0 || f.nitref3 > nitref) c.fail(fmt("refinement counters %ld %ld %ld with a limit of %ld", (long)f.nitref1, (long)f.nitref2, (long)f.nitref3, nitref));
      // step, centering and backtracking counters of the last iteration
      long mb = st.max_bk_iter; auto cnt = [&](const char* nm, idxint v) { if (v < 0 || v > mb) c.fail(fmt("backtracking counter %s = %ld, limit %ld %s", nm, (long)v, mb, P.shape().c_str())); };
      cnt("affBack", f.affBack); cnt("cmbBack", f.cmbBack);
      if (P.nex == 0) { if (f.affBack || f.cmbBack) c.fail(fmt("backtracking counters %ld %ld without exponential cones", (long)f.affBack, (long)f.cmbBack)); }
      else { cnt("cb", f.cb); cnt("cob", f.cob); cnt("pb", f.pb); cnt("db", f.db); if (f.cmbBack != f.cb + f.cob + f.pb + f.db) c.fail(fmt("combined backtracks %ld, by reason %ld+%ld+%ld+%ld %s", (long)f.cmbBack, (long)f.cb, (long)f.cob, (long)f.pb, (long)f.db, P.shape().c_str())); if (f.cmbBack) c.label("backtracking in the last iteration"); }
      if (std::isfinite(f.step_aff)) { double sg = (1 - f.step_aff) * (1 - f.step_aff) * (1 - f.step_aff); sg = std::min(std::max(sg, SIGMAMIN), SIGMAMAX); if (!(fabs(f.sigma - sg) <= 1e-12 * sg)) c.fail(fmt("centering %.15g, affine step %.15g gives %.15g", f.sigma, f.step_aff, sg)); if (f.step_aff < 0 || f.step_aff > 1) c.fail(fmt("affine step length %.15g", f.step_aff)); }
      if (std::isfinite(f.step) && !(f.step == -1 && P.nex) && !(f.step > 0 && f.step < 1)) c.fail(fmt("step length %.15g (exit %d)", f.step, r.code));
    }
    if (!finite_sol(r) || !std::isfinite(r.tau) || !(r.tau > 0)) { c.label("non-finite point"); if (r.code >= 0) c.fail("verdict with non-finite vectors"); return; }
    ld t = r.tau, cx = dot(P.c, r.x), hb = dot(P.h, r.z) + dot(P.b, r.y);
    auto eq = [&](const char* nm, double rep, ld own, ld scale, ld rel = 1e-9L) { if (!close(rep, own, scale, rel)) c.fail(fmt("%s reported %.15g, recomputed %.15Lg (exit %d, iter %ld) %s", nm, rep, own, r.code, (long)f.iter, P.shape().c_str())); };
    eq("pcost", f.pcost, cx, adot(P.c, r.x)); eq("dcost", f.dcost, -hb, adot(P.h, r.z) + adot(P.b, r.y));
    ld sz = dot(r.s, r.z), asz = adot(r.s, r.z); eq("gap", f.gap, sz * t * t, asz * t * t);
    eq("kapovert", f.kapovert, (ld)r.kap / t, 0); long D = P.l + (long)P.q.size() + 3 * P.nex;
    eq("mu", f.mu, (sz * t * t + (ld)r.kap * t) / (D + 1), asz * t * t);
    if (fabs(f.pcost) > 1e-9 && (f.pcost < 0 || fabs(f.dcost) > 1e-9)) { ld rg = f.pcost < 0 ? (ld)f.gap / -(ld)f.pcost : f.dcost > 0 ? (ld)f.gap / f.dcost : (ld)NAN; eq("relgap", f.relgap, rg, 0); }
    // residuals on the equilibrated data
    auto rx = multv(P.G, r.z), ay = multv(P.A, r.y), arx = amultv(P.G, r.z), aay = amultv(P.A, r.y); ld nrx = 0, hrx = 0, ex = 0, nc = 0, nx = 0, ny = 0, nz = 0, ns = 0, nb = 0, nh = 0;
    for (long j = 0; j < P.n; j++) { ld q = w->xequil[j]; ld v = (rx[j] + ay[j]) / q * t; hrx += v * v; v += (ld)P.c[j] / q * t; nrx += v * v; ld e = (arx[j] + aay[j] + fabsl((ld)P.c[j])) / q * t; ex += e * e; nc += (ld)P.c[j] / q * P.c[j] / q; ld xx = r.x[j] * q * t; nx += xx * xx; }
    auto Ax = mulv(P.A, r.x), aAx = amulv(P.A, r.x), Gx = mulv(P.G, r.x), aGx = amulv(P.G, r.x); ld nry = 0, hry = 0, ey = 0, nrz = 0, hrz = 0, ez = 0;
    for (long i = 0; i < P.p; i++) { ld q = w->Aequil[i], v = Ax[i] / q * t; hry += v * v; v -= P.b[i] / q * t; nry += v * v; ld e = (aAx[i] + fabs(P.b[i])) / q * t; ey += e * e; nb += (ld)P.b[i] / q * P.b[i] / q; ld yy = r.y[i] * q * t; ny += yy * yy; }
    for (long i = 0; i < P.m; i++) { ld q = w->Gequil[i], v = (Gx[i] + r.s[i]) / q * t; hrz += v * v; v -= P.h[i] / q * t; nrz += v * v; ld e = (aGx[i] + fabs(r.s[i]) + fabs(P.h[i])) / q * t; ez += e * e; nh += (ld)P.h[i] / q * P.h[i] / q; ld zz = r.z[i] * q * t, ss = r.s[i] / q * t; nz += zz * zz; ns += ss * ss; }
    for (ld* v : {&nrx, &hrx, &ex, &nc, &nx, &ny, &nz, &ns, &nb, &nh, &nry, &hry, &ey, &nrz, &hrz, &ez}) *v = sqrtl(*v);
    ld rx0 = std::max<ld>(1, nc), ry0 = std::max<ld>(1, nb), rz0 = std::max<ld>(1, nh); const ld U = 1e-4L;   // rounding of the residual itself: U * 1e-9 * magnitudes
    ld dy = std::max<ld>(ry0 + nx, 1), dz = std::max<ld>(rz0 + nx + ns, 1), dd = std::max<ld>(rx0 + ny + nz, 1);
    ld pres = std::max(P.p ? nry / dy : 0, nrz / dz) / t; eq("pres", f.pres, pres, U * (ey / dy + ez / dz) / t);
    eq("dres", f.dres, nrx / dd / t, U * ex / dd / t);
    ld hbt = hb * t / std::max<ld>(ny + nz, 1), cxt = cx * t / std::max<ld>(nx, 1);
    // near its switching point -reltol, or in rounding noise, either reading is accepted
    ld ahb = (adot(P.h, r.z) + adot(P.b, r.y)) * t / std::max<ld>(ny + nz, 1), acx = adot(P.c, r.x) * t / std::max<ld>(nx, 1);
    if (fabsl(hbt + reltol) > 1e-3 * reltol + 1e-12L * ahb) { if (hbt < -reltol) { ld dn = std::max<ld>(ny + nz, 1); eq("pinfres", f.pinfres, hrx / dn, U * ex / dn); } else if (!std::isnan(f.pinfres)) c.fail(fmt("pinfres reported %g although h'z+b'y is not negative (%Lg)", f.pinfres, hbt)); }
    if (fabsl(cxt + reltol) > 1e-3 * reltol + 1e-12L * acx) { if (cxt < -reltol) { ld own = std::max(hry / std::max<ld>(nx, 1), hrz / std::max<ld>(nx + ns, 1)); eq("dinfres", f.dinfres, own, U * (ey / std::max<ld>(nx, 1) + ez / std::max<ld>(nx + ns, 1))); } else if (!std::isnan(f.dinfres)) c.fail(fmt("dinfres reported %g although c'x is not negative (%Lg)", f.dinfres, cxt)); }
    if (f.iter >= 1) c.nontrivial(P.hash() ^ (uint64_t)f.iter);
  };
  return p;
}
