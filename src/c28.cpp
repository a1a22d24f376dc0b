// C28: the exponential-cone kernels against the barrier calculus.
#include "kern.hpp"
static bool near(ld a, ld b, ld scale, ld tol) { return fabsl(a - b) <= tol * scale; }
eng::Prop make_prop() {
  Prop p; p.id = "C28"; p.quick = 9000000; p.thorough = 60000000; p.min_nontrivial_pct = 50;
  p.rule = "Interior points of the dual exponential cone over 8 decades of size and 7 of distance to the boundary. Gradient and Hessian against a long-double derivation, homogeneity (<g,w>=-3, Hw=-g), the primal barrier through conjugacy (f(s)+f*(w) at s=-g(w), scaled), y+=Vx, Wright's omega by its equation, membership tests on points clearly inside or outside. Non-trivial: an interior point with all kernels evaluated.";
  p.run = [](Ctx& c) {
    Src& s = c.s; double cond; EPt P = gen_ept(c, cond); double w[3] = {(double)P.u, (double)P.v, (double)P.w}; double mu = s.logpos(-8, 4); std::string at = fmt(" at (%.17g, %.17g, %.17g) mu %.9g", w[0], w[1], w[2], mu);
    if (c.want_note) c.note << at << "\n";
    ld g[3], H[3][3]; e_grad(P, g); e_hess(P, H); ld T = 4e-15L * cond;
    ld wn[3] = {fabsl(P.u), fabsl(P.v), fabsl(P.w) + fabsl(P.u) + fabsl(P.u * P.l)};
    if (evalExpGradient) { double gg[3]; evalExpGradient(w, gg); c.subevals++;
      // error scale of each component: the terms of the expression
      ld sc[3] = {fabsl(P.l / P.r) + 1 / fabsl(P.u) , fabsl(P.u / (P.v * P.r)) + 1 / P.v, 1 / P.r}; ld T2 = T + 1e-15L * (1 + 1 / std::max<ld>(1e-3L, fabsl(P.l)));
      for (int i = 0; i < 3; i++) if (!near(gg[i], g[i], sc[i] + fabsl(1 / P.r), 4 * T2)) c.fail(fmt("gradient component %d is %.17g, should be %.17Lg", i, gg[i], g[i]) + at);
      ld h = gg[0] * (ld)w[0] + gg[1] * (ld)w[1] + gg[2] * (ld)w[2]; ld hs = fabsl(gg[0] * w[0]) + fabsl(gg[1] * w[1]) + fabsl(gg[2] * w[2]); if (!near(h, -3, hs + 3, 8 * T2)) c.fail(fmt("<gradient, w> = %.17Lg, should be -3", h) + at);
      c.label("gradient"); }
    double v[6]; bool haveV = false;
    if (evalExpHessian) { evalExpHessian(w, v, mu); haveV = true; c.subevals++; static const int ij[6][2] = {{0, 0}, {0, 1}, {1, 1}, {0, 2}, {1, 2}, {2, 2}};
      ld d[3] = {fabsl(P.l), fabsl(P.u / P.v), 1}, dd[3][3] = {{1 / fabsl(P.u), 1 / P.v, 0}, {1 / P.v, fabsl(P.u / (P.v * P.v)), 0}, {0, 0, 0}};
      for (int k = 0; k < 6; k++) { int i = ij[k][0], j = ij[k][1]; ld sc = d[i] * d[j] / (P.r * P.r) + dd[i][j] / P.r + (i == j && i == 0 ? 1 / (P.u * P.u) : i == j && i == 1 ? 1 / (P.v * P.v) : 0) + (i == 0 || j == 0 ? 1e-3L * (1 / (P.r * P.r)) : 0);
        if (!near(v[k] / (ld)mu, H[i][j], sc, 16 * T)) c.fail(fmt("Hessian entry (%d,%d)/mu is %.17Lg, should be %.17Lg", i, j, v[k] / (ld)mu, H[i][j]) + at); }
      c.label("Hessian"); }
    if (scaleToAddExpcone && haveV) { long k = s.range(1, 3), fc = s.range(0, 4); std::vector<expcone> e(k); dvec x(fc + 3 * k), y(fc + 3 * k), y0; for (auto& q : x) q = s.nz(2); for (auto& q : y) q = s.nz(2); y0 = y;
      std::vector<dvec> vs; for (long t = 0; t < k; t++) { dvec f(6); for (int q = 0; q < 6; q++) f[q] = t == 0 ? v[q] : s.nz(3); vs.push_back(f); for (int q = 0; q < 6; q++) e[t].v[q] = f[q]; e[t].g[0] = e[t].g[1] = e[t].g[2] = 777; e[t].colstart[0] = e[t].colstart[1] = e[t].colstart[2] = 99; }
      dvec xc = x; scaleToAddExpcone(y.data(), x.data(), e.data(), k, fc); c.subevals++; if (x != xc) c.fail("the multiplier changed its input" + at); for (long i = 0; i < fc; i++) if (y[i] != y0[i]) c.fail("entries before the exponential cones were touched" + at);
      static const int M[3][3] = {{0, 1, 3}, {1, 2, 4}, {3, 4, 5}}; for (long t = 0; t < k; t++) for (int i = 0; i < 3; i++) { ld z = y0[fc + 3 * t + i], a = fabsl(z); for (int j = 0; j < 3; j++) { ld q = (ld)vs[t][M[i][j]] * x[fc + 3 * t + j]; z += q; a += fabsl(q); } if (!near(y[fc + 3 * t + i], z, a, 1e-14L)) c.fail(fmt("V x of cone %ld row %d is %.17g, should be %.17Lg", t, i, y[fc + 3 * t + i], z) + at); } c.label("product with the Hessian"); }
    if (evalBarrierValue) {   // conjugacy: f(s) + f*(w) = -3 at s = -g(w);  f*(t w) = f*(w) - 3 log t;  f(a s) = f(s) - 3 log a
      long k = s.range(1, 3), fc = s.range(0, 3); dvec sv(fc + 3 * k, -1.0), zv(fc + 3 * k, -1.0); ld want = 0, cs = 1, mag = 0; bool ok = true;
      for (long t = 0; t < k; t++) { double cd; EPt Q = t == 0 ? P : gen_ept(c, cd); if (t == 0) cd = cond; ld gg[3]; e_grad(Q, gg); double ts = s.logpos(-2, 2), as = s.logpos(-2, 2);
        zv[fc + 3 * t] = (double)Q.u * ts; zv[fc + 3 * t + 1] = (double)Q.v * ts; zv[fc + 3 * t + 2] = (double)Q.w * ts; for (int i = 0; i < 3; i++) sv[fc + 3 * t + i] = (double)(-gg[i] * as);
        ld sx = sv[fc + 3 * t], sy = sv[fc + 3 * t + 1], sz = sv[fc + 3 * t + 2]; if (!(sy > 0 && sz > 0) || !(sz * logl(sy / sz) - sx > 1e-6L * (fabsl(sx) + fabsl(sz * logl(sy / sz)) + sz))) { ok = false; break; }
        cs += cd + (fabsl(sx) + fabsl(sz * logl(sy / sz)) + sz) / (sz * logl(sy / sz) - sx) + fabsl(sx / sz); EPt Z = ept(zv[fc + 3 * t], zv[fc + 3 * t + 1], zv[fc + 3 * t + 2]); EPt Q0 = ept(Q.u, Q.v, Q.w);
        want += -3 - e_bar(Q0) - 3 * logl(as) + e_bar(Z); mag += 3 + fabsl(e_bar(Q0)) + fabsl(e_bar(Z)) + fabsl(3 * logl(as)); }
      if (ok && cs < 1e5) { double b = evalBarrierValue(sv.data(), zv.data(), fc, k); c.subevals++; if (!near(b, want, 1, 1e-12L * mag + 3e-13L * cs)) c.fail(fmt("barrier value of %ld cones is %.17g, should be %.17Lg (condition %.3Lg)", k, b, want, cs) + at); c.label("barrier by conjugacy"); } }
    auto margin = [&](ld psi, ld a, ld b, ld sc) { return std::min({psi, a, b}) / sc; };
    if (evalExpPrimalFeas || evalExpDualFeas) { long k = s.range(1, 3); dvec q(3 * k), d(3 * k); bool pin = true, din = true, pj = true, dj = true; long bad = s.chance(50) ? s.range(0, k - 1) : -1;
      for (long t = 0; t < k; t++) { bool out = t == bad; double z = s.logpos(-3, 3), qq = s.val(5), off = z * s.logpos(-6, 1) * (out ? -1 : 1); q[3 * t + 1] = z * exp(qq); q[3 * t + 2] = z; q[3 * t] = (double)((ld)z * logl((ld)q[3 * t + 1] / z)) - off;
        if (out) { int how = (int)s.pick(5); if (how == 1) q[3 * t + 2] = -z; else if (how == 2) q[3 * t + 1] = -q[3 * t + 1]; else if (how == 3) { q[3 * t + 1] = -q[3 * t + 1]; q[3 * t + 2] = -z; q[3 * t] = -10 * (1 + fabs(q[3 * t])); } }
        ld psi = q[3 * t + 1] > 0 && q[3 * t + 2] > 0 ? q[3 * t + 2] * logl((ld)q[3 * t + 1] / q[3 * t + 2]) - q[3 * t] : -INFINITY; ld sc = fabsl(q[3 * t]) + fabsl(q[3 * t + 2]) * (1 + fabsl((ld)qq)); ld m = std::min({psi / sc, (ld)q[3 * t + 1] / fabsl(q[3 * t + 1]), (ld)q[3 * t + 2] / fabsl(q[3 * t + 2])}); if (m < 0) pin = false; if (fabsl(m) < 1e-13L) pj = false;
        double u = -s.logpos(-3, 3), l = s.val(5), of = -u * s.logpos(-6, 1) * (out ? -1 : 1); d[3 * t] = u; d[3 * t + 1] = -u * exp(l); d[3 * t + 2] = (double)((ld)u + (ld)u * logl(-(ld)d[3 * t + 1] / u)) + of;
        if (out) { int how = (int)s.pick(5); if (how == 1) d[3 * t] = -u; else if (how == 2) d[3 * t + 1] = -d[3 * t + 1]; else if (how == 3) { d[3 * t] = -u; d[3 * t + 1] = -d[3 * t + 1]; d[3 * t + 2] = 10 * (1 + fabs(d[3 * t + 2])); } }
        EPt D = d[3 * t] < 0 && d[3 * t + 1] > 0 ? ept(d[3 * t], d[3 * t + 1], d[3 * t + 2]) : EPt{0, 0, 0, 0, -INFINITY}; ld ds = fabsl(d[3 * t]) * (1 + fabsl((ld)l)) + fabsl(d[3 * t + 2]); ld dm = std::min({D.r / ds, -(ld)d[3 * t] / fabsl(d[3 * t]), (ld)d[3 * t + 1] / fabsl(d[3 * t + 1])}); if (dm < 0) din = false; if (fabsl(dm) < 1e-13L) dj = false; }
      if (evalExpPrimalFeas && pj) { c.subevals++; if ((evalExpPrimalFeas(q.data(), k) == 1) != pin) c.fail(fmt("primal membership of %ld cones decided as %d; first point (%.17g, %.17g, %.17g)", k, !pin, q[0], q[1], q[2])); c.label(pin ? "primal membership: inside" : "primal membership: outside"); }
      if (evalExpDualFeas && dj) { c.subevals++; if ((evalExpDualFeas(d.data(), k) == 1) != din) c.fail(fmt("dual membership of %ld cones decided as %d; first point (%.17g, %.17g, %.17g)", k, !din, d[0], d[1], d[2])); c.label(din ? "dual membership: inside" : "dual membership: outside"); } }
    if (wrightOmega) { double z = s.chance(50) ? s.pos_in(0, 12, 100000) : s.logpos(-6, 8, 10000); double o = wrightOmega(z); c.subevals++; ld e = o + logl((ld)o) - z; if (!(o > 0) || !(fabsl(e) <= 3e-15L * (1 + fabsl(z)) * (1 + 1 / (ld)o))) c.fail(fmt("omega(%.17g) = %.17g misses its equation by %.3Lg", z, o, e)); hist(c, "omega equation error (rel)", fabsl(e) / (1 + fabsl(z))); c.label(z < 1 + M_PI ? "omega: small branch" : "omega: large branch"); }
    c.nontrivial((uint64_t)(cond * 1e6) ^ (uint64_t)(fabs(w[0]) * 1e9) * 31 ^ (uint64_t)(mu * 1e12));
  };
  return p;
}
