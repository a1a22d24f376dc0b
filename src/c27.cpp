// C27: Nesterov-Todd scalings and the Jordan algebra of the symmetric cones.
#include "kern.hpp"
// one problem whose workspace provides a cone structure of the given shape
static Prob carrier(const Shape& S) { Prob P; P.n = 1; P.m = S.m; P.l = S.l; P.q = S.q; P.nex = S.nex; P.p = 0; P.hasA = false; Dense G(S.m, 1); G.set(0, 0, 1); P.G = to_csc(G); P.A = to_csc(Dense(0, 1)); P.c = {1}; P.h.assign(S.m, 1); return P; }
struct Blk { long o, d; };
static std::vector<Blk> blocks(const Shape& S) { std::vector<Blk> b; long k = 0; for (long i = 0; i < S.l; i++) b.push_back({k++, 1}); for (auto d : S.q) { b.push_back({k, (long)d}); k += d; } return b; }
static ld jres(const double* u, long d) { ld t = 0; for (long i = 1; i < d; i++) t += (ld)u[i] * u[i]; return (ld)u[0] * u[0] - t; }
static ld margin_of(const double* u, long d) { ld t = 0; for (long i = 1; i < d; i++) t += (ld)u[i] * u[i]; return (ld)u[0] - sqrtl(t); }
// point of a block with relative distance eps to the boundary, size sc
static void point(Src& s, double* u, long d, double sc, double eps) { if (d == 1) { u[0] = sc * s.pos_in(.2, 2); return; } ld t = 0; for (long i = 1; i < d; i++) { u[i] = sc * s.nz(1, 32); t += (ld)u[i] * u[i]; } u[0] = (double)(sqrtl(t) * (1 + (ld)eps)); }
eng::Prop make_prop() {
  Prop p; p.id = "C27"; p.quick = 4000000; p.thorough = 16000000; p.min_nontrivial_pct = 50;
  p.rule = "Cone structures of a set-up workspace (linear, second-order of dimension 1..25, exponential) with slack/multiplier pairs over 8 decades of size and 6 of distance to the boundary. Checked: the scaling maps z to s (W^2 z = s), W z = W^-T s = lambda, inverse pairs, W^2 against the closed form eta^2(2ww'-J) in long double, stretched product, verdict for points outside, product/division inverse with identity e, pushing a point into the cone, the initial point, the barrier value. Non-trivial: at least one second-order cone of dimension >= 2.";
  p.run = [](Ctx& c) {
    Src& s = c.s; GenOpt o; o.big_pct = 8; Shape S = gen_shape(c, o); if (S.m == 0) throw Discard(); Prob P = carrier(S); Inst I(P); if (!I.setup()) c.fail("setup refused " + P.shape()); cone* C = I.w->C;
    long ms = S.m - 3 * S.nex; auto bl = blocks(S); std::string sh = " " + P.shape(); if (c.want_note) c.note << sh << "\n"; label_shape(c, P);
    dvec sv(S.m), z(S.m), lam(S.m, 0.0); ld kap = 1; double gs = s.logpos(-2.5, 4), gz = s.logpos(-2.5, 4); dvec bk(bl.size(), 1.0); double mu = s.logpos(-6, 2);
    for (size_t b = 0; b < bl.size(); b++) { double e1 = s.logpos(-6, 0.5), e2 = s.logpos(-6, 0.5); point(s, &sv[bl[b].o], bl[b].d, gs * s.logpos(-1, 1), e1); point(s, &z[bl[b].o], bl[b].d, gz * s.logpos(-1, 1), e2); bk[b] = bl[b].d == 1 ? 1 : (double)((1 + 1 / (ld)e1) * (1 + 1 / (ld)e2)); kap = std::max<ld>(kap, bk[b]); }
    std::vector<EPt> ep; for (long e = 0; e < S.nex; e++) { double cd; EPt Q = gen_ept(c, cd); if (cd > 1e4) throw Discard(); ep.push_back(Q); long k = ms + 3 * e; z[k] = (double)Q.u; z[k + 1] = (double)Q.v; z[k + 2] = (double)Q.w; sv[k] = -1; sv[k + 1] = 2; sv[k + 2] = 1; }
    auto nb = [&](const dvec& v, size_t b) { ld t = 0; for (long i = 0; i < bl[b].d; i++) t += (ld)v[bl[b].o + i] * v[bl[b].o + i]; return sqrtl(t); };
    auto vecstr = [&](const dvec& v) { std::string q; for (size_t i = 0; i < v.size() && i < 12; i++) q += fmt(" %.17g", v[i]); return q; };
    auto cmp = [&](const char* what, const dvec& a, const std::vector<ld>& r, const std::function<ld(size_t)>& tol) { for (size_t b = 0; b < bl.size(); b++) for (long i = 0; i < bl[b].d; i++) { long k = bl[b].o + i; if (!(fabsl(a[k] - r[k]) <= tol(b))) c.fail(fmt("%s: entry %ld is %.17g, should be %.17Lg (tolerance %.3Lg)", what, k, a[k], r[k], tol(b)) + sh + " s =" + vecstr(sv) + " z =" + vecstr(z)); } };
    auto L = [](const dvec& v) { return std::vector<ld>(v.begin(), v.end()); };
    ld small = INFINITY; for (auto& B : bl) small = std::min({small, jres(&sv[B.o], B.d), jres(&z[B.o], B.d)}); bool reg = small > 1e-12L; c.label("denominators below the library's safe-division threshold: not judged", !reg); bool soc2 = false; for (auto d : S.q) if (d >= 2) soc2 = true;
    if (kap <= 1e8 && reg && updateScalings) {
      dvec s0 = sv, z0 = z; idxint r = updateScalings(C, sv.data(), z.data(), lam.data(), mu); c.subevals++; if (r != INSIDE_CONE) c.fail("strictly interior pair reported outside the cone" + sh + " s =" + vecstr(sv) + " z =" + vecstr(z)); if (s0 != sv || z0 != z) c.fail("scaling update changed its input" + sh);
      // closed form: wbar = (sbar + J zbar)/(2 gamma)
      std::vector<ld> eta(bl.size()); std::vector<std::vector<ld>> w(bl.size());
      for (size_t b = 0; b < bl.size(); b++) { long k = bl[b].o, d = bl[b].d; ld sr = sqrtl(jres(&sv[k], d)), zr = sqrtl(jres(&z[k], d)); eta[b] = sqrtl(sr / zr); ld ga = 1; for (long i = 0; i < d; i++) ga += (sv[k + i] / sr) * (z[k + i] / zr); ga = sqrtl(ga / 2); w[b].resize(d); for (long i = 0; i < d; i++) w[b][i] = (sv[k + i] / sr + (i ? -1 : 1) * (z[k + i] / zr)) / (2 * ga); }
      auto W = [&](const dvec& x, bool inv) { std::vector<ld> y(ms); for (size_t b = 0; b < bl.size(); b++) { long k = bl[b].o, d = bl[b].d; ld ze = 0; for (long i = 1; i < d; i++) ze += w[b][i] * x[k + i]; ld f = inv ? -x[k] + ze / (1 + w[b][0]) : x[k] + ze / (1 + w[b][0]); ld e = inv ? 1 / eta[b] : eta[b]; y[k] = e * (inv ? w[b][0] * x[k] - ze : w[b][0] * x[k] + ze); for (long i = 1; i < d; i++) y[k + i] = e * (x[k + i] + f * w[b][i]); } return y; };
      const ld U = 4e-16L; auto nw = [&](size_t b) { ld t = 0; for (ld v : w[b]) t += v * v; return 1 + t; };   // ~ |W|/eta squared
      auto tl = [&](size_t b) { return 64 * U * bk[b] * eta[b] * nw(b) * nb(z, b) + 1e-300L; };
      cmp("lambda = W z", dvec(lam.begin(), lam.begin() + ms), W(z, false), tl);
      if (unscale) { dvec t(S.m, 0.0); unscale(sv.data(), C, t.data()); c.subevals++; cmp("W^-1 s = lambda", dvec(t.begin(), t.begin() + ms), L(lam), [&](size_t b) { return 64 * U * bk[b] * nw(b) * (nb(sv, b) / eta[b] + eta[b] * nb(z, b)) + 1e-300L; }); }
      for (size_t b = 0; b < bl.size(); b++) { ld a = 0, q = 0; for (long i = 0; i < bl[b].d; i++) { a += (ld)lam[bl[b].o + i] * lam[bl[b].o + i]; q += (ld)sv[bl[b].o + i] * z[bl[b].o + i]; } ld t = 256 * U * bk[b] * nw(b) * nw(b) * eta[b] * eta[b] * nb(z, b) * nb(z, b); if (!(fabsl(a - q) <= t)) c.fail(fmt("|lambda|^2 = %.17Lg, s'z = %.17Lg", a, q) + sh); }
      dvec x(S.m); for (auto& v : x) v = s.nz(1, 32) * s.logpos(-2, 2);
      if (scale && unscale) { dvec a(S.m, 0.0), b2(S.m, 0.0); scale(x.data(), C, a.data()); unscale(a.data(), C, b2.data()); c.subevals += 2; cmp("W x", dvec(a.begin(), a.begin() + ms), W(x, false), [&](size_t b) { return 64 * U * bk[b] * eta[b] * nw(b) * nb(x, b) + 1e-300L; }); cmp("W^-1 W x", dvec(b2.begin(), b2.begin() + ms), L(dvec(x.begin(), x.begin() + ms)), [&](size_t b) { return 256 * U * bk[b] * nw(b) * nw(b) * nb(x, b); });
        unscale(x.data(), C, b2.data()); cmp("W^-1 x", dvec(b2.begin(), b2.begin() + ms), W(x, true), [&](size_t b) { return 64 * U * bk[b] / eta[b] * nw(b) * nb(x, b) + 1e-300L; }); }
      if (scale2add) {   // stretched product: two extra variables per second-order cone, eliminated exactly
        long off = 2 * (long)S.q.size(); dvec X(S.m + off, 0.0), Y(S.m + off, 0.0), Y0; long k = 0, kk = 0; std::vector<long> pos(S.m); for (; k < S.l; k++, kk++) { X[kk] = x[k]; pos[k] = kk; }
        for (size_t q = 0; q < S.q.size(); q++) { for (long i = 0; i < S.q[q]; i++, k++, kk++) { X[kk] = x[k]; pos[k] = kk; } kk += 2; } for (; k < S.m; k++, kk++) { X[kk] = x[k]; pos[k] = kk; }
        // pass 1: response of the two extra rows to the cone part; they are then chosen to cancel it
        scale2add(X.data(), Y.data(), C); c.subevals++; kk = S.l; dvec X2 = X; for (size_t q = 0; q < S.q.size(); q++) { kk += S.q[q]; dvec e(S.m + off, 0.0), ye(S.m + off, 0.0); e[kk] = 1; scale2add(e.data(), ye.data(), C); double a = ye[kk]; e[kk] = 0; e[kk + 1] = 1; ye.assign(S.m + off, 0.0); scale2add(e.data(), ye.data(), C); double b = ye[kk + 1]; if (!(a > 0) || !(b < 0)) c.fail(fmt("extra diagonal of second-order cone %zu has the signs (%.3g, %.3g)", q, a, b) + sh); if (ye[kk] != 0) c.fail("the two extra variables of a cone are coupled" + sh); X2[kk] = -Y[kk] / a; X2[kk + 1] = -Y[kk + 1] / b; kk += 2; }
        for (auto& v : Y) v = s.val(1, 8); Y0 = Y; scale2add(X2.data(), Y.data(), C); c.subevals++; dvec got(S.m); for (long i = 0; i < S.m; i++) got[i] = Y[pos[i]];
        std::vector<ld> want(S.m); dvec kb(bl.size()); for (size_t b = 0; b < bl.size(); b++) { long o2 = bl[b].o, d = bl[b].d; ld wx = 0; for (long i = 0; i < d; i++) wx += w[b][i] * x[o2 + i]; for (long i = 0; i < d; i++) want[o2 + i] = Y0[pos[o2 + i]] + eta[b] * eta[b] * (2 * wx * w[b][i] + (i == 0 ? -x[o2] : (ld)x[o2 + i])); }
        cmp("W^2 x (stretched)", dvec(got.begin(), got.begin() + ms), want, [&](size_t b) { return 512 * U * bk[b] * nw(b) * nw(b) * eta[b] * eta[b] * nb(x, b) + 4e-15L; });
        for (long e = 0; e < S.nex; e++) { ld H[3][3]; e_hess(ep[e], H); for (int i = 0; i < 3; i++) { ld v = Y0[pos[ms + 3 * e + i]], a = fabsl(v); for (int j = 0; j < 3; j++) { v += mu * H[i][j] * x[ms + 3 * e + j]; a += fabsl(mu * H[i][j] * x[ms + 3 * e + j]); } ld mx = 0; for (int q = 0; q < 9; q++) mx = std::max(mx, fabsl(H[q / 3][q % 3])); ld xx = 0; for (int j = 0; j < 3; j++) xx = std::max<ld>(xx, fabsl(x[ms + 3 * e + j])); if (!(fabsl(got[ms + 3 * e + i] - v) <= 1e-9L * (a + mu * mx * xx))) c.fail(fmt("mu H x of exponential cone %ld row %d is %.17g, should be %.17Lg", e, i, got[ms + 3 * e + i], v) + sh); } }
        // W^2 z = s
        want.assign(S.m, 0); c.label("stretched product"); }
      c.label("scalings");
      hist(c, "nearness to the boundary (condition)", kap * 1e-8L);
    }
    if (updateScalings && !S.q.empty() && s.chance(30)) {   // a clearly outside second-order block is refused
      size_t b = S.l + s.pick(S.q.size()); dvec a = sv, q = z; dvec& t = s.chance(50) ? a : q; long k = bl[b].o, d = bl[b].d; int how = (int)s.pick(3); if (how == 0) t[k] = -t[k]; else if (how == 1) t[k] = 0; else if (d > 1) { ld nn = 0; for (long i = 1; i < d; i++) nn += (ld)t[k + i] * t[k + i]; t[k] = (double)sqrtl(nn) * s.pos_in(0.1, 0.999); } else t[k] = -t[k];
      dvec l2(S.m, 0.0); c.subevals++; if (updateScalings(C, a.data(), q.data(), l2.data(), mu) != OUTSIDE_CONE) c.fail("a point outside a second-order cone was accepted by the scaling update" + sh + " s =" + vecstr(a) + " z =" + vecstr(q)); c.label("outside point refused"); }
    dvec u(S.m, 0.0), v(S.m, 0.0), pr(S.m, 0.0); for (long i = 0; i < ms; i++) { u[i] = sv[i]; v[i] = s.val(2, 32) * s.logpos(-2, 2); }
    if (conicProduct) {
      auto ref = [&](const dvec& a, const dvec& b) { std::vector<ld> r(ms); for (auto& B : bl) { ld h = 0; for (long i = 0; i < B.d; i++) h += (ld)a[B.o + i] * b[B.o + i]; r[B.o] = h; for (long i = 1; i < B.d; i++) r[B.o + i] = (ld)a[B.o] * b[B.o + i] + (ld)b[B.o] * a[B.o + i]; } return r; };
      double m = conicProduct(u.data(), v.data(), C, pr.data()); c.subevals++; auto rf = ref(u, v); cmp("u o v", pr, rf, [&](size_t b) { return 4e-15L * nb(u, b) * nb(v, b) + 1e-300L; }); ld hs = 0, ha = 0; for (size_t b = 0; b < bl.size(); b++) { hs += fabsl(pr[bl[b].o]); } if (!(fabsl(m - hs) <= 1e-13L * hs + 1e-300L)) c.fail(fmt("product returned %.17g, the heads sum to %.17Lg", m, hs) + sh);
      dvec e(S.m, 0.0), pe(S.m, 0.0); for (auto& B : bl) e[B.o] = 1; conicProduct(e.data(), v.data(), C, pe.data()); for (long i = 0; i < ms; i++) if (!(fabs(pe[i] - v[i]) <= 1e-15 * fabs(v[i]))) c.fail("e o v is not v" + sh);
      if (conicDivision && reg) { dvec d(S.m, 0.0); conicDivision(u.data(), pr.data(), C, d.data()); c.subevals++; cmp("u \\ (u o v)", d, L(dvec(v.begin(), v.begin() + ms)), [&](size_t b) { ld mg = bl[b].d == 1 ? fabsl(u[bl[b].o]) : margin_of(&u[bl[b].o], bl[b].d); ld cn = nb(u, b) / mg; return 256e-16L * cn * cn * nb(v, b) + 1e-300L; }); c.label("product and division"); } }
    if (S.nex == 0 && bring2cone) { dvec r(S.m), t(S.m, 777.0); double sc = s.logpos(-3, 3); bool inside = s.chance(25); for (auto& x : r) x = s.val(3, 64) * sc; if (inside) r = sv; dvec r0 = r; bring2cone(C, r.data(), t.data()); c.subevals++; if (r != r0) c.fail("input of the cone projection changed" + sh);
      ld al = 0; bool first = true; ld need = -INFINITY, sz = 0; for (auto& B : bl) need = std::max(need, -margin_of(&r[B.o], B.d)); for (double x : r) sz = std::max<ld>(sz, fabsl(x));
      for (auto& B : bl) { ld a = (ld)t[B.o] - r[B.o]; if (first) { al = a; first = false; } if (!(fabsl(a - al) <= 4e-15L * (1 + sz + fabsl(al)))) c.fail(fmt("the shift differs between blocks: %.17Lg and %.17Lg", al, a) + sh); for (long i = 1; i < B.d; i++) if (t[B.o + i] != r[B.o + i]) c.fail("a tail entry was changed" + sh); if (!(margin_of(&t[B.o], B.d) > 0)) c.fail("the shifted point is not in the interior" + sh); }
      if (!(al >= 0) || !(al <= 1 + std::max<ld>(0, need) + 1e-12L * (1 + sz))) c.fail(fmt("shift %.17Lg, distance to the cone %.17Lg", al, need) + sh); if (need >= 0 && !(al >= need + 1 - 1e-12L * (1 + sz))) c.fail(fmt("shift %.17Lg leaves less than 1 of margin (%.17Lg needed)", al, need) + sh); c.label(need >= 0 ? "pushed into the cone" : "already inside"); }
    if (unitInitialization) { double sc = s.logpos(-3, 3); dvec a(S.m, 777.0), b(S.m, 555.0); unitInitialization(C, a.data(), b.data(), sc); c.subevals++; for (auto& B : bl) for (long i = 0; i < B.d; i++) if (!(fabs(a[B.o + i] - (i ? 0 : sc)) <= 1e-15 * sc) || a[B.o + i] != b[B.o + i]) c.fail("initial point is not the scaled identity" + sh);
      for (long e = 0; e < S.nex; e++) { long k = ms + 3 * e; for (int i = 0; i < 3; i++) if (a[k + i] != b[k + i]) c.fail("initial exponential slack and multiplier differ" + sh); EPt Q = ept(b[k] / sc, b[k + 1] / sc, b[k + 2] / sc); ld g[3]; e_grad(Q, g); for (int i = 0; i < 3; i++) if (!(fabsl(-g[i] - a[k + i] / sc) <= 1e-7L)) c.fail(fmt("initial exponential point is not on the central ray: component %d %.17Lg vs %.17g", i, -g[i], a[k + i] / sc) + sh); } }
    if (evalSymmetricBarrierValue) { double ta = s.logpos(-3, 3), ka = s.logpos(-3, 3), D = (double)s.range(1, 40); double b = evalSymmetricBarrierValue(sv.data(), z.data(), ta, ka, C, D); c.subevals++; ld r = -logl(ta) - logl(ka) - D - 1, mg = 1 + fabsl(r); for (auto& B : bl) { ld q = B.d == 1 && B.o < S.l ? logl(sv[B.o]) + logl(z[B.o]) : 0.5L * (logl(jres(&sv[B.o], B.d)) + logl(jres(&z[B.o], B.d))); r -= q; mg += fabsl(q); } if (!(fabsl(b - r) <= 1e-13L * mg + 1e-15L * kap)) c.fail(fmt("barrier value %.17g, should be %.17Lg", b, r) + sh);
      dvec t = sv, q = z; double t2 = ta, k2 = ka; int how = (int)s.pick(3); if (how == 0) t2 = -t2; else if (how == 1) k2 = -k2; else if (!bl.empty()) { dvec& x = s.chance(50) ? t : q; auto& B = bl[s.pick(bl.size())]; if (B.d > 1 && s.chance(60)) { x[B.o] *= 0.5 * s.pos_in(0.1, 1); ld mm = margin_of(&x[B.o], B.d); if (mm >= 0) x[B.o] = -x[B.o]; } else x[B.o] = -x[B.o]; } else t2 = -t2; double bo = evalSymmetricBarrierValue(t.data(), q.data(), t2, k2, C, D); c.subevals++; if (!(bo >= 1e200)) { if (how == 1) c.label("kappa <= 0"); else c.fail(fmt("barrier value %.17g outside the cone, should be infinite", bo) + sh); } c.label("barrier value"); }
    if (soc2) c.nontrivial(P.hash() ^ (uint64_t)(gs * 1e6) ^ (uint64_t)(fabs(sv[S.m - 1]) * 1e9));
  };
  return p;
}
