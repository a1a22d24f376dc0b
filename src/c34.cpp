// C34: every iteration is a damped Newton step on the homogeneous embedding, strictly inside the cones.
#include "kern.hpp"
#include "hist.hpp"
#include <set>
namespace {
struct Snap { dvec x, y, s, z; double tau, kap, mu; stats info; };
pwork* cur = nullptr; std::vector<Snap>* rec = nullptr;
typedef std::vector<ld> lv;
}
extern "C" idxint __real_updateScalings(cone* C, pfloat* s, pfloat* z, pfloat* lambda, pfloat mu);
extern "C" idxint __wrap_updateScalings(cone* C, pfloat* s, pfloat* z, pfloat* lambda, pfloat mu) {
  if (cur && rec && C == cur->C && s == cur->s && z == cur->z) { pwork* w = cur; Snap t; t.x.assign(w->x, w->x + w->n); t.y.assign(w->y, w->y + w->p); t.s.assign(w->s, w->s + w->m); t.z.assign(w->z, w->z + w->m); t.tau = w->tau; t.kap = w->kap; t.mu = mu; t.info = *w->info; rec->push_back(t); }
  return __real_updateScalings(C, s, z, lambda, mu);
}
static bool lsolve(std::vector<lv>& M, lv& b) {   // Gaussian elimination with partial pivoting; false: (nearly) singular
  size_t N = b.size(); ld big = 0; for (auto& r : M) for (ld v : r) big = std::max(big, fabsl(v));
  for (size_t k = 0; k < N; k++) { size_t q = k; for (size_t i = k + 1; i < N; i++) if (fabsl(M[i][k]) > fabsl(M[q][k])) q = i; if (!(fabsl(M[q][k]) > 1e-14L * big)) return false; std::swap(M[q], M[k]); std::swap(b[q], b[k]); for (size_t i = k + 1; i < N; i++) { ld f = M[i][k] / M[k][k]; if (f == 0) continue; for (size_t j = k; j < N; j++) M[i][j] -= f * M[k][j]; b[i] -= f * b[k]; } }
  for (size_t k = N; k-- > 0;) { for (size_t j = k + 1; j < N; j++) b[k] -= M[k][j] * b[j]; b[k] /= M[k][k]; } return true;
}
struct Dir { lv x, y, s, z; ld tau = 0, kap = 0; };
struct Model {
  long n, m, p, l, nex, D; ivec q; Dense G, A; dvec c, b, h; Model() : G(0, 0), A(0, 0) {}
  // current point
  const Snap* P = nullptr; std::vector<lv> W, V; lv lam; ld mu = 0; std::vector<EPt> ep; std::string bad;
  long fex() const { return m - 3 * nex; }
  ld jn(const lv& v, long k, long d) const { ld t = v[k] * v[k]; for (long i = 1; i < d; i++) t -= v[k + i] * v[k + i]; return t; }
  // scaling at the point; W symmetric block diagonal (symmetric cones), V = W^2 or mu times the barrier Hessian
  bool at(const Snap& t) {
    P = &t; ep.clear(); W.assign(m, lv(m, 0)); V = W; lam.assign(m, 0); mu = (ld)t.kap * t.tau; for (long i = 0; i < m; i++) mu += (ld)t.s[i] * t.z[i]; mu /= D + 1; lv S(t.s.begin(), t.s.end()), Z(t.z.begin(), t.z.end());
    if (!(t.tau > 0) || !(t.kap > 0)) { bad = "tau or kappa not positive"; return false; }
    for (long i = 0; i < l; i++) { if (!(S[i] > 0) || !(Z[i] > 0)) { bad = fmt("inequality %ld: slack %.3g, multiplier %.3g", i, t.s[i], t.z[i]); return false; } W[i][i] = sqrtl(S[i] / Z[i]); V[i][i] = S[i] / Z[i]; lam[i] = sqrtl(S[i] * Z[i]); }
    long k = l; for (auto d : q) { ld sj = jn(S, k, d), zj = jn(Z, k, d); if (!(sj > 0) || !(zj > 0) || !(S[k] > 0) || !(Z[k] > 0)) { bad = fmt("second-order cone at row %ld left", k); return false; } ld sn = sqrtl(sj), zn = sqrtl(zj), g = 0; for (long i = 0; i < d; i++) g += S[k + i] / sn * Z[k + i] / zn; g = sqrtl((1 + g) / 2); lv w(d); for (long i = 0; i < d; i++) w[i] = (S[k + i] / sn + (i ? -1 : 1) * Z[k + i] / zn) / (2 * g); ld eta = sqrtl(sn / zn);
      for (long i = 0; i < d; i++) for (long j = 0; j < d; j++) W[k + i][k + j] = eta * (i == 0 ? w[j] : j == 0 ? w[i] : (i == j ? 1 : 0) + w[i] * w[j] / (1 + w[0]));
      for (long i = 0; i < d; i++) for (long j = 0; j < d; j++) { ld v = 0; for (long r = 0; r < d; r++) v += W[k + i][k + r] * W[k + r][k + j]; V[k + i][k + j] = v; }
      for (long i = 0; i < d; i++) { ld v = 0; for (long j = 0; j < d; j++) v += W[k + i][k + j] * Z[k + j]; lam[k + i] = v; } k += d; }
    for (long e = 0; e < nex; e++, k += 3) { if (!(Z[k] < 0) || !(Z[k + 1] > 0)) { bad = fmt("exponential cone at row %ld: multiplier outside", k); return false; } EPt E = ept(Z[k], Z[k + 1], Z[k + 2]); if (!(E.r > 0)) { bad = fmt("exponential cone at row %ld: multiplier outside", k); return false; } if (!(S[k + 1] > 0) || !(S[k + 2] > 0) || !(S[k + 2] * logl(S[k + 1] / S[k + 2]) - S[k] > 0)) { bad = fmt("exponential cone at row %ld: slack outside", k); return false; } ep.push_back(E); ld H[3][3]; e_hess(E, H); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) V[k + i][k + j] = mu * H[i][j]; }
    return true;
  }
  // Jordan algebra of the symmetric cones
  lv prod(const lv& a, const lv& v) const { lv r(m, 0); for (long i = 0; i < l; i++) r[i] = a[i] * v[i]; long k = l; for (auto d : q) { for (long i = 0; i < d; i++) r[k] += a[k + i] * v[k + i]; for (long i = 1; i < d; i++) r[k + i] = a[k] * v[k + i] + v[k] * a[k + i]; k += d; } return r; }
  lv div(const lv& a, const lv& v) const { lv r(m, 0); for (long i = 0; i < l; i++) r[i] = v[i] / a[i]; long k = l; for (auto d : q) { ld rho = jn(a, k, d), t = a[k] * v[k]; for (long i = 1; i < d; i++) t -= a[k + i] * v[k + i]; r[k] = t / rho; for (long i = 1; i < d; i++) r[k + i] = (v[k + i] - a[k + i] * r[k]) / a[k]; k += d; } return r; }
  lv mulW(const lv& v, long to) const { lv r(m, 0); for (long i = 0; i < to; i++) for (long j = 0; j < to; j++) if (W[i][j] != 0) r[i] += W[i][j] * v[j]; return r; }
  lv mulV(const lv& v) const { lv r(m, 0); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) if (V[i][j] != 0) r[i] += V[i][j] * v[j]; return r; }
  // Newton direction with centering sg and second-order correction from the affine direction (null: affine direction itself)
  bool newton(ld sg, const Dir* aff, Dir& o, ld reg) const {
    const Snap& t = *P; long N = n + p + m + 1; std::vector<lv> M(N, lv(N, 0)); lv r(N, 0); ld f = 1 - sg; lv bs = prod(lam, lam); ld bk = (ld)t.kap * t.tau;
    if (aff) { // W^-1 ds o W dz; W^-1 ds = -lambda - W dz for the affine direction
      lv wz = mulW(aff->z, fex()), ws(m, 0); for (long i = 0; i < fex(); i++) ws[i] = -lam[i] - wz[i]; lv cr = prod(ws, wz); for (long i = 0; i < fex(); i++) bs[i] += cr[i]; for (long i = 0; i < l; i++) bs[i] -= sg * mu; long k = l; for (auto d : q) { bs[k] -= sg * mu; k += d; } bk += aff->kap * aff->tau - sg * mu; }
    lv g = mulW(div(lam, bs), fex()); for (long e = 0; e < nex; e++) { long k = fex() + 3 * e; ld gr[3]; e_grad(ep[e], gr); for (int i = 0; i < 3; i++) g[k + i] = (ld)t.s[k + i] + sg * mu * gr[i]; }
    for (long j = 0; j < n; j++) { ld v = -(ld)c[j] * t.tau; for (long i = 0; i < p; i++) { M[j][n + i] = A(i, j); v -= (ld)A(i, j) * t.y[i]; } for (long i = 0; i < m; i++) { M[j][n + p + i] = G(i, j); v -= (ld)G(i, j) * t.z[i]; } M[j][N - 1] = c[j]; r[j] = f * v; }
    for (long i = 0; i < p; i++) { ld v = -(ld)b[i] * t.tau; for (long j = 0; j < n; j++) { M[n + i][j] = A(i, j); v += (ld)A(i, j) * t.x[j]; } M[n + i][N - 1] = -b[i]; r[n + i] = -f * v; }
    for (long i = 0; i < m; i++) { ld v = (ld)t.s[i] - (ld)h[i] * t.tau; for (long j = 0; j < n; j++) { M[n + p + i][j] = G(i, j); v += (ld)G(i, j) * t.x[j]; } for (long j = 0; j < m; j++) M[n + p + i][n + p + j] = -V[i][j]; M[n + p + i][N - 1] = -h[i]; r[n + p + i] = -f * v + g[i]; }
    ld rt = t.kap; for (long j = 0; j < n; j++) { M[N - 1][j] = c[j]; rt += (ld)c[j] * t.x[j]; } for (long i = 0; i < p; i++) { M[N - 1][n + i] = b[i]; rt += (ld)b[i] * t.y[i]; } for (long i = 0; i < m; i++) { M[N - 1][n + p + i] = h[i]; rt += (ld)h[i] * t.z[i]; } M[N - 1][N - 1] = -(ld)t.kap / t.tau; r[N - 1] = -f * rt + bk / t.tau;
    if (reg > 0) { for (long j = 0; j < n; j++) M[j][j] += reg; for (long i = 0; i < p; i++) M[n + i][n + i] -= reg; std::vector<char> plus(m, 0); long k = l; for (auto d : q) { k += d; plus[k - 1] = 1; } for (long i = 0; i < m; i++) M[n + p + i][n + p + i] += plus[i] ? reg : -reg; }
    if (!lsolve(M, r)) return false; o.x.assign(r.begin(), r.begin() + n); o.y.assign(r.begin() + n, r.begin() + n + p); o.z.assign(r.begin() + n + p, r.begin() + n + p + m); o.tau = r[N - 1]; o.kap = -(bk + (ld)t.kap * o.tau) / t.tau; lv vz = mulV(o.z); o.s.assign(m, 0); for (long i = 0; i < m; i++) o.s[i] = -g[i] - vz[i]; return true;
  }
  // largest step that keeps the symmetric cones, tau and kappa non-negative
  mutable ld blk = 1;   // distance of the blocking entry from the boundary
  ld limit(const Dir& d) const {
    const Snap& t = *P; ld a = INFINITY; auto one = [&](ld v, ld dv) { if (dv < 0 && -v / dv < a) { a = -v / dv; blk = v; } }; for (long i = 0; i < l; i++) { one(t.s[i], d.s[i]); one(t.z[i], d.z[i]); } one(t.tau, d.tau); one(t.kap, d.kap);
    long k = l; for (auto dd : q) { for (int w = 0; w < 2; w++) { const dvec& v = w ? t.z : t.s; const lv& dv = w ? d.z : d.s; ld A0 = dv[k] * dv[k], B = (ld)v[k] * dv[k], C = (ld)v[k] * v[k]; for (long i = 1; i < dd; i++) { A0 -= dv[k + i] * dv[k + i]; B -= (ld)v[k + i] * dv[k + i]; C -= (ld)v[k + i] * v[k + i]; } // C + 2 B a + A0 a^2 = 0, smallest positive root
        ld nn = 0; for (long i = 1; i < dd; i++) nn += (ld)v[k + i] * v[k + i]; ld mg = (ld)v[k] - sqrtl(nn), disc = B * B - A0 * C; ld sq = sqrtl(std::max<ld>(disc, 0)); if (B <= 0) { ld r1 = C / (-B + sq); if (r1 > 0 && r1 < a) { a = r1; blk = mg; } } else if (A0 < 0) { ld r1 = (-B - sq) / A0; if (r1 > 0 && r1 < a) { a = r1; blk = mg; } } } k += dd; }
    return a;
  }
};
static ld primal_bar(ld x, ld y, ld z) { // barrier conjugate to e_bar: omega(1 - x/z - log z + log y)
  ld a = 1 - x / z - logl(z) + logl(y), o = a < 1 ? expl(a) / (1 + expl(a)) + .1L : a - logl(a) + .1L; for (int i = 0; i < 60; i++) { ld f = o + logl(o) - a, nx = o - f / (1 + 1 / o); if (nx <= 0) nx = o / 2; if (fabsl(nx - o) <= 1e-18L * o) { o = nx; break; } o = nx; }
  ld t = (o - 1) * (o - 1) / o; return -logl(t) - 2 * logl(z) - logl(y) - 3;
}
eng::Prop make_prop() {
  Prop p; p.id = "C34"; p.quick = 200000; p.thorough = 4000000; p.min_nontrivial_pct = 60;
  p.rule = "Problems with any cones (solvable, infeasible, unbounded), fresh or after a data update, whose iterates are observed as the solver rescales. Each iterate must be strictly inside every cone with tau, kappa > 0 and the mu passed on must be that of the point; the start is the least-squares start (or the central point with exponential cones); while the system is well conditioned every step must equal the damped predictor-corrector Newton direction of a dense long-double model, with the centering following from the affine step and the step length from the distance to the boundary (backtracking only for a stated reason). Non-trivial: at least two steps compared with the model.";
  p.assumptions = {"steps are compared while mu has not fallen below 1e-5 of its start and the model's own direction is well conditioned"};
  p.run = [](Ctx& c) {
    Src& s = c.s; GenOpt o; o.big_pct = 5; o.big_l = 16; o.big_k = 5; o.big_d = 12; o.big_e = 5; o.big_p = 7; o.big_n = 16; o.maxcols = 6; o.maxrows = 9; int kind = s.weighted({6, 2, 2}); Prob P = kind == 0 ? gen_solvable(c, o).P : kind == 1 ? gen_pinf(c, o).P : gen_dinf(c, o).P; if (c.want_note) P.print(c.note); label_shape(c, P);
    std::unique_ptr<Prob> U; Prob U0; Inst I(P); if (!I.setup()) c.fail("setup refused " + P.shape()); pwork* w = I.w; Set T; if (s.chance(25)) T.nitref = s.range(2, 12); put(w, T); if (s.chance(20)) w->stgs->gamma = s.pos_in(.8, .99); if (s.chance(15)) w->stgs->bk_scale = s.pos_in(.5, .9); std::string sh = " " + P.shape();
    if (s.chance(25)) { U.reset(new Prob(P)); for (auto& v : U->G.pr) v *= s.pos_in(.9, 1.1); for (auto& v : U->A.pr) v *= s.pos_in(.9, 1.1); for (auto& v : U->c) v += s.val(.1); for (auto& v : U->h) v += s.val(.1); U0 = *U; static double dz1[1]; bool a = P.p > 0 || P.hasA; if (c.want_note) { c.note << "then\n"; U->print(c.note); } ECOS_updateData(w, U->G.pr.empty() ? dz1 : U->G.pr.data(), a ? (U->A.pr.empty() ? dz1 : U->A.pr.data()) : NULL, U->c.data(), U->h.data(), P.p ? U->b.data() : NULL); c.label("data updated before"); }
    else if (s.chance(15)) { I.solve(); c.label("solved before"); }
    std::vector<Snap> R; Model M; M.n = P.n; M.m = P.m; M.p = P.p; M.l = P.l; M.q = P.q; M.nex = P.nex; M.D = P.l + (long)P.q.size() + 3 * P.nex; cur = w; rec = &R; Sol r = I.solve(); cur = nullptr; rec = nullptr; c.subevals += R.size(); c.label("exit " + code_name(r.code)); if (R.empty()) return;
    // data as the solver sees it: equilibrated
    const Prob& F = U ? U0 : P;   // the arrays handed to the update are scaled in place
    Dense G = to_dense(F.G), A = to_dense(F.A); M.G = Dense(P.m, P.n); M.A = Dense(P.p, P.n); for (long j = 0; j < P.n; j++) { for (long i = 0; i < P.m; i++) if (G.p(i, j)) M.G(i, j) = G(i, j) / w->Gequil[i] / w->xequil[j]; for (long i = 0; i < P.p; i++) if (A.p(i, j)) M.A(i, j) = A(i, j) / w->Aequil[i] / w->xequil[j]; } M.c = F.c; M.b = F.b; M.h = F.h; for (long j = 0; j < P.n; j++) M.c[j] /= w->xequil[j]; for (long i = 0; i < P.p; i++) M.b[i] /= w->Aequil[i]; for (long i = 0; i < P.m; i++) M.h[i] /= w->Gequil[i];
    auto nrm = [](const dvec& v) { ld t = 0; for (double a : v) t = std::max<ld>(t, fabs(a)); return t; }; auto dist = [](const dvec& a, const lv& b2) { ld t = 0; for (size_t i = 0; i < a.size(); i++) t = std::max(t, fabsl(a[i] - b2[i])); return t; };
    // start
    { const Snap& t = R[0]; if (t.tau != 1 || t.kap != 1) c.fail(fmt("starts with tau %g kappa %g", t.tau, t.kap) + sh);
      if (P.nex) { for (double v : t.x) if (v != 0) c.fail("x does not start at zero" + sh); for (double v : t.y) if (v != 0) c.fail("y does not start at zero" + sh); long k = 0; auto is = [&](long i, double a, double b) { if (!(fabs(t.s[i] - a) < 1e-14 && fabs(t.z[i] - b) < 1e-14)) c.fail(fmt("row %ld starts at %g, %g instead of the central point", i, t.s[i], t.z[i]) + sh); }; for (; k < P.l; k++) is(k, 1, 1); for (auto d : P.q) for (long i = 0; i < d; i++, k++) is(k, i ? 0 : 1, i ? 0 : 1);
        for (; k < P.m; k += 3) { EPt E = ept(t.z[k], t.z[k + 1], t.z[k + 2]); ld g[3]; e_grad(E, g); for (int i = 0; i < 3; i++) if (!(fabsl(t.s[k + i] + g[i]) < 1e-7L && fabsl(t.s[k + i] - t.z[k + i]) < 1e-7L)) c.fail(fmt("exponential cone at row %ld does not start at its central point", k) + sh); } }
      else { long N = P.n + P.p + P.m; std::vector<lv> K(N, lv(N, 0)); for (long j = 0; j < P.n; j++) { for (long i = 0; i < P.p; i++) K[j][P.n + i] = K[P.n + i][j] = M.A(i, j); for (long i = 0; i < P.m; i++) K[j][P.n + P.p + i] = K[P.n + P.p + i][j] = M.G(i, j); } for (long i = 0; i < P.m; i++) K[P.n + P.p + i][P.n + P.p + i] = -1; auto K2 = K; lv r1(N, 0), r2(N, 0); for (long i = 0; i < P.p; i++) r1[P.n + i] = M.b[i]; for (long i = 0; i < P.m; i++) r1[P.n + P.p + i] = M.h[i]; for (long j = 0; j < P.n; j++) r2[j] = -(ld)M.c[j];
        auto K3 = K; for (long j = 0; j < P.n; j++) K3[j][j] += DELTASTAT; for (long i = 0; i < P.p; i++) K3[P.n + i][P.n + i] -= DELTASTAT; for (long i = 0; i < P.m; i++) K3[P.n + P.p + i][P.n + P.p + i] -= DELTASTAT; auto K4 = K3; lv r3 = r1, r4 = r2;
        if (lsolve(K, r1) && lsolve(K2, r2) && lsolve(K3, r3) && lsolve(K4, r4)) { ld nx = 1, bd = 0; for (long i = 0; i < N; i++) bd = std::max(bd, std::max(fabsl(r1[i] - r3[i]), fabsl(r2[i] - r4[i]))); for (ld v : r1) nx = std::max(nx, fabsl(v)); for (ld v : r2) nx = std::max(nx, fabsl(v)); if (nx < 1e4) { ld e = 0; for (long j = 0; j < P.n; j++) e = std::max(e, fabsl(t.x[j] - r1[j])); for (long i = 0; i < P.p; i++) e = std::max(e, fabsl(t.y[i] - r2[P.n + i]));
          for (int wz = 0; wz < 2; wz++) { long k = 0; ld sh2 = 0; bool first = true; auto row = [&](bool unit) { ld d = (wz ? (ld)t.z[k] - r2[P.n + P.p + k] : (ld)t.s[k] + r1[P.n + P.p + k]); if (!unit) e = std::max(e, fabsl(d)); else if (first) { first = false; sh2 = d; } else e = std::max(e, fabsl(d - sh2)); k++; }; while (k < P.l) row(true); for (auto d : P.q) for (long i = 0; i < d; i++) row(i == 0); e = std::max(e, -sh2); }
          if (c.want_note) for (long i = 0; i < P.m; i++) c.note << fmt("  row %ld starts at s %.10g z %.10g, least squares %.10Lg %.10Lg\n", i, t.s[i], t.z[i], -r1[P.n + P.p + i], r2[P.n + P.p + i]);
          ld tol = 1e-6L * nx + 10 * bd; hist(c, "start: distance from the least-squares start / tolerance", (double)(e / tol)); if (!(e <= tol)) c.fail(fmt("start is %.3Lg away from the least-squares start ", e) + sh); c.label("start compared"); } } } }
    std::set<long> offs; int cmp = 0; ld mu0 = 0; bool stop = false;
    for (size_t k = 0; k < R.size(); k++) {
      const Snap& t = R[k]; std::string at = fmt(" (iterate %zu of %zu, exit %d)", k, R.size(), r.code) + sh; bool fin = std::isfinite(t.tau) && std::isfinite(t.kap); for (auto* v : {&t.x, &t.y, &t.s, &t.z}) for (double a : *v) fin &= std::isfinite(a); if (!fin) { c.label("non-finite iterate"); break; }
      if (!M.at(t)) { if (k + 1 == R.size() || k == 0) { c.label("left the cone in the last step"); if (k > 0 && mu0 > 0 && (ld)t.mu > 1e-5L * mu0 && !stop) c.fail("iterate outside the cone: " + M.bad + at); break; } c.fail("iterate outside the cone: " + M.bad + at); }
      ld am = (ld)t.kap * t.tau; for (long i = 0; i < P.m; i++) am += fabsl((ld)t.s[i] * t.z[i]); if (!(fabsl((ld)t.mu - M.mu) <= 1e-13L * am)) c.fail(fmt("mu passed on %.17g, of the point %.17Lg", t.mu, M.mu) + at);
      if (k == 0) mu0 = M.mu; if (k + 1 >= R.size() || stop) continue; const Snap& u = R[k + 1];
      if (M.mu < 1e-5L * mu0 || t.tau < 1e-4) { stop = true; continue; }
      ld cond = 1; for (long i = 0; i < P.m; i++) cond = std::max(cond, fabsl(M.V[i][i])); { long k2 = P.l; for (auto dm : P.q) { ld pr = 1; for (auto* v : {&t.s, &t.z}) { ld nn = 0; for (long i = 1; i < dm; i++) nn += (ld)(*v)[k2 + i] * (*v)[k2 + i]; ld mg = ((ld)(*v)[k2] * (*v)[k2] - nn) / (2 * (ld)(*v)[k2]), ra = (*v)[k2] / std::max(mg, 1e-30L); cond = std::max(cond, ra); pr *= ra; } cond = std::max(cond, sqrtl(pr)); k2 += dm; } } if (cond > 1e7) { c.label("step not compared: badly conditioned"); continue; }
      Dir a, d, a1, d1; if (!M.newton(0, nullptr, a, 0) || !M.newton(0, nullptr, a1, DELTASTAT)) { c.label("step not compared: singular"); continue; }
      auto band = [&](const Dir& u1, const Dir& u2) { ld e = std::max(fabsl(u1.tau - u2.tau), fabsl(u1.kap - u2.kap)); auto on = [&](const lv& v1, const lv& v2) { for (size_t i = 0; i < v1.size(); i++) e = std::max(e, fabsl(v1[i] - v2[i])); }; on(u1.x, u2.x); on(u1.y, u2.y); on(u1.s, u2.s); on(u1.z, u2.z); return e; };
      auto big = [](const lv& v) { ld t2 = 0; for (ld a2 : v) t2 = std::max(t2, fabsl(a2)); return t2; }; ld siz = nrm(t.s) + nrm(t.z) + nrm(t.x) + nrm(t.y) + t.tau + t.kap; auto dsiz = [&](const Dir& u1) { return big(u1.x) + big(u1.y) + big(u1.s) + big(u1.z) + fabsl(u1.tau) + fabsl(u1.kap); };
      if (band(a, a1) > 1e-5L * (siz + dsiz(a)) || !(dsiz(a) < 1e6L * siz)) { c.label("step not compared: badly conditioned"); continue; } auto mix = [&](const Dir& u1, const Dir& u2, ld th) { Dir o2 = u1; auto on = [&](lv& v1, const lv& v2) { for (size_t i = 0; i < v1.size(); i++) v1[i] += th * (v2[i] - v1[i]); }; on(o2.x, u2.x); on(o2.y, u2.y); on(o2.s, u2.s); on(o2.z, u2.z); o2.tau += th * (u2.tau - u1.tau); o2.kap += th * (u2.kap - u1.kap); return o2; };
      auto ltolof = [&](const Dir& u1, const Dir& u2) { ld l0 = M.limit(u1), e = 0; ld al0 = std::min<ld>(l0, 1), bl = M.blk; if (std::isfinite((double)l0)) e = al0 * al0 * (1e-7L + 1e-10L * cond) * (siz + dsiz(u1)) / std::max(bl, 1e-30L); for (ld th : {1.0L, -1.0L, 2.0L}) { ld l1 = M.limit(mix(u1, u2, th)); e = std::max(e, fabsl(std::min<ld>(l1, 1) - std::min<ld>(l0, 1))); } return 1e-6L + 2 * e; }; ld ltol = ltolof(a, a1); 
      ld al = std::min<ld>(std::max<ld>(M.limit(a), STEPMIN), STEPMAX), sa = u.info.step_aff;
      // exponential cones: 1 the point at this step is acceptable, 0 it is not, -1 too close to tell
      auto okat = [&](const Dir& dd, ld cand) -> int { ld tt = (ld)t.tau + cand * dd.tau, kk = (ld)t.kap + cand * dd.kap, mm = tt * kk, bar = 0, worst = INFINITY, marg = INFINITY, eps = 1e-7L * (siz + dsiz(dd)); lv S(P.m), Z(P.m); for (long i = 0; i < P.m; i++) { S[i] = t.s[i] + cand * dd.s[i]; Z[i] = t.z[i] + cand * dd.z[i]; mm += S[i] * Z[i]; } mm /= M.D + 1; bool feas = true; auto mg = [&](ld v) { marg = std::min(marg, fabsl(v)); if (!(v > 0)) feas = false; return v > 0; };
        for (long i = M.fex(); i < P.m; i += 3) { ld sz = 0; for (int j = 0; j < 3; j++) sz += S[i + j] * Z[i + j]; worst = std::min(worst, sz / 3 / mm); bool okz = mg(-Z[i]) & mg(Z[i + 1]); if (okz) { EPt E = ept(Z[i], Z[i + 1], Z[i + 2]); if (mg(E.r)) bar += e_bar(E); } bool oks = mg(S[i + 1]) & mg(S[i + 2]); if (oks && mg(S[i + 2] * logl(S[i + 1] / S[i + 2]) - S[i])) bar += primal_bar(S[i], S[i + 1], S[i + 2]); }
        if (marg < 100 * eps) return -1; if (!feas) return 0; if (!(mm > 100 * eps * eps)) return -1; if (fabsl(worst - .1L) < 1e-3L) return -1; if (worst < .1L) return 0;
        mg(tt); mg(kk); if (tt > 0 && kk > 0) bar -= logl(tt) + logl(kk); for (long i = 0; i < P.l; i++) { mg(S[i]); mg(Z[i]); if (S[i] > 0 && Z[i] > 0) bar -= logl(S[i]) + logl(Z[i]); } long i = P.l; for (auto dm : P.q) { for (auto* v : {&S, &Z}) { ld q2 = 0; for (long j = 1; j < dm; j++) q2 += (*v)[i + j] * (*v)[i + j]; mg((*v)[i] - sqrtl(q2)); ld jj = M.jn(*v, i, dm); if (jj > 0) bar -= .5L * logl(jj); } i += dm; }
        if (marg < 100 * eps || !feas) return -1; ld ce = bar + (M.D + 1) * logl(mm); if (c.want_note) c.note << fmt("  candidate %.6Lg centrality %.6Lg mu %.6Lg worst %.6Lg\n", cand, ce, mm, worst); if (fabsl(ce - w->stgs->centrality) < .05L) return -1; return ce < w->stgs->centrality; };
      auto cut = [&](const Dir& dd, const Dir& d2, ld st, bool aff, ld have) { ld g = w->stgs->gamma, bk = w->stgs->bk_scale, cand = st; for (int it = 0; it < w->stgs->max_bk_iter; it++, cand *= bk) {
          bool here = fabsl(cand * g - have) <= .03L * have; if (here) { ld e = fabsl(cand * g - have) / have; hist(c, aff ? "affine step error/tolerance" : "step length error/tolerance", (double)(e / ltol)); if (!(e <= 10 * ltol)) c.fail(fmt("%s step %.10Lg, model %.10Lg", aff ? "affine" : "combined", have, cand * g) + at); }
          int v = okat(dd, cand); for (ld th : {1.0L, -1.0L, 2.0L}) if (okat(mix(dd, d2, th), cand) != v) v = -1; c.label(v < 0 ? "candidate step: too close to tell" : v ? "candidate step: acceptable" : "candidate step: not acceptable");
          if (here) { if (v == 0) c.fail(fmt("%s step %.6Lg taken although the point tried is not acceptable", aff ? "affine" : "combined", have) + at); return; }
          if (v == 1) c.fail(fmt("%s step %.10Lg, but %.10Lg was acceptable", aff ? "affine" : "combined", have, cand * g) + at); }
        if (!(aff && have == 0)) c.fail(fmt("%s step %.10Lg is none of the backtracking steps from %.10Lg", aff ? "affine" : "combined", have, st) + at); };
      if (!P.nex) { ld e = fabsl(al - sa); hist(c, "affine step error/tolerance", (double)(e/ltol)); if (!(e <= 10 * ltol)) c.fail(fmt("affine step %.10Lg, distance to the boundary gives %.10Lg", sa, al) + at); } else cut(a, a1, al, true, sa);
      if (c.want_note) c.note << fmt("  iterate %zu: mu %.4Lg cond %.3Lg regularization changes affine direction by %.3Lg of %.3Lg, limits %.9Lg %.9Lg, tolerance %.3Lg, blocking %.3Lg\n", k, M.mu, cond, band(a, a1), siz + dsiz(a), M.limit(a), M.limit(a1), ltol, M.blk); ld sg = 1 - sa; sg = sg * sg * sg; sg = std::min<ld>(std::max<ld>(sg, SIGMAMIN), SIGMAMAX); if (!(fabsl(sg - u.info.sigma) <= 1e-12L * sg)) c.fail(fmt("centering %.15g after an affine step of %.15Lg", u.info.sigma, sa) + at);
      if (!M.newton(sg, &a, d, 0) || !M.newton(sg, &a1, d1, DELTASTAT)) continue; if (band(d, d1) > 1e-5L * (siz + dsiz(d))) { c.label("step not compared: badly conditioned"); continue; } ltol = ltolof(d, d1); ld st = u.info.step, lim = std::min<ld>(std::max<ld>(M.limit(d), STEPMIN), STEPMAX) * w->stgs->gamma;
      if (!P.nex) { ld e = fabsl(lim - st); hist(c, "step length error/tolerance", (double)(e/ltol)); if (!(e <= 10 * ltol)) c.fail(fmt("step %.10Lg, distance to the boundary gives %.10Lg", st, lim) + at); } else cut(d, d1, lim, false, st);
      auto nx = [&](const dvec& v, const lv& dv) { lv q2(v.size()); for (size_t i = 0; i < v.size(); i++) q2[i] = v[i] + st * dv[i]; return q2; }; 
      ld all = siz + dsiz(d); ld bd = st * band(d, d1); hist(c, "effect of the static regularization", (double)(bd / all)); auto judge = [&](const char* nm, ld e) { ld tol = (k < 2 ? 1e-6L : 1e-5L + 1e-9L * cond) * all + 10 * bd; hist(c, std::string("step error/tolerance ") + nm, (double)(e / tol)); if (!(e <= tol)) { offs.insert((long)k); c.label("step off"); } if (!(e <= std::max(tol, 1e-2L * all)) || offs.size() >= 2) c.fail(fmt("%s after the step is off by %.3Lg (size of point and direction %.3Lg, step %.6Lg, sigma %.3Lg, mu %.3Lg)", nm, e, all, st, sg, M.mu) + at); };
      judge("x", dist(u.x, nx(t.x, d.x))); judge("y", dist(u.y, nx(t.y, d.y))); judge("s", dist(u.s, nx(t.s, d.s))); judge("z", dist(u.z, nx(t.z, d.z))); judge("tau", fabsl(u.tau - (t.tau + st * d.tau))); judge("kappa", fabsl(u.kap - (t.kap + st * d.kap))); cmp++; c.label("steps compared"); if (u.info.cmbBack) c.label("steps compared after backtracking");
    }
    if (cmp >= 2) c.nontrivial(P.hash());
  };
  return p;
}
