// C32: the linear system the solver factors is the Newton system of the problem.
#include "kern.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C32"; p.quick = 1250000; p.thorough = 6000000; p.min_nontrivial_pct = 50;
  p.rule = "Problems with any cones, 0..8 equalities, empty rows and columns, before and after solves and data updates. The permuted matrix held by the workspace, put back in order and with the auxiliary rows of second-order cones eliminated in long double, must be [0 A' G'; A 0 0; G 0 -V] up to the static regularization: V = I at the start (no exponential cones: with them it is not used), and for interior slack/multiplier pairs over 4 decades V z = s on symmetric cones with V J V = eta^4 J on second-order cones, V = mu H(z) on exponential cones. Factorization succeeds with pivots of the declared signs and solving a random right-hand side leaves a small residual in the same system. Non-trivial: at least one entry in A or G and one cone row.";
  p.run = [](Ctx& c) {
    if (!(kkt_init && kkt_update && kkt_factor && kkt_solve && updateScalings)) throw Discard();
    Src& s = c.s; GenOpt o; o.big_pct = 6; o.huge_pct = 1; Shape S = gen_shape(c, o); if (S.m == 0) throw Discard(); bool wellposed = s.chance(60); Prob P; Dense G(S.m, S.n), A(S.p, S.n);
    if (wellposed) gen_matrices(c, S, G, A, 2); else { fill_random(c, G, S.density, 2); fill_random(c, A, S.density, 2); }
    assemble(S, G, A, P); P.h = gen_vec(c, S.m, 3); P.b = gen_vec(c, S.p, 3); P.c = gen_vec(c, S.n, 3); P.hasA = S.p > 0 || s.chance(30); if (c.want_note) P.print(c.note);
    Inst I(P); if (!I.setup()) c.fail("setup refused " + P.shape()); pwork* W = I.w; kkt* K = W->KKT; std::string sh = " " + P.shape(); label_shape(c, P);
    long n = S.n, pp = S.p, m = S.m, N = K->PKPt->n, ex = N - n - pp - m; long ns = (long)S.q.size(); if (ex != 0 && ex != 2 * ns) c.fail(fmt("system of size %ld for n=%ld p=%ld m=%ld", N, n, pp, m) + sh); bool expd = ex > 0;
    std::vector<long> zi(m), aux; { long k = n + pp, j = 0; for (long i = 0; i < S.l; i++) zi[j++] = k++; for (auto d : S.q) { for (long i = 0; i < d; i++) zi[j++] = k++; if (expd) { aux.push_back(k); aux.push_back(k + 1); k += 2; } } for (long i = 0; i < 3 * S.nex; i++) zi[j++] = k++; }
    std::vector<char> seen(N, 0); for (long i = 0; i < N; i++) { long q = K->Pinv[i]; if (q < 0 || q >= N || seen[q]) c.fail("ordering is not a permutation" + sh); seen[q] = 1; if (K->P[q] != i) c.fail("ordering and its inverse disagree" + sh); }
    std::vector<int> want(N, -1); for (long j = 0; j < n; j++) want[j] = 1; for (size_t i = 1; i < aux.size(); i += 2) want[aux[i]] = 1;
    for (long i = 0; i < N; i++) if (K->Sign[K->Pinv[i]] != want[i]) c.fail(fmt("sign of row %ld is %ld", i, (long)K->Sign[K->Pinv[i]]) + sh);
    const ld DS = 2.5e-7L;   // no regularization of the diagonal larger than this (documented static regularization is 7e-8)
    std::vector<ld> M; auto at = [&](long i, long j) -> ld& { return M[i * N + j]; };
    // upper triangle of the permuted matrix -> dense, original order
    auto load = [&]() { M.assign(N * N, 0); spmat* Q = K->PKPt; for (long j = 0; j < N; j++) for (long k = Q->jc[j]; k < Q->jc[j + 1]; k++) { long i = Q->ir[k]; if (i > j) c.fail("entry below the diagonal" + sh); long a = K->P[i], b = K->P[j]; at(a, b) = Q->pr[k]; at(b, a) = Q->pr[k]; } };
    auto blocks_ok = [&](const char* when) {
      load(); Dense Gd(m, n), Ad(pp, n); for (long j = 0; j < n; j++) { for (long k = W->G->jc[j]; k < W->G->jc[j + 1]; k++) Gd(W->G->ir[k], j) = W->G->pr[k]; if (pp) for (long k = W->A->jc[j]; k < W->A->jc[j + 1]; k++) Ad(W->A->ir[k], j) = W->A->pr[k]; }
      for (long i = 0; i < n + pp; i++) for (long j = 0; j <= i; j++) { ld v = at(i, j), r = i >= n && j < n ? (ld)Ad(i - n, j) : 0; if (i == j ? !(fabsl(v) <= DS && (i < n ? v >= 0 : v <= 0)) : v != r) c.fail(fmt("entry (%ld,%ld) %s is %.17Lg, should be %.17Lg", i, j, when, v, r) + sh); }
      for (long i = 0; i < m; i++) { for (long j = 0; j < n; j++) if (at(zi[i], j) != Gd(i, j)) c.fail(fmt("entry of G (%ld,%ld) %s is %.17Lg, should be %.17g", i, j, when, at(zi[i], j), Gd(i, j)) + sh); for (long j = 0; j < pp; j++) if (at(zi[i], n + j) != 0) c.fail("entry between A and G rows" + sh); }
      for (long a : aux) for (long j = 0; j < n + pp; j++) if (at(a, j) != 0) c.fail("auxiliary row touches x or y" + sh);
    };
    // -V with the auxiliary rows eliminated; tol gets what the regularization and cancellation may contribute
    std::vector<ld> V, T; auto schur = [&]() { V.assign(m * m, 0); T.assign(m * m, 0); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { ld v = at(zi[i], zi[j]), t = fabsl(v) * 1e-13L + (i == j ? DS : 0); for (long a : aux) { ld x = at(zi[i], a), y = at(zi[j], a), d = at(a, a); if (x == 0 || y == 0) continue; v -= x * y / d; t += 1e-13L * fabsl(x * y / d) + DS * fabsl(x / d * y / d); } V[i * m + j] = -v; T[i * m + j] = t; } };
    for (size_t i = 0; i + 1 < aux.size(); i += 2) { load(); if (at(aux[i], aux[i + 1]) != 0) c.fail("auxiliary rows of one cone are coupled" + sh); }
    auto blk = [&](long i) { if (i < S.l) return i; long k = S.l, b = S.l; for (auto d : S.q) { if (i < k + d) return b; k += d; b++; } return b + (i - k) / 3; };
    auto offblocks = [&](const char* when) { for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) if (blk(i) != blk(j) && V[i * m + j] != 0) c.fail(fmt("rows %ld and %ld of different cones are coupled ", i, j) + when + sh); };
    // factor and solve with a right-hand side for (x, y, z)
    auto solves = [&](bool init, const char* when, ld cond) {
      c.subevals++; idxint r = kkt_factor(K, W->stgs->eps, W->stgs->delta); if (r != KKT_OK) c.fail(std::string("factorization failed ") + when + sh); for (long i = 0; i < N; i++) if (!(K->D[i] * K->Sign[i] > 0)) c.fail(fmt("pivot %ld is %g %s", i, K->D[i], when) + sh);
      dvec rhs(N, 0.0), b0(n + pp + m); for (long i = 0; i < n + pp; i++) rhs[K->Pinv[i]] = b0[i] = s.nz(2, 32); for (long i = 0; i < m; i++) rhs[K->Pinv[zi[i]]] = b0[n + pp + i] = s.nz(2, 32); dvec keep = rhs, dx(n + 1, 7.5), dy(pp + 1, 7.5), dz(m + 1, 7.5); auto GP = std::vector<double>(W->G->pr, W->G->pr + W->G->nnz);
      idxint it = kkt_solve(K, W->A, W->G, rhs.data(), dx.data(), dy.data(), dz.data(), n, pp, m, W->C, init, W->stgs->nitref); if (it < 0 || it > W->stgs->nitref) c.fail(fmt("%ld refinement steps", (long)it) + sh); if (rhs != keep) c.fail("right-hand side changed" + sh); if (dx[n] != 7.5 || dy[pp] != 7.5 || dz[m] != 7.5) c.fail("direction written past its end" + sh); if (!std::equal(GP.begin(), GP.end(), W->G->pr)) c.fail("solving changed G" + sh);
      ld nb = 1, nx = 0, res = 0, nV = 0; for (double v : b0) nb = std::max<ld>(nb, fabs(v)); for (long i = 0; i < n; i++) nx = std::max<ld>(nx, fabs(dx[i])); for (long i = 0; i < pp; i++) nx = std::max<ld>(nx, fabs(dy[i])); for (long i = 0; i < m; i++) nx = std::max<ld>(nx, fabs(dz[i])); for (auto v : V) nV = std::max(nV, fabsl(v)); ld nT = 0; for (auto v : T) nT = std::max(nT, v);
      for (long i = 0; i < n; i++) { ld v = b0[i]; for (long j = 0; j < pp; j++) v -= at(n + j, i) * dy[j]; for (long j = 0; j < m; j++) v -= at(zi[j], i) * dz[j]; res = std::max(res, fabsl(v)); } for (long i = 0; i < pp; i++) { ld v = b0[n + i]; for (long j = 0; j < n; j++) v -= at(n + i, j) * dx[j]; res = std::max(res, fabsl(v)); } for (long i = 0; i < m; i++) { ld v = b0[n + pp + i]; for (long j = 0; j < n; j++) v -= at(zi[i], j) * dx[j]; for (long j = 0; j < m; j++) v += V[i * m + j] * dz[j]; res = std::max(res, fabsl(v)); }
      if (!std::isfinite((double)nx) || !std::isfinite((double)res)) { if (wellposed && cond < 1e6) c.fail(std::string("non-finite direction ") + when + sh); return; }
      if (wellposed && cond < 1e6) { // first two rows, with the regularization kept or removed by the refinement
        ld r1 = 0, r2 = 0, big = 1; for (auto v : M) big = std::max(big, 1.0L); for (long i = 0; i < n + pp; i++) { ld v = b0[i], a = 0; for (long j = 0; j < n + pp; j++) if (j != i) { ld t = at(i, j) * (j < n ? dx[j] : dy[j - n]); v -= t; a += fabsl(t); } for (long j = 0; j < m; j++) { ld t = at(zi[j], i) * dz[j]; v -= t; a += fabsl(t); } ld g = at(i, i) * (i < n ? dx[i] : dy[i - n]); r1 = std::max(r1, fabsl(v) / (nb + a)); r2 = std::max(r2, fabsl(v - g) / (nb + a)); }
        ld q = std::min(r1, r2); hist(c, "relative residual of the first rows", (double)q); if (!(q <= 1e-8L)) c.fail(fmt("relative residual of the x and y rows is %.3Lg ", q) + when + sh); }
      if (wellposed && cond < 1e6) { ld q = res / (1e-10L * nb * std::max<ld>(1, 1) + (nT + 4 * DS) * nx * m); hist(c, init ? "residual / tolerance (start)" : "residual / tolerance", (double)q); if (!(q <= 1)) c.fail(fmt("solution of the linear system leaves a residual of %.3Lg (rhs %.3Lg, solution %.3Lg) ", res, nb, nx) + when + sh); }
    };
    auto start = [&](const char* when) { kkt_init(K->PKPt, K->PK, W->C); c.subevals++; blocks_ok(when); schur(); offblocks(when); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { ld r = i == j; if (!(fabsl(V[i * m + j] - r) <= T[i * m + j])) c.fail(fmt("starting scaling block (%ld,%ld) is %.17Lg", i, j, V[i * m + j]) + sh); } solves(true, when, 1); };
    auto scaled = [&](const char* when) {
      double gs = s.logpos(-1, 1), gz = s.logpos(-1, 1), mu = s.logpos(-3, 1); dvec sv, z, lam(m, 0.0); Shape S2 = S; int_point(c, S2, sv, false, .1, 3); int_point(c, S2, z, true, .1, 3); for (auto& v : sv) v *= gs; for (auto& v : z) v *= gz; for (long i = 0; i < S.l; i++) { sv[i] *= s.logpos(-1, 1); z[i] *= s.logpos(-1, 1); }
      std::vector<EPt> ep; for (long e = 0; e < S.nex; e++) { long k = m - 3 * (S.nex - e); ep.push_back(ept(z[k], z[k + 1], z[k + 2])); if (!(ep.back().r > 0)) throw Discard(); }
      idxint r = updateScalings(W->C, sv.data(), z.data(), lam.data(), mu); if (r != INSIDE_CONE) c.fail(std::string("interior pair refused ") + when + sh); kkt_update(K->PKPt, K->PK, W->C); c.subevals++; blocks_ok(when); schur(); offblocks(when);
      for (long i = 0; i < S.l; i++) { ld v = (ld)sv[i] / z[i]; if (!(fabsl(V[i * m + i] - v) <= T[i * m + i] + 1e-13L * v)) c.fail(fmt("linear row %ld: scaling %.17Lg, s/z = %.17Lg", i, V[i * m + i], v) + sh); }
      long k = S.l; ld cond = 1; for (auto d : S.q) { auto jn = [&](const double* u) { ld t = 0; for (long i = 1; i < d; i++) t += (ld)u[i] * u[i]; return (ld)u[0] * u[0] - t; }; ld e4 = jn(&sv[k]) / jn(&z[k]);
        for (long i = 0; i < d; i++) { ld v = 0, t = 0; for (long j = 0; j < d; j++) { v += V[(k + i) * m + k + j] * z[k + j]; t += (T[(k + i) * m + k + j] + 1e-13L * fabsl(V[(k + i) * m + k + j])) * fabsl((ld)z[k + j]); } t = 4 * t + 1e-11L * fabsl((ld)sv[k]); if (!(fabsl(v - sv[k + i]) <= t)) c.fail(fmt("second-order cone at row %ld: V z = %.17Lg, s = %.17g (entry %ld)", k, v, sv[k + i], i) + sh); }
        for (long i = 0; i < d; i++) for (long j = 0; j < d; j++) { ld v = 0, t = 0; for (long q = 0; q < d; q++) { ld a = V[(k + i) * m + k + q], b = V[(k + q) * m + k + j]; v += (q ? -1 : 1) * a * b; t += fabsl(a) * T[(k + q) * m + k + j] + fabsl(b) * T[(k + i) * m + k + q] + 1e-13L * fabsl(a * b); } ld w = i == j ? (i ? -e4 : e4) : 0; if (!(fabsl(v - w) <= 4 * t + 1e-11L * e4)) c.fail(fmt("second-order cone at row %ld: V J V (%ld,%ld) is %.17Lg, should be %.17Lg", k, i, j, v, w) + sh); } k += d; }
      for (long e = 0; e < S.nex; e++, k += 3) { ld H[3][3]; e_hess(ep[e], H); ld sc = (fabsl(ep[e].w) + fabsl(ep[e].u) * (1 + fabsl(ep[e].l))) / ep[e].r + 1; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ld v = mu * H[i][j], t = T[(k + i) * m + k + j] + 1e-13L * sc * sc * mu * (fabsl(H[i][j]) + sqrtl(fabsl(H[i][i] * H[j][j]))); if (!(fabsl(V[(k + i) * m + k + j] - v) <= t)) c.fail(fmt("exponential cone at row %ld: block (%d,%d) is %.17Lg, mu H = %.17Lg", k, i, j, V[(k + i) * m + k + j], v) + sh); cond = std::max(cond, fabsl(v)); } }
      for (auto v : V) cond = std::max(cond, fabsl(v)); if (S.nex && mu < 1e-2) cond = 1e9; solves(false, when, cond);
    };
    std::vector<std::unique_ptr<Prob>> keep; long rounds = s.range(1, 3);
    for (long t = 0; t < rounds; t++) { const char* when = t ? "after changes" : "after setup"; if (!S.nex && s.chance(70)) start(when); // with exponential cones the solver does not use the starting matrix
       if (s.chance(70)) scaled(when);
      if (t + 1 < rounds) { if (s.chance(50)) { W->stgs->maxit = s.range(0, 8); W->stgs->verbose = 0; I.solve(); c.label("solved in between"); }
        else { std::unique_ptr<Prob> U(new Prob(P)); for (auto& v : U->G.pr) v *= s.pos_in(.75, 1.25); for (auto& v : U->A.pr) v *= s.pos_in(.75, 1.25); for (auto& v : U->h) v += s.val(1); wellposed = false; bool a = P.p > 0 || P.hasA; static double dz1[1]; ECOS_updateData(W, U->G.pr.empty() ? dz1 : U->G.pr.data(), a ? (U->A.pr.empty() ? dz1 : U->A.pr.data()) : NULL, U->c.data(), U->h.data(), P.p ? U->b.data() : NULL); keep.push_back(std::move(U)); c.label("data updated in between"); } } }
    if (P.G.nnz() + P.A.nnz()) c.nontrivial(P.hash());
    I.cleanup();
  };
  return p;
}
