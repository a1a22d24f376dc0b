// C26: the sparse LDL' factorisation and the triangular solves.
#include "common.hpp"
extern "C" {
#include "ldl.h"
}
#undef MAX
#undef MIN
typedef SuiteSparse_long L;
eng::Prop make_prop() {
  Prop p; p.id = "C26"; p.quick = 4000000; p.thorough = 16000000; p.min_nontrivial_pct = 50;
  p.rule = "Symmetric quasi-definite matrices (1..30 rows, sparse to dense, any symmetric permutation, rows of a column in any order, entries over 8 decades), some with zero or wrong-signed pivots that need dynamic regularisation; work arrays pre-filled with garbage. Symbolic counts and tree against dense elimination; LDL' = A off the regularised pivots; pivots have the required sign and size; solves have small residuals. Non-trivial: L has an off-diagonal entry.";
  p.run = [](Ctx& c) {
    Src& s = c.s; long n = s.chance(10) ? s.range(12, 30) : s.range(1, 10); long np = s.range(0, n); auto pm = s.perm(n); std::vector<L> Sg(n); for (long i = 0; i < n; i++) Sg[pm[i]] = i < np ? 1 : -1; bool bad = s.chance(25); int pct = (int)s.range(5, 95); double sc = s.chance(70) ? 1 : s.logpos(-4, 4);
    Dense A(n, n); for (long j = 0; j < n; j++) for (long i = 0; i < j; i++) if (s.chance(pct)) { double v = s.nz(1) * sc * (s.chance(20) ? s.logpos(-4, 0) : 1); if (Sg[i] == Sg[j] && bad && s.chance(50)) v *= 3; A.set(i, j, v); }
    for (long j = 0; j < n; j++) { ld t = s.pos_in(.05, 1) * sc; for (long i = 0; i < n; i++) if (i != j && Sg[i] == Sg[j]) t += fabs(A(std::min(i, j), std::max(i, j))); A.set(j, j, (double)t * Sg[j]); }
    long nbad = 0; if (bad) for (long j = 0; j < n; j++) if (s.chance(25)) { int k = (int)s.pick(3); A(j, j) = k == 0 ? 0 : k == 1 ? -A(j, j) * s.pos_in(.1, 1) : A(j, j) * 1e-16; nbad++; }
    std::vector<L> Ap{0}, Ai; dvec Ax; bool shuf = s.chance(30); for (long j = 0; j < n; j++) { std::vector<long> r; for (long i = 0; i <= j; i++) if (A.p(i, j)) r.push_back(i); if (shuf) { auto q = s.perm((long)r.size()); auto t = r; for (size_t k = 0; k < t.size(); k++) r[k] = t[q[k]]; } for (long i : r) { Ai.push_back(i); Ax.push_back(A(i, j)); } Ap.push_back((L)Ai.size()); }
    if (c.want_note) { c.note << "n=" << n << " signs:"; for (auto v : Sg) c.note << " " << v; c.note << " A (row,col,val):"; for (long j = 0; j < n; j++) for (L k = Ap[j]; k < Ap[j + 1]; k++) c.note << " (" << Ai[k] << "," << j << "," << Ax[k] << ")"; c.note << "\n"; }
    // dense symbolic elimination
    std::vector<std::vector<char>> S(n, std::vector<char>(n, 0)); for (long j = 0; j < n; j++) for (long i = 0; i < j; i++) if (A.p(i, j)) S[j][i] = 1; for (long k = 0; k < n; k++) for (long i = k + 1; i < n; i++) if (S[i][k]) for (long j = k + 1; j < i; j++) if (S[j][k]) S[i][j] = 1;
    std::vector<L> Lp(n + 1, -9), Par(n, -9), Lnz(n, -9), Flag(n, s.range(0, n)), Pt(n, 12345); auto Ap0 = Ap; auto Ai0 = Ai; auto Ax0 = Ax; auto Sg0 = Sg;
    ldl_l_symbolic2(n, Ap.data(), Ai.data(), Lp.data(), Par.data(), Lnz.data(), Flag.data()); c.subevals++; long tot = 0;
    for (long k = 0; k < n; k++) { long cnt = 0, par = -1; for (long i = n - 1; i > k; i--) if (S[i][k]) { cnt++; par = i; } if (Lp[k] != tot) c.fail(fmt("column %ld of L starts at %ld, should be %ld", k, (long)Lp[k], tot)); if (Lnz[k] != cnt) c.fail(fmt("column %ld of L has %ld entries predicted, should be %ld", k, (long)Lnz[k], cnt)); if (Par[k] != par) c.fail(fmt("parent of %ld is %ld, should be %ld", k, (long)Par[k], par)); tot += cnt; } if (Lp[n] != tot) c.fail("wrong total size of L");
    double eps = s.chance(50) ? 1e-13 : s.logpos(-14, -6), delta = s.chance(50) ? 2e-7 : s.logpos(-9, -3); std::vector<L> Li(tot + 1, -9); dvec Lx(tot + 1, 777.0), D(n, 555.0), Y(n, NAN); for (auto& f : Flag) f = s.range(0, n + 2); auto Lp0 = Lp; auto Par0 = Par;
    L r = ldl_l_numeric2(n, Ap.data(), Ai.data(), Ax.data(), Lp.data(), Par.data(), Sg.data(), eps, delta, Lnz.data(), Li.data(), Lx.data(), D.data(), Y.data(), Pt.data(), Flag.data()); c.subevals++;
    if (r != n) c.fail(fmt("factorisation returned %ld of %ld", (long)r, n)); if (Ap != Ap0 || Ai != Ai0 || Ax != Ax0 || Sg != Sg0 || Lp != Lp0 || Par != Par0) c.fail("factorisation changed its input"); if (Li[tot] != -9 || Lx[tot] != 777.0) c.fail("factorisation wrote past L");
    std::vector<std::vector<ld>> Ld(n, std::vector<ld>(n, 0)); for (long k = 0; k < n; k++) { Ld[k][k] = 1; long last = k; for (L q = Lp[k]; q < Lp[k + 1]; q++) { if (Li[q] <= last || Li[q] >= n) c.fail(fmt("row indices of column %ld of L are not increasing", k)); last = Li[q]; if (!S[last][k]) c.fail("entry of L outside its pattern"); Ld[last][k] = Lx[q]; } }
    long nreg = 0; ld mx = 0; for (long k = 0; k < n; k++) { if (!std::isfinite(D[k])) { if (nbad) throw Discard(); c.fail("non-finite pivot"); } bool reg = D[k] == Sg[k] * delta; if (reg) nreg++; else if (!(Sg[k] * D[k] > eps)) c.fail(fmt("pivot %ld is %.17g with required sign %ld and threshold %g", k, D[k], (long)Sg[k], eps)); }
    for (double v : D) if (!(fabs(v) < 1e60)) { if (nbad) throw Discard(); c.fail("pivot growth on a quasi-definite matrix"); } for (long k = 0; k < tot; k++) if (!(fabs(Lx[k]) < 1e60)) { if (nbad) throw Discard(); c.fail("growth in L on a quasi-definite matrix"); }
    for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) { ld v = 0, a = fabsl((ld)A(j, i)); for (long k = 0; k <= j; k++) { ld t = Ld[i][k] * D[k] * Ld[j][k]; v += t; a += fabsl(t); } if (i == j && D[i] == Sg[i] * delta && !(fabsl(v - A(j, i)) <= 2e-15L * (n + 2) * a)) { ld piv = A(i, i) - (v - D[i]); if (!(Sg[i] * piv <= eps + 1e-12L * a)) c.fail(fmt("pivot %ld (%.6Lg) was regularised although it has the required sign and size", i, piv)); continue; } if (!(fabsl(v - A(j, i)) <= 2e-15L * (n + 2) * a)) c.fail(fmt("(L D L')(%ld,%ld) = %.17Lg, A has %.17g", i, j, v, A(j, i))); mx = std::max(mx, a); }
    dvec b(n), x(n, NAN); for (auto& v : b) v = s.val(2) * sc; dvec b0 = b; ldl_l_lsolve2(n, b.data(), Lp.data(), Li.data(), Lx.data(), x.data()); c.subevals++; if (b != b0) c.fail("the forward solve changed its right-hand side");
    for (long i = 0; i < n; i++) { ld v = 0, a = fabsl((ld)b[i]); for (long k = 0; k <= i; k++) { v += Ld[i][k] * x[k]; a += fabsl(Ld[i][k] * x[k]); } if (!(fabsl(v - b[i]) <= 1e-15L * (n + 2) * a + 1e-300L)) c.fail(fmt("forward solve: row %ld gives %.17Lg, should be %.17g", i, v, b[i])); }
    dvec x1 = x, xb = b; ldl_l_lsolve(n, xb.data(), Lp.data(), Li.data(), Lx.data()); for (long i = 0; i < n; i++) if (!(fabs(xb[i] - x[i]) <= 1e-13 * (fabs(x[i]) + fabs(b[i])) * n)) { ld v = 0, a = fabsl((ld)b[i]); for (long k = 0; k <= i; k++) { v += Ld[i][k] * xb[k]; a += fabsl(Ld[i][k] * xb[k]); } if (!(fabsl(v - b[i]) <= 1e-15L * (n + 2) * a)) c.fail("in-place forward solve differs"); }
    dvec y = x; ldl_l_dsolve(n, y.data(), D.data()); c.subevals++; for (long i = 0; i < n; i++) if (!(fabsl((ld)y[i] * D[i] - x[i]) <= 1e-15L * fabsl((ld)x[i]) + 1e-300L)) c.fail(fmt("diagonal solve: entry %ld is %.17g, should be %.17g/%.17g", i, y[i], x[i], D[i]));
    for (double v : y) if (!(fabs(v) < 1e60)) throw Discard(); dvec z = y; ldl_l_ltsolve(n, z.data(), Lp.data(), Li.data(), Lx.data()); c.subevals++; for (double v : z) if (!(fabs(v) < 1e200)) { if (nbad) throw Discard(); c.fail("non-finite solution"); }
    for (long i = 0; i < n; i++) { ld v = 0, a = fabsl((ld)y[i]); for (long k = i; k < n; k++) { v += Ld[k][i] * z[k]; a += fabsl(Ld[k][i] * z[k]); } if (!(fabsl(v - y[i]) <= 1e-15L * (n + 2) * a + 1e-300L)) c.fail(fmt("backward solve: row %ld gives %.17Lg, should be %.17g", i, v, y[i])); }
    c.label("regularised pivots", nreg > 0); c.label("no regularisation", nreg == 0); c.label("signs mixed", np > 0 && np < n); c.label("fill-in", tot > (long)Ai.size() - n); c.label("unsorted columns", shuf); if (tot > 0) { Hash H; for (double v : Ax) H.addd(v); c.nontrivial(H.h); }
  };
  return p;
}
