// C29: sparse linear algebra against dense arithmetic.
#include "kern.hpp"
struct SM { Csc C; spmat M; SM(const Csc& c) : C(c) { M.jc = C.jc.data(); M.ir = C.ir.empty() ? nullptr : C.ir.data(); M.pr = C.pr.empty() ? nullptr : C.pr.data(); M.n = C.n; M.m = C.m; M.nnz = C.nnz(); } };
static Dense from(const spmat* M) { Dense d(M->m, M->n); for (long j = 0; j < M->n; j++) for (idxint k = M->jc[j]; k < M->jc[j + 1]; k++) d.set(M->ir[k], j, d(M->ir[k], j) + M->pr[k]); return d; }
eng::Prop make_prop() {
  Prop p; p.id = "C29"; p.quick = 9000000; p.thorough = 36000000; p.min_nontrivial_pct = 50;
  p.rule = "Sparse matrices (0..20 rows and columns, empty rows, columns and matrices, unsorted columns, explicit zeros) and vectors over 16 decades: products and transposed products in all modes, transpose with its index map, symmetric permutation with its index map (entries below the diagonal ignored), copies, norms, dot products, vector updates, against dense long-double arithmetic; inputs unchanged, nothing written outside. Non-trivial: at least one stored entry.";
  p.run = [](Ctx& c) {
    Src& s = c.s; long m = s.range(0, s.chance(10) ? 20 : 7), n = s.range(0, s.chance(10) ? 20 : 7); int pct = (int)s.weighted({1, 4, 4, 2}); pct = pct == 0 ? 0 : pct == 1 ? 20 : pct == 2 ? 60 : 100; bool wide = s.chance(30); auto num = [&]() { double v = s.chance(5) ? 0 : s.nz(3); return wide ? v * s.logpos(-8, 8) : v; };
    Dense D(m, n); for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) if (s.chance(pct)) D.set(i, j, num()); Csc C = to_csc(D); bool shuf = s.chance(30); if (shuf) for (long j = 0; j < n; j++) { long a = C.jc[j], k = C.jc[j + 1] - a; auto q = s.perm(k); auto ir = C.ir; auto pr = C.pr; for (long t = 0; t < k; t++) { C.ir[a + t] = ir[a + q[t]]; C.pr[a + t] = pr[a + q[t]]; } }
    SM S(C); if (c.want_note) { c.note << m << "x" << n << " (row,col,val):"; for (long j = 0; j < n; j++) for (long k = C.jc[j]; k < C.jc[j + 1]; k++) c.note << " (" << C.ir[k] << "," << j << "," << C.pr[k] << ")"; c.note << "\n"; }
    auto vec = [&](long k) { dvec v(k + 1); for (auto& x : v) x = num(); v[k] = 4242; return v; };
    auto unch = [&](const char* w) { if (S.C.jc != C.jc || S.C.ir != C.ir || !std::equal(C.pr.begin(), C.pr.end(), S.C.pr.begin(), [](double a, double b) { return memcmp(&a, &b, 8) == 0; }) || S.M.n != n || S.M.m != m) c.fail(std::string(w) + " changed the matrix"); };
    if (sparseMV) { dvec x = vec(n), y = vec(m), x0 = x, y0 = y; long a = s.chance(50) ? 1 : -1, nv = s.range(0, 1); if (nv) for (long i = 0; i < m; i++) y[i] = s.chance(30) ? NAN : y[i]; sparseMV(&S.M, x.data(), y.data(), a, nv); c.subevals++; unch("product"); if (x != x0 || y[m] != 4242) c.fail("product wrote outside its output");
      for (long i = 0; i < m; i++) { ld v = nv ? 0 : y0[i], q = fabsl(v); for (long j = 0; j < n; j++) if (D.p(i, j)) { v += a * (ld)D(i, j) * x[j]; q += fabsl((ld)D(i, j) * x[j]); } if (!(fabsl(y[i] - v) <= 1e-15L * (n + 2) * q)) c.fail(fmt("product row %ld is %.17g, should be %.17Lg (sign %ld, new vector %ld)", i, y[i], v, a, nv)); } }
    if (sparseMtVm) { dvec x = vec(m), y = vec(n), x0 = x, y0 = y; long nv = s.range(0, 1), sk = s.range(0, 1); if (nv) for (long i = 0; i < n; i++) y[i] = s.chance(30) ? NAN : y[i]; sparseMtVm(&S.M, x.data(), y.data(), nv, sk); c.subevals++; unch("transposed product"); if (x != x0 || y[n] != 4242) c.fail("transposed product wrote outside its output");
      for (long j = 0; j < n; j++) { ld v = nv ? 0 : y0[j], q = fabsl(v); for (long i = 0; i < m; i++) if (D.p(i, j) && !(sk && i == j)) { v -= (ld)D(i, j) * x[i]; q += fabsl((ld)D(i, j) * x[i]); } if (!(fabsl(y[j] - v) <= 1e-15L * (m + 2) * q)) c.fail(fmt("transposed product entry %ld is %.17g, should be %.17Lg (new vector %ld, skip diagonal %ld)", j, y[j], v, nv, sk)); } }
    { long k = s.range(0, 9); dvec x = vec(k), y = vec(k), x0 = x, y0 = y; double a = num();
      if (vadd) { vadd(k, x.data(), y.data()); for (long i = 0; i < k; i++) if (y[i] != y0[i] + x0[i]) c.fail("vector sum"); if (x != x0 || y[k] != 4242) c.fail("vector sum wrote outside"); y = y0; }
      if (vsubscale) { vsubscale(k, a, x.data(), y.data()); for (long i = 0; i < k; i++) if (!(fabsl(y[i] - ((ld)y0[i] - (ld)a * x0[i])) <= 3e-16L * (fabsl((ld)y0[i]) + 2 * fabsl((ld)a * x0[i])))) c.fail("scaled subtraction"); if (x != x0 || y[k] != 4242) c.fail("scaled subtraction wrote outside"); y = y0; }
      ld n2 = 0, ni = 0, dp = 0, da = 0; for (long i = 0; i < k; i++) { n2 += (ld)x[i] * x[i]; ni = std::max(ni, fabsl((ld)x[i])); dp += (ld)x[i] * y[i]; da += fabsl((ld)x[i] * y[i]); } n2 = sqrtl(n2);
      if (norm2) { double v = norm2(x.data(), k); if (!(fabsl(v - n2) <= 4e-15L * n2)) c.fail(fmt("2-norm %.17g, should be %.17Lg", v, n2)); } if (norminf) { double v = norminf(x.data(), k); if (v != (double)ni) c.fail(fmt("max-norm %.17g, should be %.17Lg", v, ni)); } if (eddot) { double v = eddot(k, x.data(), y.data()); if (!(fabsl(v - dp) <= 4e-15L * da)) c.fail(fmt("dot product %.17g, should be %.17Lg", v, dp)); } c.subevals += 5; }
    if (transposeSparseMatrix && freeSparseMatrix) { std::vector<idxint> mp(C.nnz() + 1, -7); spmat* T = transposeSparseMatrix(&S.M, mp.data()); c.subevals++; unch("transpose"); if (!T || T->m != n || T->n != m || T->nnz != C.nnz()) c.fail("transpose has the wrong shape"); if (T->jc[0] != 0 || T->jc[m] != C.nnz()) c.fail("transpose column pointers"); if (mp[C.nnz()] != -7) c.fail("transpose wrote past the index map");
      Dense Td = from(T); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (Td.p(j, i) != D.p(i, j) || (D.p(i, j) && Td(j, i) != D(i, j))) c.fail(fmt("transpose entry (%ld,%ld)", j, i)); for (long j = 0; j < m; j++) for (idxint k = T->jc[j] + 1; k < T->jc[j + 1]; k++) if (T->ir[k] <= T->ir[k - 1]) c.fail("transpose columns are not sorted");
      std::vector<char> used(C.nnz(), 0); for (long j = 0; j < n; j++) for (long k = C.jc[j]; k < C.jc[j + 1]; k++) { long q = mp[k]; if (q < 0 || q >= C.nnz() || used[q]) c.fail("transpose index map is not a bijection"); used[q] = 1; if (T->ir[q] != j || T->pr[q] != C.pr[k] || !(T->jc[C.ir[k]] <= q && q < T->jc[C.ir[k] + 1])) c.fail(fmt("transpose index map of entry %ld", k)); }
      if (copySparseMatrix) { spmat* K = copySparseMatrix(&S.M); c.subevals++; if (K->m != m || K->n != n || K->nnz != C.nnz()) c.fail("copy shape"); for (long j = 0; j <= n; j++) if (K->jc[j] != C.jc[j]) c.fail("copy pointers"); for (long k = 0; k < C.nnz(); k++) if (K->ir[k] != C.ir[k] || K->pr[k] != C.pr[k]) c.fail("copy entries"); if (C.nnz() && K->pr == S.M.pr) c.fail("copy shares memory"); freeSparseMatrix(K); }
      freeSparseMatrix(T); }
    if (permuteSparseSymmetricMatrix && pinv) { long N = s.range(0, s.chance(10) ? 16 : 7); Dense A(N, N); bool low = s.chance(40); for (long j = 0; j < N; j++) for (long i = 0; i < N; i++) if ((i <= j || (low && s.chance(50))) && s.chance(pct ? pct : 30)) A.set(i, j, num()); Csc U = to_csc(A); if (shuf) for (long j = 0; j < N; j++) { long a = U.jc[j], k = U.jc[j + 1] - a; auto q = s.perm(k); auto ir = U.ir; auto pr = U.pr; for (long t = 0; t < k; t++) { U.ir[a + t] = ir[a + q[t]]; U.pr[a + t] = pr[a + q[t]]; } }
      SM SU(U); long up = 0; for (long j = 0; j < N; j++) for (long k = U.jc[j]; k < U.jc[j + 1]; k++) if (U.ir[k] <= j) up++; auto pm = s.perm(N); std::vector<idxint> P(N + 1), Pi(N + 1, -3); for (long i = 0; i < N; i++) P[i] = pm[i]; pinv(N, P.data(), Pi.data()); for (long i = 0; i < N; i++) if (Pi[P[i]] != i) c.fail("inverse permutation"); if (Pi[N] != -3) c.fail("inverse permutation wrote outside");
      std::vector<idxint> jc(N + 2, -3), ir(up + 1, -3), PK(U.nnz() + 1, -3); dvec pr(up + 1, -3.5); spmat R; R.jc = jc.data(); R.ir = ir.data(); R.pr = pr.data(); R.n = R.m = N; R.nnz = up; jc[N] = up; bool wantmap = s.chance(80);
      permuteSparseSymmetricMatrix(&SU.M, Pi.data(), &R, wantmap ? PK.data() : NULL); c.subevals++; if (ir[up] != -3 || pr[up] != -3.5 || jc[N + 1] != -3 || PK[U.nnz()] != -3) c.fail("symmetric permutation wrote outside"); if (SU.C.jc != U.jc || SU.C.ir != U.ir) c.fail("symmetric permutation changed its input"); if (N) { if (jc[0] != 0 || jc[N] != up) c.fail("symmetric permutation: column pointers"); }
      Dense B = from(&R), W(N, N); for (long i = 0; i < N; i++) for (long j = i; j < N; j++) if (A.p(i, j)) { long a = Pi[i], b = Pi[j]; W.set(std::min(a, b), std::max(a, b), A(i, j)); } for (long i = 0; i < N; i++) for (long j = 0; j < N; j++) if (B.p(i, j) != W.p(i, j) || (W.p(i, j) && B(i, j) != W(i, j))) c.fail(fmt("permuted entry (%ld,%ld) is %.17g, should be %.17g", i, j, B(i, j), W(i, j)));
      if (wantmap) { std::vector<char> u(up, 0); for (long j = 0; j < N; j++) for (long k = U.jc[j]; k < U.jc[j + 1]; k++) if (U.ir[k] <= j) { long q = PK[k]; if (q < 0 || q >= up || u[q]) c.fail("permutation index map is not a bijection"); u[q] = 1; long a = Pi[U.ir[k]], b = Pi[j]; if (ir[q] != std::min(a, b) || pr[q] != U.pr[k] || !(jc[std::max(a, b)] <= q && q < jc[std::max(a, b) + 1])) c.fail("permutation index map"); } } c.label("symmetric permutation, lower entries ignored", low); }
    c.label("empty matrix", C.nnz() == 0); c.label("unsorted columns", shuf); if (C.nnz()) { Hash H; H.add(m); for (auto i : C.ir) H.add(i); for (double v : C.pr) H.addd(v); c.nontrivial(H.h); }
  };
  return p;
}
