// C25: the fill-reducing ordering.
#include "common.hpp"
extern "C" {
#include "amd.h"
}
typedef SuiteSparse_long L;
struct Pat { long n; std::vector<std::vector<char>> a; };   // symmetric, no diagonal
static long fill_of(const Pat& G, const std::vector<L>& P, double* sq = nullptr, long* mx = nullptr) { long n = G.n; auto a = G.a; std::vector<char> gone(n, 0); long f = 0; for (long k = 0; k < n; k++) { long v = P[k]; gone[v] = 1; std::vector<long> nb; for (long i = 0; i < n; i++) if (!gone[i] && a[v][i]) nb.push_back(i); f += (long)nb.size(); if (sq) *sq += (double)nb.size() * nb.size(); if (mx) *mx = std::max(*mx, (long)nb.size()); for (size_t i = 0; i < nb.size(); i++) for (size_t j = 0; j < i; j++) a[nb[i]][nb[j]] = a[nb[j]][nb[i]] = 1; } return f; }
static std::vector<L> min_degree(const Pat& G) { long n = G.n; auto a = G.a; std::vector<char> gone(n, 0); std::vector<L> P; for (long k = 0; k < n; k++) { long bv = -1, bd = 1 << 30; for (long v = 0; v < n; v++) if (!gone[v]) { long d = 0; for (long i = 0; i < n; i++) if (!gone[i] && a[v][i]) d++; if (d < bd) { bd = d; bv = v; } } P.push_back(bv); gone[bv] = 1; std::vector<long> nb; for (long i = 0; i < n; i++) if (!gone[i] && a[bv][i]) nb.push_back(i); for (size_t i = 0; i < nb.size(); i++) for (size_t j = 0; j < i; j++) a[nb[i]][nb[j]] = a[nb[j]][nb[i]] = 1; } return P; }
eng::Prop make_prop() {
  Prop p; p.id = "C25"; p.quick = 3500000; p.thorough = 14000000; p.min_nontrivial_pct = 50;
  p.rule = "Patterns with 0..120 rows (random, forests, bands, arrows, blocks, KKT-like bipartite, nearly dense rows, empty), stored upper, lower, both or mixed, sorted or with unsorted and duplicate entries, default and random control parameters, and invalid inputs. The result must be a permutation; fill on forests is zero; size, flops and column sizes of the factor stay below their reported bounds, which are consistent and near; against an exact minimum-degree ordering the fill stays within a factor; counts in Info are exact; inputs unchanged; same answer twice. Non-trivial: at least one off-diagonal entry.";
  p.run = [](Ctx& c) {
    Src& s = c.s; long n = s.chance(15) ? s.range(0, 120) : s.range(0, 24); Pat G; G.n = n; G.a.assign(n, std::vector<char>(n, 0)); int kind = s.weighted({4, 3, 2, 2, 2, 2, 1}); bool forest = false; auto add = [&](long i, long j) { if (i != j) G.a[i][j] = G.a[j][i] = 1; };
    auto pm = s.perm(n);
    if (n > 1) switch (kind) {
      case 0: { int pct = (int)s.range(2, n > 40 ? 15 : 70); for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) if (s.chance(pct)) add(i, j); c.label("random"); break; }
      case 1: forest = true; { int brk = s.chance(50) ? 0 : 20; int shape = (int)s.pick(3); for (long i = 1; i < n; i++) if (!s.chance(brk)) add(pm[i], pm[shape == 0 ? s.range(0, i - 1) : shape == 1 ? std::max<long>(0, i - 1 - s.range(0, 2)) : s.range(0, std::min<long>(i - 1, 2))]); } c.label("forest"); break;
      case 2: { long w = s.range(1, 4); for (long i = 0; i < n; i++) for (long j = std::max<long>(0, i - w); j < i; j++) if (s.chance(80)) add(pm[i], pm[j]); c.label("band"); break; }
      case 3: { long k = s.range(1, 3); for (long i = 0; i < n; i++) for (long j = 0; j < k && j < n; j++) add(pm[i], pm[j]); c.label("arrow"); break; }
      case 4: { long st = 0; while (st < n) { long w = s.range(1, 6); for (long i = st; i < std::min(n, st + w); i++) for (long j = st; j < i; j++) add(pm[i], pm[j]); if (st) add(pm[st], pm[s.range(0, st - 1)]); st += w; } c.label("cliques"); break; }
      case 5: { long h = s.range(1, n - 1); int pct = (int)s.range(5, 60); for (long i = 0; i < h; i++) for (long j = h; j < n; j++) if (s.chance(pct)) add(i, j); c.label("bipartite"); break; }
      default: { long g = (long)std::sqrt((double)n); for (long i = 0; i < g * g; i++) { if (i % g) add(i, i - 1); if (i >= g) add(i, i - g); } c.label("grid"); } }
    int store = (int)s.pick(4), diag = (int)s.pick(3); bool jum = s.chance(15); std::vector<L> Ap{0}, Ai; long nd = 0, offd = 0, matched = 0; bool isj = false; std::vector<std::vector<char>> stp(n, std::vector<char>(n, 0));
    for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) if (G.a[i][j]) { int w = store == 3 ? (int)s.pick(3) : store; if (w == 0 || w == 2) stp[j][i] = 1; if (w == 1 || w == 2) stp[i][j] = 1; }   // stp[row][col]
    for (long j = 0; j < n; j++) { std::vector<L> col; for (long i = 0; i < n; i++) { if (i == j) { if (diag == 0 || (diag == 1 && s.chance(50))) { col.push_back(i); nd++; } } else if (stp[i][j]) { col.push_back(i); offd++; if (stp[j][i]) matched++; } } if (jum && col.size() > 1) { if (s.chance(60)) { auto q = s.perm((long)col.size()); auto t = col; for (size_t k = 0; k < t.size(); k++) col[k] = t[q[k]]; } } if (jum && !col.empty() && s.chance(30)) col.push_back(col[s.pick(col.size())]); for (size_t k = 1; k < col.size(); k++) if (col[k] <= col[k - 1]) isj = true; for (auto i : col) Ai.push_back(i); Ap.push_back((L)Ai.size()); }
    if (Ai.empty()) Ai.reserve(1); L dummy = 0; L* ai = Ai.empty() ? &dummy : Ai.data();
    if (c.want_note) { c.note << "n=" << n << " store " << store << " entries (row,col):"; for (long j = 0; j < n; j++) for (L k = Ap[j]; k < Ap[j + 1]; k++) c.note << " (" << Ai[k] << "," << j << ")"; c.note << "\n"; }
    double Ctl[AMD_CONTROL], Info[AMD_INFO]; amd_l_defaults(Ctl); bool defc = s.chance(75); if (!defc) { Ctl[AMD_DENSE] = s.chance(30) ? -1 : s.pos_in(0, 3); Ctl[AMD_AGGRESSIVE] = (double)s.range(0, 1); }
    std::vector<L> P(n + 1, -77); auto Ap0 = Ap; auto Ai0 = Ai; L r = amd_l_order(n, Ap.data(), ai, P.data(), defc && s.chance(30) ? NULL : Ctl, Info); c.subevals++;
    if (Ap != Ap0 || Ai != Ai0) c.fail("the ordering changed its input"); if (P[n] != -77) c.fail("the ordering wrote past its output"); P.resize(n);
    if (r != (isj ? AMD_OK_BUT_JUMBLED : AMD_OK)) c.fail(fmt("status %ld for a valid matrix (unsorted or duplicates: %d)", (long)r, (int)isj)); if (Info[AMD_STATUS] != (double)r) c.fail("Info and return status differ");
    std::vector<char> seen(n, 0); for (long k = 0; k < n; k++) { if (P[k] < 0 || P[k] >= n || seen[P[k]]) c.fail(fmt("not a permutation: position %ld holds %ld (n=%ld)", k, (long)P[k], n)); seen[P[k]] = 1; }
    std::vector<L> P2(n + 1); double I2[AMD_INFO]; amd_l_order(n, Ap.data(), ai, P2.data(), Ctl, I2); P2.resize(n); if (P2 != P) c.fail("the same matrix was ordered differently the second time");
    long nz = 0; for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) nz += G.a[i][j]; c.label("stored: " + std::string(store == 0 ? "upper" : store == 1 ? "lower" : store == 2 ? "both" : "mixed")); c.label("jumbled", isj);
    if (n > 0 && r == AMD_OK) { if (Info[AMD_N] != n || Info[AMD_NZ] != (double)Ai.size() || Info[AMD_NZDIAG] != nd) c.fail(fmt("Info counts n=%g nz=%g diagonal=%g, should be %ld %zu %ld", Info[AMD_N], Info[AMD_NZ], Info[AMD_NZDIAG], n, Ai.size(), nd)); if (Info[AMD_NZ_A_PLUS_AT] != 2.0 * nz) c.fail(fmt("Info counts %g entries in A+A', there are %ld", Info[AMD_NZ_A_PLUS_AT], 2 * nz)); double sy = offd ? (double)matched / offd : 1; if (!(fabs(Info[AMD_SYMMETRY] - sy) < 1e-12)) c.fail(fmt("Info symmetry %g, should be %g", Info[AMD_SYMMETRY], sy)); }
    if (n > 0 && nz > 0) { double sq = 0; long mx = 0; long f = fill_of(G, P, &sq, &mx);
      if (Info[AMD_NDIV] != Info[AMD_LNZ]) c.fail(fmt("Info: %g divisions for %g entries of the factor", Info[AMD_NDIV], Info[AMD_LNZ]));
      if (fabs(2 * Info[AMD_NMULTSUBS_LDL] - Info[AMD_NMULTSUBS_LU] - Info[AMD_LNZ]) > 1e-9 * (1 + Info[AMD_NMULTSUBS_LU])) c.fail(fmt("Info: flop counts %g (LDL) and %g (LU) for %g entries of the factor", Info[AMD_NMULTSUBS_LDL], Info[AMD_NMULTSUBS_LU], Info[AMD_LNZ]));
      if (Info[AMD_NDENSE] == 0 && !(Info[AMD_NMULTSUBS_LU] >= sq * (1 - 1e-12))) c.fail(fmt("reported bound %g on the flops of the factorization is below their number %g", Info[AMD_NMULTSUBS_LU], sq));
      if (Info[AMD_NDENSE] == 0 && !(Info[AMD_DMAX] >= mx + 1)) c.fail(fmt("reported bound %g on the entries of a column is below their number %ld", Info[AMD_DMAX], mx + 1));
      if (Info[AMD_NDENSE] == 0 && (Info[AMD_LNZ] > 4.0 * f + 10 || Info[AMD_NMULTSUBS_LU] > 10 * sq + 100)) c.fail(fmt("reported bounds %g and %g on size and flops are far above %ld and %g", Info[AMD_LNZ], Info[AMD_NMULTSUBS_LU], f, sq));
      if (Info[AMD_NDENSE] == 0) { hist(c, "flop bound / flops - 1", sq > 0 ? Info[AMD_NMULTSUBS_LU] / sq - 1 : 0); hist(c, "size bound / size - 1", Info[AMD_LNZ] / f - 1); }
      if (Info[AMD_NDENSE] == 0 && !(Info[AMD_LNZ] >= f)) c.fail(fmt("reported bound %g on the factor is below its size %ld", Info[AMD_LNZ], f)); if (defc && forest && n <= 100 && f != nz) c.fail(fmt("a forest with %ld edges was filled to %ld entries (n=%ld)", nz, f, n));
      if (defc && n <= 40) { long m = fill_of(G, min_degree(G)); double q = (double)(f - nz) / std::max(1L, m - nz + n / 2); hist(c, "extra fill / (minimum-degree fill + n/2)", q); if (f - nz > 2 * (m - nz) + 2 * n) c.fail(fmt("fill %ld, an exact minimum-degree ordering has %ld (n=%ld, %ld edges)", f, m, n, nz)); }
      Hash H; H.add(n); for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) H.add(G.a[i][j]); c.nontrivial(H.h ^ store); }
    if (s.chance(20)) { auto Bp = Ap; auto Bi = Ai; const char* what = nullptr; L nn = n; int k = (int)s.pick(5); if (k == 0 && !Bi.empty()) { Bi[s.pick(Bi.size())] = n + s.range(0, 3); what = "row index too large"; } else if (k == 1 && !Bi.empty()) { Bi[s.pick(Bi.size())] = -1 - s.range(0, 3); what = "negative row index"; } else if (k == 2) { Bp[0] = 1 + s.range(0, 2); what = "first pointer not zero"; if (n == 0) what = nullptr; } else if (k == 3 && n > 1 && !Bi.empty()) { long j = s.range(1, n - 1); if (Bp[j] < Bp[n] || Bp[n] > 0) { Bp[j] = Bp[n] + 1; what = "pointers decrease"; } } else if (k == 4) { nn = -1 - s.range(0, 3); what = "negative size"; }
      if (what) { std::vector<L> Q(n + 1, -5); L rr = amd_l_order(nn, Bp.data(), Bi.empty() ? &dummy : Bi.data(), Q.data(), Ctl, Info); c.subevals++; if (rr != AMD_INVALID || Info[AMD_STATUS] != AMD_INVALID) c.fail(fmt("status %ld for an invalid matrix (%s)", (long)rr, what)); c.label("invalid input refused"); } }
  };
  return p;
}
