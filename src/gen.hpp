// Generators of conic programs with known status.
#pragma once
#include "common.hpp"

struct Shape { long n, m, p, l, nex; ivec q; int density; };

struct GenOpt { int maxcols = 8, maxrows = 14; bool exp = true, soc = true; int big_pct = 6; int huge_pct = 0; bool eq = true; double mag = 2; bool need_exp = false; bool allow_m0 = false; const Shape* fixed = nullptr; long big_l = 30, big_k = 8, big_d = 25, big_e = 6, big_p = 8, big_n = 25; };

// cones first, then p and n with p <= n <= m+p
inline Shape gen_shape(Ctx& c, const GenOpt& o) {
  Src& s = c.s; Shape S; S.l = 0; S.nex = 0;
  if (o.fixed) { S = *o.fixed; S.density = s.weighted({3, 3, 2}); return S; }
  bool big = s.chance(o.big_pct), huge = o.huge_pct && s.chance(o.huge_pct); if (huge) big = true;
  int kind = o.need_exp ? 3 + (int)s.weighted({5, 2, 2, 2}) : s.weighted({3, o.soc ? 3 : 0, o.soc ? 4 : 0, o.exp ? 2 : 0, o.exp ? 2 : 0, (o.exp && o.soc) ? 2 : 0, (o.exp && o.soc) ? 3 : 0});
  // 0 LP, 1 SOC only, 2 LP+SOC, 3 EXP only, 4 LP+EXP, 5 SOC+EXP, 6 all
  bool lp = kind == 0 || kind == 2 || kind == 4 || kind == 6, so = kind == 1 || kind == 2 || kind == 5 || kind == 6, ex = kind >= 3;
  if (lp) S.l = s.range(1, huge ? 120 : big ? o.big_l : 7);
  if (so) { long k = s.range(1, huge ? 14 : big ? o.big_k : 3); for (long i = 0; i < k; i++) { int t = s.weighted({3, 3, 2, 2, 1}); S.q.push_back(t == 0 ? 3 : t == 1 ? s.range(2, 5) : t == 2 ? 1 : t == 3 ? 2 : s.range(6, huge ? 70 : big ? o.big_d : 10)); } }
  if (ex) S.nex = s.range(1, huge ? 14 : big ? o.big_e : 3);
  S.m = S.l + 3 * S.nex; for (auto d : S.q) S.m += d;
  long cap = huge ? 45 : big ? o.big_n : o.maxcols;
  S.p = o.eq && s.chance(55) ? s.range(1, huge ? 18 : big ? o.big_p : 4) : 0;
  if (S.p > cap - 1) S.p = cap - 1;
  long hi = std::min(cap, S.m + S.p), lo = std::max<long>(1, S.p);
  if (hi < lo) hi = lo;
  S.n = s.range(lo, hi);
  if (S.n > S.m + S.p) S.n = S.m + S.p;
  S.density = s.weighted({3, 3, 2});   // 0 sparse, 1 half, 2 dense
  return S;
}

// a theme for a batch of problems: one shape, or restricted sizes and cones
inline void gen_theme(Ctx& c, GenOpt& q, Shape& S) {
  Src& s = c.s; bool one = s.chance(60); q.huge_pct = 0; q.need_exp = s.chance(50); q.big_pct = one ? 0 : s.chance(20) ? 30 : 6; if (s.chance(25)) q.maxcols = 3; q.eq = s.chance(75); q.soc = s.chance(80); if (!q.need_exp) q.exp = s.chance(60);
  if (one) { S = gen_shape(c, q); if (S.m == 0) throw Discard(); q.fixed = &S; c.label("batch: one shape"); } else c.label("batch: a theme");
}

inline void fill_random(Ctx& c, Dense& M, int density, double mag) {
  Src& s = c.s; int pct = density == 0 ? 25 : density == 1 ? 55 : 100;
  for (long j = 0; j < M.n; j++) for (long i = 0; i < M.m; i++) if (pct == 100 || s.chance(pct)) M.set(i, j, s.nz(mag));
}

// Full column rank of [A;G] and full row rank of A by pivots, verified numerically.
inline void gen_matrices(Ctx& c, const Shape& S, Dense& G, Dense& A, double mag, double minsv = 0.15) {
  Src& s = c.s;
  G = Dense(S.m, S.n); A = Dense(S.p, S.n);
  fill_random(c, G, S.density, mag); fill_random(c, A, S.density, mag);
  auto cp = s.perm(S.n);
  for (long i = 0; i < S.p; i++) A.set(i, cp[i], (s.chance(50) ? -1 : 1) * s.pos_in(1.5, 3) * mag / 2 * (1 + 0.0));
  auto rp = s.perm(S.m);
  for (long j = S.p; j < S.n; j++) { long r = rp[(j - S.p) % std::max<long>(1, S.m)]; G.set(r, cp[j], (s.chance(50) ? -1 : 1) * s.pos_in(1.5, 3) * mag / 2); }
  std::vector<std::vector<double>> cols(S.n), rows(S.p);
  for (long j = 0; j < S.n; j++) { for (long i = 0; i < S.m; i++) cols[j].push_back(G(i, j)); for (long i = 0; i < S.p; i++) cols[j].push_back(A(i, j)); }
  for (long i = 0; i < S.p; i++) for (long j = 0; j < S.n; j++) rows[i].push_back(A(i, j));
  if (smin(cols) < minsv || smin(rows) < minsv) throw Discard();
}

// points: interior of K / K*
inline void int_point(Ctx& c, const Shape& S, dvec& s, bool dual, double lo = 0.3, double hi = 3) {
  Src& r = c.s; s.clear();
  for (long i = 0; i < S.l; i++) s.push_back(r.pos_in(lo, hi));
  for (auto d : S.q) { dvec t; double nn = 0; for (long j = 1; j < d; j++) { double v = r.val(1.5, 32); t.push_back(v); nn += v * v; } s.push_back(sqrt(nn) + r.pos_in(lo, hi)); for (double v : t) s.push_back(v); }
  for (long e = 0; e < S.nex; e++) {
    if (!dual) { double z = r.pos_in(lo, 2), q = r.val(1.5, 32); s.push_back(q * z); s.push_back(z * exp(q) + r.pos_in(lo, hi)); s.push_back(z); }
    else { double u = -r.pos_in(lo, 2), w = r.val(1.5, 32); s.push_back(u); s.push_back(-u * exp(w / u - 1) + r.pos_in(lo, hi)); s.push_back(w); }
  }
}
// strictly complementary pair on K x K*
inline void compl_pair(Ctx& c, const Shape& S, dvec& s, dvec& z) {
  Src& r = c.s; s.clear(); z.clear();
  for (long i = 0; i < S.l; i++) if (r.chance(50)) { s.push_back(r.pos_in(.3, 3)); z.push_back(0); } else { s.push_back(0); z.push_back(r.pos_in(.3, 3)); }
  for (auto d : S.q) {
    int k = d == 1 ? (int)r.pick(2) : r.weighted({1, 1, 3});
    dvec v; double nn = 0; for (long j = 1; j < d; j++) { double t = r.nz(1.5, 32); v.push_back(t); nn += t * t; } nn = sqrt(nn);
    double a = r.pos_in(.4, 2), b = r.pos_in(.4, 2);
    if (k == 0) { s.push_back(nn + a); for (double t : v) s.push_back(t); for (long j = 0; j < d; j++) z.push_back(0); }
    else if (k == 1) { z.push_back(nn + a); for (double t : v) z.push_back(t); for (long j = 0; j < d; j++) s.push_back(0); }
    else { s.push_back(a * nn); z.push_back(b * nn); for (double t : v) { s.push_back(a * t); z.push_back(-b * t); } }
  }
  for (long e = 0; e < S.nex; e++) {
    int k = r.weighted({3, 1});
    if (k == 0) { double zz = r.pos_in(.4, 2), q = r.val(1.5, 32), b = r.pos_in(.4, 2); s.push_back(q * zz); s.push_back(zz * exp(q)); s.push_back(zz); z.push_back(-b * exp(q)); z.push_back(b); z.push_back(b * exp(q) * (q - 1)); }
    else { double zz = r.pos_in(.3, 2), q = r.val(1.5, 32); s.push_back(q * zz); s.push_back(zz * exp(q) + r.pos_in(.3, 2)); s.push_back(zz); for (int j = 0; j < 3; j++) z.push_back(0); }
  }
}

inline dvec gen_vec(Ctx& c, long n, double mag, int steps = 64) { dvec v(n); for (auto& x : v) x = c.s.val(mag, steps); return v; }

inline void assemble(const Shape& S, const Dense& G, const Dense& A, Prob& P) {
  P.n = S.n; P.m = S.m; P.p = S.p; P.l = S.l; P.nex = S.nex; P.q = S.q; P.G = to_csc(G); P.A = to_csc(A); P.hasA = false;
}
inline dvec primal_rhs_h(const Prob& P, const dvec& x, const dvec& s) { auto g = mulv(P.G, x); dvec h(P.m); for (long i = 0; i < P.m; i++) h[i] = (double)(g[i] + s[i]); return h; }
inline dvec primal_rhs_b(const Prob& P, const dvec& x) { auto g = mulv(P.A, x); dvec b(P.p); for (long i = 0; i < P.p; i++) b[i] = (double)g[i]; return b; }
inline dvec dual_c(const Prob& P, const dvec& y, const dvec& z) { auto a = multv(P.G, z), b = multv(P.A, y); dvec c(P.n); for (long j = 0; j < P.n; j++) c[j] = (double)-(a[j] + b[j]); return c; }

struct Known { Prob P; double pfeas, dfeas; bool exact = false; double opt = 0; dvec x0, s0, y0, z0; };

// Strictly feasible primal and dual: an optimum exists and dfeas <= opt <= pfeas.
inline Known gen_solvable(Ctx& c, const GenOpt& o) {
  Shape S = gen_shape(c, o); Dense G, A; gen_matrices(c, S, G, A, o.mag);
  Known K; assemble(S, G, A, K.P); K.P.hasA = S.p > 0 || c.s.chance(20);
  K.x0 = gen_vec(c, S.n, 2); int_point(c, S, K.s0, false);
  K.P.h = primal_rhs_h(K.P, K.x0, K.s0); K.P.b = primal_rhs_b(K.P, K.x0);
  K.y0 = gen_vec(c, S.p, 2); int_point(c, S, K.z0, true);
  K.P.c = dual_c(K.P, K.y0, K.z0);
  K.pfeas = (double)dot(K.P.c, K.x0); K.dfeas = (double)(-dot(K.P.h, K.z0) - dot(K.P.b, K.y0));
  return K;
}

// Optimal primal-dual pair planted. One extra column makes the primal strictly feasible
// and box rows on every variable make the dual strictly feasible (so a Slater point exists on both sides).
inline Known gen_known_opt(Ctx& c, const GenOpt& o) {
  Shape S0 = gen_shape(c, o); Shape S = S0; long n0 = S0.n; S.n = n0 + 1; S.l = S0.l + 2 * S.n; S.m = S0.m + 2 * S.n;
  Dense G0, A0; gen_matrices(c, S0, G0, A0, o.mag);
  Dense G(S.m, S.n), A(S.p, S.n);
  // rows: [box lower, box upper, old LP, SOC, EXP]
  long off = 2 * S.n;
  for (long j = 0; j < S.n; j++) { G.set(j, j, -1); G.set(S.n + j, j, 1); }
  for (long j = 0; j < n0; j++) for (long i = 0; i < S0.m; i++) if (G0.p(i, j)) G.set(off + i, j, G0(i, j));
  for (long j = 0; j < n0; j++) for (long i = 0; i < S.p; i++) if (A0.p(i, j)) A.set(i, j, A0(i, j));
  dvec e; { long k = 0; for (; k < S0.l; k++) e.push_back(1); for (auto d : S0.q) { e.push_back(1); for (long j = 1; j < d; j++) e.push_back(0); } for (long q = 0; q < S0.nex; q++) { e.push_back(-1); e.push_back(1); e.push_back(.5); } }
  for (long i = 0; i < S0.m; i++) if (e[i] != 0) G.set(off + i, n0, -e[i]);
  Known K; assemble(S, G, A, K.P); K.exact = true;
  K.x0 = gen_vec(c, S.n, 2);
  dvec sc, zc; compl_pair(c, S0, sc, zc);
  dvec s, z;
  for (long j = 0; j < 2 * S.n; j++) { s.push_back(c.s.pos_in(0.5, 4)); z.push_back(0); }
  // the extra variable's lower bound must bind or be priced: give it a multiplier when the cone part prices it
  s.insert(s.end(), sc.begin(), sc.end()); z.insert(z.end(), zc.begin(), zc.end());
  K.s0 = s; K.z0 = z; K.y0 = gen_vec(c, S.p, 2);
  K.P.h = primal_rhs_h(K.P, K.x0, s); K.P.b = primal_rhs_b(K.P, K.x0); K.P.c = dual_c(K.P, K.y0, z);
  K.opt = (double)dot(K.P.c, K.x0); K.pfeas = K.dfeas = K.opt;
  return K;
}

// Strongly primal infeasible: planted z0 in int K*, y0 with G'z0+A'y0=0 and h'z0+b'y0=-delta.
inline Known gen_pinf(Ctx& c, const GenOpt& o) {
  Shape S = gen_shape(c, o); if (S.m == 0) throw Discard();
  if (S.n >= S.m + S.p) S.n = std::max<long>(1, S.m + S.p - 1);
  if (S.p >= S.n) S.p = S.n - 1;
  if (S.n > S.m + S.p - 1) S.n = S.m + S.p - 1;
  if (S.n < 1) throw Discard();
  Dense G, A; gen_matrices(c, S, G, A, o.mag);
  Known K; K.y0 = gen_vec(c, S.p, 1.5); int_point(c, S, K.z0, true, 0.4, 2.5);
  long r = 0; double best = 0; // a row whose multiplier is not tiny
  long k = (long)c.s.pick(S.m); for (long t = 0; t < S.m; t++) { long i = (k + t) % S.m; if (fabs(K.z0[i]) >= 0.3) { r = i; best = fabs(K.z0[i]); break; } }
  if (best == 0) throw Discard();
  for (long j = 0; j < S.n; j++) { ld v = 0; for (long i = 0; i < S.m; i++) if (i != r) v += (ld)G(i, j) * K.z0[i]; for (long i = 0; i < S.p; i++) v += (ld)A(i, j) * K.y0[i]; if (v != 0 || G.p(r, j)) G.set(r, j, (double)(-v / K.z0[r])); }
  std::vector<std::vector<double>> cols(S.n); for (long j = 0; j < S.n; j++) { for (long i = 0; i < S.m; i++) cols[j].push_back(G(i, j)); for (long i = 0; i < S.p; i++) cols[j].push_back(A(i, j)); }
  if (smin(cols) < 0.15) throw Discard();
  assemble(S, G, A, K.P);
  K.P.h = gen_vec(c, S.m, 3); K.P.b = gen_vec(c, S.p, 3);
  double delta = c.s.pos_in(0.5, 5);
  ld v = dot(K.P.h, K.z0) + dot(K.P.b, K.y0); K.P.h[r] += (double)((-delta - v) / K.z0[r]);
  if (c.s.chance(60)) { dvec z1, y1 = gen_vec(c, S.p, 2); int_point(c, S, z1, true); K.P.c = dual_c(K.P, y1, z1); c.label("pinf: dual feasible"); }
  else K.P.c = gen_vec(c, S.n, 3);
  K.pfeas = delta; return K;
}

// Unbounded: feasible point with interior slack and an interior recession direction of descent.
inline Known gen_dinf(Ctx& c, const GenOpt& o) {
  Shape S = gen_shape(c, o); if (S.m == 0) throw Discard();
  if (S.p >= S.n) S.p = S.n - 1;
  Dense G, A; gen_matrices(c, S, G, A, o.mag, 0.05);
  Known K; dvec d(S.n); for (auto& x : d) x = c.s.nz(2, 16);
  long r = (long)c.s.pick(S.n); d[r] = (d[r] < 0 ? -1 : 1) * std::max(fabs(d[r]), 0.75);
  dvec sh; int_point(c, S, sh, false, 0.3, 2);
  for (long i = 0; i < S.m; i++) { ld v = sh[i]; for (long j = 0; j < S.n; j++) if (j != r) v += (ld)G(i, j) * d[j]; if (v != 0 || G.p(i, r)) G.set(i, r, (double)(-v / d[r])); }
  for (long i = 0; i < S.p; i++) { ld v = 0; for (long j = 0; j < S.n; j++) if (j != r) v += (ld)A(i, j) * d[j]; if (v != 0 || A.p(i, r)) A.set(i, r, (double)(-v / d[r])); }
  std::vector<std::vector<double>> cols(S.n), rows(S.p); for (long j = 0; j < S.n; j++) { for (long i = 0; i < S.m; i++) cols[j].push_back(G(i, j)); for (long i = 0; i < S.p; i++) cols[j].push_back(A(i, j)); }
  for (long i = 0; i < S.p; i++) for (long j = 0; j < S.n; j++) rows[i].push_back(A(i, j));
  if (smin(cols) < 0.1 || smin(rows) < 0.1) throw Discard();
  assemble(S, G, A, K.P);
  K.x0 = gen_vec(c, S.n, 2); int_point(c, S, K.s0, false);
  K.P.h = primal_rhs_h(K.P, K.x0, K.s0); K.P.b = primal_rhs_b(K.P, K.x0);
  K.P.c = gen_vec(c, S.n, 2); double cd = (double)dot(K.P.c, d), want = -c.s.pos_in(0.5, 4); K.P.c[r] += (want - cd) / d[r];
  K.dfeas = want; return K;
}

inline void label_shape(Ctx& c, const Prob& P) {
  c.label("cones: LP only", P.l > 0 && P.q.empty() && !P.nex); c.label("cones: has SOC", !P.q.empty()); c.label("cones: has EXP", P.nex > 0);
  c.label("cones: several EXP", P.nex > 1); c.label("cones: EXP with SOC", P.nex > 0 && !P.q.empty()); c.label("cones: no LP rows", P.l == 0);
  bool q1 = false, q2 = false, qb = false; for (auto d : P.q) { q1 |= d == 1; q2 |= d == 2; qb |= d >= 6; } c.label("cones: SOC of dimension 1", q1); c.label("cones: SOC of dimension 2", q2); c.label("cones: SOC of dimension >= 6", qb);
  c.label("equalities", P.p > 0); c.label("no equalities, A given empty", P.p == 0 && P.hasA); c.label("size: m >= 20", P.m >= 20);
}

// Anything: no promise about status, rank, interior or scale (but finite data of moderate size).
inline Prob gen_any(Ctx& c, const GenOpt& o) {
  Src& s = c.s; Shape S = gen_shape(c, o);
  int base = s.weighted({3, 2, 2, 2, 2}); Prob P;
  try {
    if (base == 0) P = gen_solvable(c, o).P; else if (base == 1) P = gen_known_opt(c, o).P; else if (base == 2) P = gen_pinf(c, o).P; else if (base == 3) P = gen_dinf(c, o).P;
    else { if (s.chance(40)) S.n = s.range(1, 12); if (s.chance(30)) S.p = s.range(0, 6); Dense G(S.m, S.n), A(S.p, S.n); fill_random(c, G, S.density, o.mag); fill_random(c, A, S.density, o.mag); assemble(S, G, A, P); P.h = gen_vec(c, S.m, 3); P.b = gen_vec(c, S.p, 3); P.c = gen_vec(c, S.n, 3); P.hasA = S.p > 0 || s.chance(30); c.label("any: random data"); }
  } catch (const Discard&) { Dense G(S.m, S.n), A(S.p, S.n); fill_random(c, G, S.density, o.mag); fill_random(c, A, S.density, o.mag); assemble(S, G, A, P); P.h = gen_vec(c, S.m, 3); P.b = gen_vec(c, S.p, 3); P.c = gen_vec(c, S.n, 3); P.hasA = S.p > 0; c.label("any: random data"); }
  int k = (int)s.range(0, 3);
  for (int t = 0; t < k; t++) {
    Dense G = to_dense(P.G), A = to_dense(P.A);
    switch (s.pick(10)) {
      case 0: { long j = (long)s.pick(P.n); for (long i = 0; i < P.m; i++) { G.p(i, j) = 0; G(i, j) = 0; } for (long i = 0; i < P.p; i++) { A.p(i, j) = 0; A(i, j) = 0; } c.label("any: empty column"); break; }
      case 1: if (P.m) { long i = (long)s.pick(P.m); for (long j = 0; j < P.n; j++) { G.p(i, j) = 0; G(i, j) = 0; } c.label("any: empty row of G"); } break;
      case 2: if (P.p > 1) { for (long j = 0; j < P.n; j++) { A(0, j) = 2 * A(1, j); A.p(0, j) = A.p(1, j); } P.b[0] = s.chance(60) ? 2 * P.b[1] : 2 * P.b[1] + s.val(); c.label("any: dependent equalities"); } break;
      case 3: if (P.l > 1) { for (long j = 0; j < P.n; j++) { G(0, j) = -G(1, j); G.p(0, j) = G.p(1, j); } P.h[0] = -P.h[1] + (s.chance(50) ? 0 : s.val()); c.label("any: opposite inequalities (no interior)"); } break;
      case 4: { double f = s.logpos(-3, 3); int w = (int)s.pick(3); for (auto& v : (w == 0 ? P.c : w == 1 ? P.h : P.b)) v *= f; c.label("any: one vector rescaled"); break; }
      case 5: for (auto& v : P.c) v = 0; c.label("any: zero objective"); break;
      case 6: for (auto& v : P.h) v = 0; c.label("any: zero h"); break;
      case 7: { long j = (long)s.pick(P.n); double f = s.logpos(-3, 3); for (long i = 0; i < P.m; i++) G(i, j) *= f; for (long i = 0; i < P.p; i++) A(i, j) *= f; c.label("any: column rescaled"); break; }
      case 8: if (P.n > 1) { for (long i = 0; i < P.m; i++) { G(i, 0) = G(i, 1); G.p(i, 0) = G.p(i, 1); } for (long i = 0; i < P.p; i++) { A(i, 0) = A(i, 1); A.p(i, 0) = A.p(i, 1); } c.label("any: duplicate columns"); } break;
      default: if (P.l) { long i = (long)s.pick(P.l); double f = s.logpos(-3, 3); for (long j = 0; j < P.n; j++) G(i, j) *= f; P.h[i] *= f; c.label("any: row rescaled"); } break;
    }
    P.G = to_csc(G); P.A = to_csc(A);
  }
  return P;
}
