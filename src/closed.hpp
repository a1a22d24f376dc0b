// Families whose optimal value has a closed form (or a direct combinatorial algorithm).
#include <array>
#pragma once
#include "gen.hpp"
struct Closed { Prob P; double opt; std::string name; };
struct Row { std::vector<std::pair<long, double>> t; double h; };   // h - sum t  (slack)
struct Builder {
  long n = 0; std::vector<Row> lp; std::vector<std::vector<Row>> soc; std::vector<std::array<Row, 3>> ex; std::vector<Row> eq; std::vector<std::pair<long, double>> c;
  long var() { return n++; }
  // lexicographic shuffles: variables, LP rows, cones and equalities are permuted
  Prob build(Ctx& x) {
    auto pv = x.s.perm(n), pl = x.s.perm((long)lp.size()), ps = x.s.perm((long)soc.size()), pe = x.s.perm((long)ex.size()), pq = x.s.perm((long)eq.size());
    Prob P; P.n = n; P.l = (long)lp.size(); P.nex = (long)ex.size(); P.p = (long)eq.size(); P.m = P.l + 3 * P.nex; for (auto& s : soc) P.m += (long)s.size();
    for (size_t i = 0; i < soc.size(); i++) P.q.push_back((idxint)soc[ps[i]].size());
    Dense G(P.m, n), A(P.p, n); P.h.assign(P.m, 0); P.b.assign(P.p, 0); P.c.assign(n, 0);
    long r = 0; auto put = [&](const Row& w) { for (auto& t : w.t) G.set(r, pv[t.first], G(r, pv[t.first]) + t.second); P.h[r++] = w.h; };
    for (long i = 0; i < P.l; i++) put(lp[pl[i]]);
    for (size_t i = 0; i < soc.size(); i++) for (auto& w : soc[ps[i]]) put(w);
    for (size_t i = 0; i < ex.size(); i++) for (auto& w : ex[pe[i]]) put(w);
    for (long i = 0; i < P.p; i++) { auto& w = eq[pq[i]]; for (auto& t : w.t) A.set(i, pv[t.first], A(i, pv[t.first]) + t.second); P.b[i] = w.h; }
    for (auto& t : c) P.c[pv[t.first]] += t.second;
    P.G = to_csc(G); P.A = to_csc(A); P.hasA = P.p > 0 || x.s.chance(20); return P;
  }
  void le(std::vector<std::pair<long, double>> t, double h) { lp.push_back({t, h}); }              // t'x <= h
  // slack entries given as affine expressions  const + sum: row stores -coefficients
  static Row aff(double k, std::vector<std::pair<long, double>> t) { for (auto& p : t) p.second = -p.second; return {t, k}; }
};
inline Closed gen_closed(Ctx& c) {
  Src& s = c.s; Closed F; Builder B; int kind = (int)s.pick(14); bool big = s.chance(5);
  long N = s.range(1, big ? 25 : 6); auto A = Builder::aff;
  auto v2 = [&](double m) { return s.val(m, 40); };
  switch (kind) {
    case 0: { F.name = "box LP"; F.opt = 0; for (long i = 0; i < N; i++) { long x = B.var(); double lo = v2(3), hi = lo + s.pos_in(.25, 4), k = s.nz(3, 40); B.le({{x, 1}}, hi); B.le({{x, -1}}, -lo); B.c.push_back({x, k}); F.opt += k > 0 ? k * lo : k * hi; } break; }
    case 1: { F.name = "simplex LP"; F.opt = INFINITY; double r = s.pos_in(.5, 3); Row e; e.h = r; for (long i = 0; i < N; i++) { long x = B.var(); double k = v2(4); B.le({{x, -1}}, 0); B.c.push_back({x, k}); e.t.push_back({x, 1}); F.opt = std::min(F.opt, r * k); } B.eq.push_back(e); break; }
    case 2: { F.name = "ball"; F.opt = 0; double r = s.pos_in(.3, 3), nn = 0; std::vector<Row> S = {A(r, {})}; for (long i = 0; i < N; i++) { long x = B.var(); double a = v2(3), k = s.nz(2, 40); S.push_back(A(-a, {{x, 1}})); B.c.push_back({x, k}); F.opt += k * a; nn += k * k; } F.opt -= r * sqrt(nn); B.soc.push_back(S); break; }
    case 3: { F.name = "point-hyperplane distance"; long t = B.var(); std::vector<Row> S = {A(0, {{t, 1}})}; Row e; double d = 0, nn = 0; for (long i = 0; i < N; i++) { long x = B.var(); double a = v2(3), g = s.nz(2, 40); S.push_back(A(-a, {{x, 1}})); e.t.push_back({x, g}); d += g * a; nn += g * g; } double off = s.nz(4, 40); e.h = d + off; B.eq.push_back(e); B.soc.push_back(S); B.c.push_back({t, 1}); F.opt = fabs(off) / sqrt(nn); break; }
    case 4: { F.name = "median"; N |= 1; long x = B.var(); dvec a; for (long i = 0; i < N; i++) { long t = B.var(); double v = v2(4) + 0.001 * i; a.push_back(v); if (s.chance(50)) B.soc.push_back({A(0, {{t, 1}}), A(-v, {{x, 1}})}); else { B.le({{x, 1}, {t, -1}}, v); B.le({{x, -1}, {t, -1}}, -v); } B.c.push_back({t, 1}); } std::sort(a.begin(), a.end()); F.opt = 0; for (double v : a) F.opt += fabs(v - a[N / 2]); break; }
    case 5: { F.name = "Chebyshev"; N = std::max<long>(N, 2); long x = B.var(), t = B.var(); double lo = INFINITY, hi = -INFINITY; for (long i = 0; i < N; i++) { double v = v2(4) + 0.001 * i; lo = std::min(lo, v); hi = std::max(hi, v); B.le({{x, 1}, {t, -1}}, v); B.le({{x, -1}, {t, -1}}, -v); } B.c.push_back({t, 1}); F.opt = (hi - lo) / 2; break; }
    case 6: { F.name = "log-sum-exp"; N = std::min<long>(N, 8); long t = B.var(); Row sum; sum.h = 1; double mx = -INFINITY; dvec a; for (long i = 0; i < N; i++) { long u = B.var(); double v = v2(2); a.push_back(v); mx = std::max(mx, v); B.ex.push_back({A(v, {{t, -1}}), A(0, {{u, 1}}), A(1, {})}); sum.t.push_back({u, 1}); } B.lp.push_back(sum); double z = 0; for (double v : a) z += exp(v - mx); F.opt = mx + log(z); B.c.push_back({t, 1}); break; }
    case 7: { F.name = "entropy"; N = std::max<long>(2, std::min<long>(N, 8)); Row e; e.h = 1; F.opt = 0; dvec k; for (long i = 0; i < N; i++) { long x = B.var(), t = B.var(); double w = v2(1.5); k.push_back(w); B.ex.push_back({A(0, {{t, 1}}), A(1, {}), A(0, {{x, 1}})}); B.c.push_back({t, -1}); B.c.push_back({x, w}); e.t.push_back({x, 1}); } B.eq.push_back(e); double z = 0; for (double w : k) z += exp(-w); F.opt = -log(z); break; }   // min sum x log x + w'x = -log sum exp(-w)
    case 8: { F.name = "exponential"; F.opt = 0; N = std::min<long>(N, 6); for (long i = 0; i < N; i++) { long x = B.var(), y = B.var(); double a = v2(2), k = s.pos_in(.3, 2); B.ex.push_back({A(0, {{x, 1}}), A(0, {{y, 1}}), A(1, {})}); B.le({{x, -1}}, -a); B.c.push_back({y, k}); F.opt += k * exp(a); } break; }
    case 9: { F.name = "weighted logs"; N = std::min<long>(N, 6); Row e; e.h = 1; double W = 0; dvec w; for (long i = 0; i < N; i++) { long x = B.var(), t = B.var(); double k = s.pos_in(.3, 2); w.push_back(k); W += k; B.ex.push_back({A(0, {{t, 1}}), A(0, {{x, 1}}), A(1, {})}); B.c.push_back({t, -k}); e.t.push_back({x, 1}); } if (s.chance(50)) B.eq.push_back(e); else B.lp.push_back(e); F.opt = 0; for (double k : w) F.opt -= k * log(k / W); break; }
    case 10: { F.name = "assignment"; long n = s.range(2, 4); std::vector<dvec> C(n, dvec(n)); std::vector<std::vector<long>> X(n, std::vector<long>(n)); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { X[i][j] = B.var(); C[i][j] = v2(4); B.le({{X[i][j], -1}}, 0); B.c.push_back({X[i][j], C[i][j]}); } for (long i = 0; i < n; i++) { Row e; e.h = 1; for (long j = 0; j < n; j++) e.t.push_back({X[i][j], 1}); B.eq.push_back(e); } for (long j = 0; j + 1 < n; j++) { Row e; e.h = 1; for (long i = 0; i < n; i++) e.t.push_back({X[i][j], 1}); B.eq.push_back(e); } std::vector<long> p(n); for (long i = 0; i < n; i++) p[i] = i; F.opt = INFINITY; do { double v = 0; for (long i = 0; i < n; i++) v += C[i][p[i]]; F.opt = std::min(F.opt, v); } while (std::next_permutation(p.begin(), p.end())); break; }
    case 11: { F.name = "fractional knapsack"; double cap = s.pos_in(.5, .9), tot = 0; std::vector<std::pair<double, double>> it; Row e; for (long i = 0; i < N; i++) { long x = B.var(); double w = s.pos_in(.3, 2), v = s.pos_in(.3, 3); it.push_back({v / w, w}); tot += w; B.le({{x, -1}}, 0); B.le({{x, 1}}, 1); B.c.push_back({x, -v}); e.t.push_back({x, w}); } e.h = cap * tot; B.lp.push_back(e); std::sort(it.rbegin(), it.rend()); double r = e.h; F.opt = 0; for (auto& q : it) { double u = std::min(r, q.second); F.opt -= q.first * u; r -= u; } break; }
    case 12: { F.name = "least squares on a line"; long x = B.var(), t = B.var(); std::vector<Row> S = {A(0, {{t, 1}})}; double ab = 0, aa = 0, bb = 0; N = std::max<long>(N, 2); for (long i = 0; i < N; i++) { double a = s.nz(2, 40), b = v2(3) + (i == 0 ? 3.5 : 0); S.push_back(A(-b, {{x, a}})); ab += a * b; aa += a * a; bb += b * b; } B.soc.push_back(S); B.c.push_back({t, 1}); F.opt = sqrt(std::max(0.0, bb - ab * ab / aa)); if (F.opt < 0.05) throw Discard(); break; }
    default: { F.name = "sum of norms, two points"; N = std::min<long>(N, 5); long t1 = B.var(), t2 = B.var(); std::vector<Row> S1 = {A(0, {{t1, 1}})}, S2 = {A(0, {{t2, 1}})}; double d = 0; for (long i = 0; i < N; i++) { long x = B.var(); double a = v2(3), b = v2(3) + 0.3; S1.push_back(A(-a, {{x, 1}})); S2.push_back(A(-b, {{x, 1}})); d += (a - b) * (a - b); } double w = s.pos_in(1.2, 3); B.soc.push_back(S1); B.soc.push_back(S2); B.c.push_back({t1, 1}); B.c.push_back({t2, w}); F.opt = sqrt(d); if (d < .01) throw Discard(); break; }
  }
  F.P = B.build(c); return F;
}
