// Structured infeasible and unbounded families (verdict known by construction).
#pragma once
#include "closed.hpp"
// embeds a kernel together with random feasible surroundings; the infeasible families box every variable, so that no ray of descent exists beside the contradiction
inline Closed gen_struct_pinf(Ctx& c) {
  Src& s = c.s; Closed F; Builder B; auto A = Builder::aff; int kind = (int)s.pick(9); long N = s.range(1, 6); std::vector<long> x; double d = s.pos_in(.2, 3);
  for (long i = 0; i < N; i++) x.push_back(B.var());
  for (long i = 0; i < N; i++) { B.c.push_back({x[i], s.val(2, 32)}); { B.le({{x[i], 1}}, s.pos_in(2, 6)); B.le({{x[i], -1}}, s.pos_in(2, 6)); } }
  switch (kind) {
    case 0: { F.name = "x<=a and x>=a+d"; double a = s.val(2, 32); B.le({{x[0], 1}}, a); B.le({{x[0], -1}}, -a - d); break; }
    case 1: { F.name = "nonnegative terms with negative sum"; Row e; e.h = -d; for (long i = 0; i < N; i++) { B.le({{x[i], -1}}, 0); e.t.push_back({x[i], s.pos_in(.3, 2)}); } B.eq.push_back(e); break; }
    case 2: { F.name = "norm bounded by a negative number"; std::vector<Row> S = {A(-d, {})}; for (long i = 0; i < N; i++) S.push_back(A(s.val(2, 16), {{x[i], 1}})); B.soc.push_back(S); break; }
    case 3: { F.name = "disjoint balls"; double r1 = s.pos_in(.3, 2), r2 = s.pos_in(.3, 2), g = r1 + r2 + d; std::vector<Row> S1 = {A(r1, {})}, S2 = {A(r2, {})}; dvec u(N); double nn = 0; for (auto& v : u) { v = s.nz(1, 16); nn += v * v; } nn = sqrt(nn); for (long i = 0; i < N; i++) { double a = s.val(2, 16); S1.push_back(A(-a, {{x[i], 1}})); S2.push_back(A(-a - g * u[i] / nn, {{x[i], 1}})); } B.soc.push_back(S1); B.soc.push_back(S2); break; }
    case 4: { F.name = "exp(x)<=y with y bounded below exp(lb)"; long y = B.var(); double a = s.val(1, 16); B.le({{y, -1}}, 5); B.ex.push_back({A(0, {{x[0], 1}}), A(0, {{y, 1}}), A(1, {})}); B.le({{x[0], -1}}, -a); B.le({{y, 1}}, exp(a) - std::min(d, .8 * exp(a)) - .1 * exp(a)); break; }
    case 5: { F.name = "exp cone with a negative second entry"; B.ex.push_back({A(0, {{x[0], 1}}), A(-d, {}), A(1, {})}); break; }
    case 6: { F.name = "contradicting equalities"; Row e, f; for (long i = 0; i < N; i++) { double v = s.nz(2, 32); e.t.push_back({x[i], v}); B.le({{x[i], 1}}, 2); B.le({{x[i], -1}}, 2); } double m = 0; for (auto& t : e.t) m += 2 * fabs(t.second); e.h = m + d; B.eq.push_back(e); break; }
    case 7: { F.name = "cyclic order x1<x2<...<x1"; long K = std::max<long>(N, 2); while ((long)x.size() < K) { x.push_back(B.var()); B.le({{x.back(), 1}}, 4); B.le({{x.back(), -1}}, 4); } for (long i = 0; i < K; i++) B.le({{x[i], 1}, {x[(i + 1) % K], -1}}, -d); break; }
    default: { F.name = "halfspace away from a ball"; double r = s.pos_in(.3, 2); std::vector<Row> S = {A(r, {})}; std::vector<std::pair<long, double>> g; double ga = 0, nn = 0; for (long i = 0; i < N; i++) { double a = s.val(2, 16), v = s.nz(1, 16); S.push_back(A(-a, {{x[i], 1}})); g.push_back({x[i], -v}); ga += v * a; nn += v * v; } B.soc.push_back(S); B.le(g, -(ga + r * sqrt(nn) + d)); break; }
  }
  F.P = B.build(c); F.opt = NAN; return F;
}
inline Closed gen_struct_dinf(Ctx& c) {
  Src& s = c.s; Closed F; Builder B; auto A = Builder::aff; int kind = (int)s.pick(7); long N = s.range(1, 6); std::vector<long> x; for (long i = 0; i < N; i++) x.push_back(B.var());
  double k = s.pos_in(.3, 3);
  switch (kind) {
    case 0: F.name = "free descent coordinate"; for (long i = 0; i < N; i++) { B.c.push_back({x[i], i == 0 ? k : s.val(2, 16)}); B.le({{x[i], 1}}, s.pos_in(.5, 3)); if (i) B.le({{x[i], -1}}, s.pos_in(.5, 3)); } break;
    case 1: { F.name = "balanced growth"; if (N < 2) { x.push_back(B.var()); N = 2; } for (long i = 0; i < N; i++) { B.le({{x[i], -1}}, 0); B.c.push_back({x[i], i == 0 ? -k - 1 : s.pos_in(.1, 1)}); } B.le({{x[0], 1}, {x[1], -1}}, s.pos_in(.5, 2)); break; }
    case 2: { F.name = "second-order cone opened upwards"; long t = B.var(); std::vector<Row> S = {A(0, {{t, 1}})}; for (long i = 0; i < N; i++) S.push_back(A(s.val(2, 16), {{x[i], 1}})); B.soc.push_back(S); double g = 0; for (long i = 0; i < N; i++) { double v = s.val(1, 16); B.c.push_back({x[i], v}); g += fabs(v); } B.c.push_back({t, -k}); break; }
    case 3: { F.name = "log grows without bound"; long t = B.var(), y = B.var(); B.ex.push_back({A(0, {{t, 1}}), A(0, {{y, 1}}), A(1, {})}); B.c.push_back({t, -0.0}); B.c.push_back({y, -k}); for (long i = 0; i < N; i++) { B.le({{x[i], 1}}, 1); B.le({{x[i], -1}}, 1); B.c.push_back({x[i], s.val(2, 16)}); } B.le({{t, -1}}, 2); break; }
    case 4: { F.name = "exponent decreases without bound"; long y = B.var(); B.ex.push_back({A(0, {{x[0], 1}}), A(0, {{y, 1}}), A(1, {})}); B.le({{y, 1}}, s.pos_in(1, 3)); for (long i = 0; i < N; i++) { B.c.push_back({x[i], i == 0 ? k : s.val(2, 16)}); if (i) { B.le({{x[i], 1}}, 1); B.le({{x[i], -1}}, 1); } } break; }
    case 5: { F.name = "descent inside an equality"; if (N < 2) { x.push_back(B.var()); N = 2; } Row e; for (long i = 0; i < N; i++) { double v = s.pos_in(.3, 2) * (i & 1 ? -1 : 1); e.t.push_back({x[i], v}); B.le({{x[i], -1}}, s.pos_in(.2, 2)); B.c.push_back({x[i], -s.pos_in(.3, 2)}); } e.h = s.val(1, 16); B.eq.push_back(e); break; }
    default: { F.name = "ray of a halfspace"; std::vector<std::pair<long, double>> g; for (long i = 0; i < N; i++) { double v = s.nz(2, 32); g.push_back({x[i], v}); B.c.push_back({x[i], v * k}); } B.le(g, s.pos_in(.2, 2)); if (N > 1) throw Discard(); break; }
  }
  F.P = B.build(c); F.opt = NAN; return F;
}
