// C10: changes of units (scaling of objective, data, rows, cone blocks, variables) and translations move the answer exactly as they should.
#include "meta.hpp"
static Morph rescale(Ctx& c, const Prob& P, std::string& what, bool& something) {
  Src& s = c.s; Morph T; long n = P.n, m = P.m, p = P.p; Dense G = to_dense(P.G), A = to_dense(P.A); Prob& Q = T.Q; Q = P;
  auto on = [&](int pct, const char* nm) { bool b = s.chance(pct); if (b) { what += std::string(" ") + nm; c.label(std::string("change: ") + nm); something = true; } return b; };
  auto f = [&] { return s.chance(50) ? std::ldexp(1.0, (int)s.range(-5, 5)) : s.logpos(-1.3, 1.3); };
  double al = 1, be = 1; dvec dr(m, 1), de(p, 1), dx(n, 1), t(n, 0);
  if (on(35, "objective scaled")) al = f();
  if (on(35, "right-hand sides scaled")) be = f();
  if (on(40, "rows and cones scaled")) { long k = 0; for (; k < P.l; k++) dr[k] = f(); for (auto d : P.q) { double v = f(); for (long j = 0; j < d; j++) dr[k + j] = v; k += d; } for (long e = 0; e < P.nex; e++) { double v = f(); for (int j = 0; j < 3; j++) dr[k + j] = v; k += 3; } }
  if (p && on(40, "equalities scaled")) for (auto& v : de) v = f() * (s.chance(30) ? -1 : 1);
  if (on(40, "variables scaled")) for (auto& v : dx) v = f() * (s.chance(30) ? -1 : 1);
  if (on(35, "variables translated")) for (auto& v : t) v = s.val(3, 32);
  // P: x.   Q: xq with x = be^-1 * dx.*xq - t  (so dx.*xq = be (x + t))
  // G x + s = h  ->  G (x+t) + s = h + G t  ->  G dx xq + be s = be (h + G t); rows times dr
  auto Gt = mulv(P.G, t), At = mulv(P.A, t); ld ct = dot(P.c, t);
  for (long j = 0; j < n; j++) { for (long i = 0; i < m; i++) G(i, j) *= dr[i] * dx[j]; for (long i = 0; i < p; i++) A(i, j) *= de[i] * dx[j]; Q.c[j] = P.c[j] * dx[j] * al; }
  for (long i = 0; i < m; i++) Q.h[i] = (double)(dr[i] * be * (P.h[i] + Gt[i])); for (long i = 0; i < p; i++) Q.b[i] = (double)(de[i] * be * (P.b[i] + At[i]));
  Q.G = to_csc(G); Q.A = to_csc(A);
  T.osc = al * be; T.oadd = (double)(al * be * ct);
  T.back = [=](const Sol& r) {    // a status decides whether translation applies (rays and certificates are directions)
    Sol o = r; bool dir = r.code == 1 || r.code == 2;
    for (long j = 0; j < n; j++) o.x[j] = dx[j] * r.x[j] / be - (dir ? 0 : t[j]);
    for (long i = 0; i < m; i++) { o.s[i] = r.s[i] / dr[i] / be; o.z[i] = r.z[i] * dr[i] / al; }
    for (long i = 0; i < p; i++) o.y[i] = r.y[i] * de[i] / al; return o; };
  return T;
}
eng::Prop make_prop() {
  Prop p; p.id = "C10"; p.quick = 87500; p.thorough = 600000; p.min_nontrivial_pct = 60;
  p.rule = "Batches of 8 problems of known status, each subjected to a random combination of: scaling the objective, scaling (h,b), scaling inequality rows and whole cones by positive numbers, scaling equalities and variables by non-zero numbers (factors 1/32..32), translating the variables. Both must get the status built in, optimal values must correspond exactly as the algebra says, and the second result carried back must satisfy the original's optimality or certificate conditions. Up to 4 runs per batch may give up.";
  p.run = [](Ctx& c) {
    int miss = 0, done = 0; std::string last; MetaTol tol; tol.f = 3e-4; tol.g = 3e-3; tol.obj = 3e-4; tol.cone = 1e-5; tol.cert = 0.1;
    for (int k = 0; k < 8; k++) {
      GenOpt o; o.huge_pct = 1; MetaCase K; try { K = gen_meta_case(c, o); } catch (const Discard&) { continue; }
      std::string what = "changed units:"; bool some = false; Morph T = rescale(c, K.P, what, some);
      std::string e = compare_meta(c, K, T, tol, what); done++;
      if (e == "miss") { miss++; last = what + " " + K.P.shape(); c.label("gave up"); } else if (!e.empty()) c.fail(e);
      if (some) c.nontrivial(K.P.hash() ^ (T.Q.hash() * 3));
    }
    if (miss > 4) c.fail(fmt("%d of %d pairs of equivalent problems were not both solved, e.g. ", miss, done) + last);
  };
  return p;
}
