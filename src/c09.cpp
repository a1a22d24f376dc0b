// C09: how a problem is written down (order of variables, rows, cones; storage of the matrices) does not matter.
#include "meta.hpp"
static Morph reorder(Ctx& c, const Prob& P, std::string& what, bool& something) {
  Src& s = c.s; Morph T; Dense G = to_dense(P.G), A = to_dense(P.A); long n = P.n, m = P.m, p = P.p;
  std::vector<long> pv(n), pm, pp(p); for (long j = 0; j < n; j++) pv[j] = j; for (long i = 0; i < p; i++) pp[i] = i;
  dvec sv(n, 1), sp(p, 1), sm(m, 1); ivec q2 = P.q; auto on = [&](int pct, const char* nm) { bool b = s.chance(pct); if (b) { what += std::string(" ") + nm; c.label(std::string("change: ") + nm); something = true; } return b; };
  if (n > 1 && on(45, "variables permuted")) pv = s.perm(n);
  if (on(30, "signs of variables")) for (auto& v : sv) v = s.chance(50) ? -1 : 1;
  if (p > 1 && on(45, "equalities permuted")) pp = s.perm(p);
  if (p && on(30, "signs of equalities")) for (auto& v : sp) v = s.chance(50) ? -1 : 1;
  std::vector<long> lp(P.l); for (long i = 0; i < P.l; i++) lp[i] = i;
  if (P.l > 1 && on(45, "inequalities permuted")) lp = s.perm(P.l);
  pm = lp;
  std::vector<long> off; { long k = P.l; for (auto d : P.q) { off.push_back(k); k += d; } }
  std::vector<long> oc(P.q.size()); for (size_t i = 0; i < oc.size(); i++) oc[i] = (long)i;
  if (P.q.size() > 1 && on(50, "second-order cones permuted")) oc = s.perm((long)P.q.size());
  bool tail = !P.q.empty() && on(40, "entries within second-order cones permuted"), tsg = !P.q.empty() && on(30, "signs within second-order cones");
  for (size_t i = 0; i < oc.size(); i++) { long k = off[oc[i]], d = P.q[oc[i]]; q2[i] = d; pm.push_back(k); auto t = tail ? s.perm(d - 1) : std::vector<long>(); for (long j = 1; j < d; j++) { pm.push_back(k + 1 + (tail ? t[j - 1] : j - 1)); if (tsg && s.chance(50)) sm[pm.size() - 1] = -1; } }
  std::vector<long> oe(P.nex); for (long i = 0; i < P.nex; i++) oe[i] = i;
  if (P.nex > 1 && on(50, "exponential cones permuted")) oe = s.perm(P.nex);
  long e0 = P.l + P.soc_total(); for (auto e : oe) for (int j = 0; j < 3; j++) pm.push_back(e0 + 3 * e + j);
  // explicit zeros
  int ez = on(30, "explicit zeros") ? (int)s.range(1, 6) : 0;
  Prob& Q = T.Q; Q = P; Q.q = q2; Dense g(m, n), a(p, n);
  for (long j = 0; j < n; j++) { for (long i = 0; i < m; i++) if (G.p(pm[i], pv[j])) g.set(i, j, sv[j] * sm[i] * G(pm[i], pv[j])); for (long i = 0; i < p; i++) if (A.p(pp[i], pv[j])) a.set(i, j, sv[j] * sp[i] * A(pp[i], pv[j])); Q.c[j] = sv[j] * P.c[pv[j]]; }
  for (int k = 0; k < ez; k++) { long j = (long)s.pick(n); if (p && s.chance(40)) { long i = (long)s.pick(p); if (!a.p(i, j)) a.set(i, j, 0); } else if (m) { long i = (long)s.pick(m); if (!g.p(i, j)) g.set(i, j, 0); } }
  for (long i = 0; i < m; i++) Q.h[i] = sm[i] * P.h[pm[i]]; for (long i = 0; i < p; i++) Q.b[i] = sp[i] * P.b[pp[i]];
  Q.G = to_csc(g); Q.A = to_csc(a);
  auto shuffle = [&](Csc& M) { for (long j = 0; j < M.n; j++) { long k0 = M.jc[j], len = M.jc[j + 1] - k0; auto t = s.perm(len); ivec ir; dvec pr; for (long k = 0; k < len; k++) { ir.push_back(M.ir[k0 + t[k]]); pr.push_back(M.pr[k0 + t[k]]); } for (long k = 0; k < len; k++) { M.ir[k0 + k] = ir[k]; M.pr[k0 + k] = pr[k]; } } };
  if (on(30, "row indices within columns unsorted")) { shuffle(Q.G); shuffle(Q.A); }
  if (p == 0 && on(40, "missing A versus A without rows")) Q.hasA = !P.hasA;
  T.back = [=](const Sol& r) { Sol o = r; for (long j = 0; j < n; j++) o.x[pv[j]] = sv[j] * r.x[j]; for (long i = 0; i < p; i++) o.y[pp[i]] = sp[i] * r.y[i]; for (long i = 0; i < m; i++) { o.s[pm[i]] = sm[i] * r.s[i]; o.z[pm[i]] = sm[i] * r.z[i]; } return o; };
  return T;
}
eng::Prop make_prop() {
  Prop p; p.id = "C09"; p.quick = 87500; p.thorough = 600000; p.min_nontrivial_pct = 60;
  p.rule = "Batches of 8 problems of known status, each rewritten by a random combination of: permuting or negating variables and equalities, permuting inequalities, second-order cones, entries (and signs) within them, exponential cones, adding explicit zeros, shuffling row indices within columns, passing no A instead of an empty one. Both forms must get the status the problem was built with, equal optimal values, and the second result carried back must satisfy the first form's optimality or certificate conditions. Runs that give up are tolerated up to 3 per batch.";
  p.run = [](Ctx& c) {
    int miss = 0, done = 0; std::string last; for (int k = 0; k < 8; k++) {
      GenOpt o; o.huge_pct = 1; MetaCase K; try { K = gen_meta_case(c, o); } catch (const Discard&) { continue; }
      std::string what = "rewritten:"; bool some = false; Morph T = reorder(c, K.P, what, some);
      std::string e = compare_meta(c, K, T, MetaTol(), what); done++;
      if (e == "miss") { miss++; last = what + " " + K.P.shape(); c.label("gave up", true); } else if (!e.empty()) c.fail(e);
      if (some) c.nontrivial(K.P.hash() ^ (T.Q.hash() * 3));
    }
    if (miss > 3) c.fail(fmt("%d of %d pairs of equivalent problems were not both solved, e.g. ", miss, done) + last);
  };
  return p;
}
