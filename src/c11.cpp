// C11: textbook reformulations give the same answer (cone identities, cone automorphisms, slack/epigraph variables, redundant rows, the explicit dual).
#include "meta.hpp"
// A block of the cone: kind 0 inequality, 1 second-order, 2 exponential; rows of [G h] plus, per row, nothing else.
struct Rows { std::vector<dvec> g; dvec h; };
struct Block { int kind; std::vector<long> src; };     // src: rows of P this block is made of (whole block)
static std::vector<Block> blocks(const Prob& P) { std::vector<Block> B; long k = 0; for (; k < P.l; k++) B.push_back({0, {k}}); for (auto d : P.q) { Block b{1, {}}; for (long j = 0; j < d; j++) b.src.push_back(k++); B.push_back(b); } for (long e = 0; e < P.nex; e++) { B.push_back({2, {k, k + 1, k + 2}}); k += 3; } return B; }
// New problem from blocks of rows: each new row is a combination of old rows; minv gives old s from new s; zt old z from new z.
struct NB { int kind; std::vector<long> src; std::vector<dvec> M, S, Z; };   // new row r = sum_k M[r][k] old[src[k]];  s_old[k] = sum_r S[k][r] s_new[r];  z_old[k] += sum_r Z[k][r] z_new[r]
static NB keep(const Block& b) { NB n; n.kind = b.kind; n.src = b.src; size_t d = b.src.size(); n.M.assign(d, dvec(d, 0)); for (size_t i = 0; i < d; i++) n.M[i][i] = 1; n.S = n.Z = n.M; return n; }
static Morph rebuild(const Prob& P, std::vector<NB> nb) {
  Morph T; std::stable_sort(nb.begin(), nb.end(), [](const NB& a, const NB& b) { return a.kind < b.kind; });
  Prob& Q = T.Q; Q = P; Q.q.clear(); Q.l = 0; Q.nex = 0; Q.m = 0; std::vector<long> off;
  for (auto& b : nb) { off.push_back(Q.m); long d = (long)b.M.size(); Q.m += d; if (b.kind == 0) Q.l += d; else if (b.kind == 1) Q.q.push_back(d); else Q.nex++; }
  Dense G = to_dense(P.G), g(Q.m, P.n); Q.h.assign(Q.m, 0);
  for (size_t t = 0; t < nb.size(); t++) for (size_t r = 0; r < nb[t].M.size(); r++) for (size_t k = 0; k < nb[t].src.size(); k++) { double v = nb[t].M[r][k]; if (v == 0) continue; long o = nb[t].src[k]; for (long j = 0; j < P.n; j++) if (G.p(o, j)) g.set(off[t] + (long)r, j, g(off[t] + (long)r, j) + v * G(o, j)); Q.h[off[t] + (long)r] += v * P.h[o]; }
  Q.G = to_csc(g); long m = P.m;
  T.back = [nb, off, m](const Sol& r) { Sol o = r; o.s.assign(m, 0); o.z.assign(m, 0); std::vector<char> have(m, 0);
    for (size_t t = 0; t < nb.size(); t++) for (size_t k = 0; k < nb[t].src.size(); k++) { long i = nb[t].src[k]; double s = 0, z = 0; bool any = false; for (size_t q = 0; q < nb[t].M.size(); q++) { if (!nb[t].S.empty()) { s += nb[t].S[k][q] * r.s[off[t] + q]; any = true; } z += nb[t].Z[k][q] * r.z[off[t] + q]; } if (any) o.s[i] = s; o.z[i] += z; }
    return o; };
  return T;
}
// square invertible map: S = M^-1, Z = M'
static void setmap(NB& b, const std::vector<dvec>& M, const std::vector<dvec>& Minv) { b.M = M; b.S = Minv; size_t d = M.size(); b.Z.assign(d, dvec(d, 0)); for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) b.Z[j][i] = M[i][j]; }
static bool form(Ctx& c, const Prob& P, int want, std::string& what, Morph& T) {
  Src& s = c.s; auto B = blocks(P); std::vector<NB> nb; bool did = false; int k = (int)s.pick(14); const char* nm = "";
  auto rest = [&](std::function<bool(size_t)> f) { for (size_t i = 0; i < B.size(); i++) if (!f(i)) nb.push_back(keep(B[i])); };
  switch (k) {
    case 0: nm = "inequality written as a second-order cone of dimension 1"; rest([&](size_t i) { if (B[i].kind == 0 && s.chance(50)) { NB n = keep(B[i]); n.kind = 1; nb.push_back(n); return did = true; } return false; }); break;
    case 1: nm = "second-order cone of dimension 1 written as an inequality"; rest([&](size_t i) { if (B[i].kind == 1 && B[i].src.size() == 1) { NB n = keep(B[i]); n.kind = 0; nb.push_back(n); return did = true; } return false; }); break;
    case 2: nm = "second-order cone of dimension 2 written as two inequalities"; rest([&](size_t i) { if (B[i].kind == 1 && B[i].src.size() == 2) { NB n = keep(B[i]); setmap(n, {{1, -1}, {1, 1}}, {{.5, .5}, {-.5, .5}}); n.kind = 0; nb.push_back(n); return did = true; } return false; }); break;
    case 3: nm = "two inequalities written as a second-order cone of dimension 2"; { if (P.l < 2) return false; size_t a = s.pick(P.l - 1); rest([&](size_t i) { if (i == a + 1) return true; if (i == a) { NB n; n.kind = 1; n.src = {(long)a, (long)a + 1}; setmap(n, {{.5, .5}, {-.5, .5}}, {{1, -1}, {1, 1}}); nb.push_back(n); return did = true; } return false; }); } break;
    case 4: nm = "reflection of the tail of a second-order cone"; rest([&](size_t i) { long d = (long)B[i].src.size(); if (B[i].kind == 1 && d >= 3) { NB n = keep(B[i]); dvec v(d, 0); double q = 0; for (long j = 1; j < d; j++) { v[j] = s.nz(1, 8); q += v[j] * v[j]; } auto M = n.M; for (long a = 1; a < d; a++) for (long b = 1; b < d; b++) M[a][b] -= 2 * v[a] * v[b] / q; setmap(n, M, M); nb.push_back(n); return did = true; } return false; }); break;
    case 5: nm = "second-order cone padded with a zero entry"; rest([&](size_t i) { size_t d = B[i].src.size(); if (B[i].kind == 1) { NB n = keep(B[i]); size_t at = 1 + s.pick(d); n.M.insert(n.M.begin() + at, dvec(d, 0)); for (auto& r : n.S) r.insert(r.begin() + at, 0); n.Z = n.S; nb.push_back(n); return did = true; } return false; }); break;
    case 6: nm = "redundant copy of an inequality"; { rest([&](size_t) { return false; }); if (!P.l) return false; long i = (long)s.pick(P.l); double f = s.logpos(-1, 1); NB n; n.kind = 0; n.src = {i}; n.M = {{f}}; n.Z = {{f}}; nb.push_back(n); did = true; } break;
    case 7: nm = "redundant sum of inequalities"; { rest([&](size_t) { return false; }); if (P.l < 2) return false; long i = (long)s.pick(P.l - 1); NB n; n.kind = 0; n.src = {i, i + 1}; n.M = {{1, 1}}; n.Z = {{1}, {1}}; nb.push_back(n); did = true; } break;
    case 8: nm = "exponential cone sheared by its automorphism"; rest([&](size_t i) { if (B[i].kind == 2) { NB n = keep(B[i]); double la = s.logpos(-.5, .5); setmap(n, {{1, 0, log(la)}, {0, la, 0}, {0, 0, 1}}, {{1, 0, -log(la)}, {0, 1 / la, 0}, {0, 0, 1}}); nb.push_back(n); return did = true; } return false; }); break;
    case 9: nm = "second-order cone boosted by a Lorentz map"; rest([&](size_t i) { long d = (long)B[i].src.size(); if (B[i].kind == 1 && d >= 2) { NB n = keep(B[i]); double be = s.val(.6, 16), ch = 1 / sqrt(1 - be * be), sh = be * ch; long a = 1 + (long)s.pick(d - 1); auto M = n.M, I = n.M; M[0][0] = M[a][a] = I[0][0] = I[a][a] = ch; M[0][a] = M[a][0] = sh; I[0][a] = I[a][0] = -sh; setmap(n, M, I); nb.push_back(n); return did = true; } return false; }); break;
    case 10: { // x = U x'
      nm = "substituted variables"; if (P.n < 2) return false; T.Q = P; Dense G = to_dense(P.G), A = to_dense(P.A); long a = (long)s.pick(P.n), b = (a + 1 + (long)s.pick(P.n - 1)) % P.n; double f = s.nz(1, 4);   // x_b = x'_b + f x'_a
      for (long i = 0; i < P.m; i++) if (G.p(i, b)) G.set(i, a, G(i, a) + f * G(i, b)); for (long i = 0; i < P.p; i++) if (A.p(i, b)) A.set(i, a, A(i, a) + f * A(i, b)); T.Q.c[a] += f * P.c[b]; T.Q.G = to_csc(G); T.Q.A = to_csc(A);
      T.back = [=](const Sol& r) { Sol o = r; o.x[b] = r.x[b] + f * r.x[a]; return o; }; what += std::string(" ") + nm; c.label(std::string("change: ") + nm); return true; }
    case 11: { // epigraph
      nm = "objective moved to a constraint"; Prob& Q = T.Q; Q = P; Q.n = P.n + 1; Q.m = P.m + 1; Q.l = P.l + 1; Dense G = to_dense(P.G), A = to_dense(P.A), g(Q.m, Q.n), a(P.p, Q.n);
      for (long j = 0; j < P.n; j++) { if (P.c[j] != 0) g.set(P.l, j, P.c[j]); for (long i = 0; i < P.m; i++) if (G.p(i, j)) g.set(i < P.l ? i : i + 1, j, G(i, j)); for (long i = 0; i < P.p; i++) if (A.p(i, j)) a.set(i, j, A(i, j)); }
      g.set(P.l, P.n, -1); Q.h.insert(Q.h.begin() + P.l, 0.0); Q.c.assign(Q.n, 0); Q.c[P.n] = 1; Q.G = to_csc(g); Q.A = to_csc(a); Q.hasA = P.p > 0; long l = P.l, n = P.n;
      T.back = [=](const Sol& r) { Sol o = r; o.x.resize(n); o.s.erase(o.s.begin() + l); o.z.erase(o.z.begin() + l); return o; }; what += std::string(" ") + nm; c.label(std::string("change: ") + nm); return true; }
    case 12: { // slack variables: A x = b, G x + t = h, t in K
      nm = "explicit slack variables"; if (P.m + P.n > 40) return false; Prob& Q = T.Q; Q = P; Q.n = P.n + P.m; Q.p = P.p + P.m; Dense G = to_dense(P.G), A = to_dense(P.A), g(P.m, Q.n), a(Q.p, Q.n);
      for (long j = 0; j < P.n; j++) { for (long i = 0; i < P.p; i++) if (A.p(i, j)) a.set(i, j, A(i, j)); for (long i = 0; i < P.m; i++) if (G.p(i, j)) a.set(P.p + i, j, G(i, j)); }
      for (long i = 0; i < P.m; i++) { a.set(P.p + i, P.n + i, 1); g.set(i, P.n + i, -1); Q.b.push_back(P.h[i]); Q.c.push_back(0); }
      Q.h.assign(P.m, 0); Q.G = to_csc(g); Q.A = to_csc(a); Q.hasA = true; long n = P.n, p = P.p;
      T.back = [=](const Sol& r) { Sol o = r; o.x.resize(n); o.y.resize(p); return o; }; what += std::string(" ") + nm; c.label(std::string("change: ") + nm); return true; }
    default: { // explicit dual: min h'z + b'y  s.t.  G'z + A'y = -c,  z in K*
      nm = "explicit dual"; if (want != 0 || P.m + P.p > 60) return false; Prob& Q = T.Q; Q = P; Q.n = P.p + P.m; Q.p = P.n; Q.hasA = true; Dense G = to_dense(P.G), A = to_dense(P.A), g(P.m, Q.n), a(P.n, Q.n);
      for (long j = 0; j < P.n; j++) { for (long i = 0; i < P.p; i++) if (A.p(i, j)) a.set(j, i, A(i, j)); for (long i = 0; i < P.m; i++) if (G.p(i, j)) a.set(j, P.p + i, G(i, j)); }
      Q.b.clear(); for (double v : P.c) Q.b.push_back(-v); Q.c.assign(P.b.begin(), P.b.begin() + P.p); for (double v : P.h) Q.c.push_back(v); Q.h.assign(P.m, 0);
      long e0 = P.m - 3 * P.nex, p = P.p, n = P.n, m = P.m;
      for (long i = 0; i < e0; i++) g.set(i, p + i, -1);
      for (long e = e0; e < m; e += 3) { g.set(e, p + e, -1); g.set(e, p + e + 2, 1); g.set(e + 1, p + e + 1, -1); g.set(e + 2, p + e, 1); }   // (u-w, v, -u) in Kexp
      Q.G = to_csc(g); Q.A = to_csc(a); T.osc = -1;
      T.back = [=](const Sol& r) { Sol o = r; o.x.resize(n); for (long j = 0; j < n; j++) o.x[j] = -r.y[j]; o.y.assign(r.x.begin(), r.x.begin() + p); o.z = r.s; for (long e = e0; e < m; e += 3) { o.z[e] = -r.s[e + 2]; o.z[e + 1] = r.s[e + 1]; o.z[e + 2] = -r.s[e + 2] - r.s[e]; } o.s.resize(m); for (long i = 0; i < e0; i++) o.s[i] = r.z[i];
        for (long e = e0; e < m; e += 3) { double t0 = r.z[e], t1 = r.z[e + 1], t2 = r.z[e + 2]; o.s[e] = t0 - t2; o.s[e + 1] = t1; o.s[e + 2] = -t0; } return o; };
      what += std::string(" ") + nm; c.label(std::string("change: ") + nm); return true; }
  }
  if (!did) return false;
  T = rebuild(P, nb); what += std::string(" ") + nm; c.label(std::string("change: ") + nm); return true;
}
eng::Prop make_prop() {
  Prop p; p.id = "C11"; p.quick = 80000; p.thorough = 600000; p.min_nontrivial_pct = 50;
  p.rule = "Batches of 6 problems of known status, each passed through 1..3 of 14 reformulations (inequality <-> 1-dimensional second-order cone, 2-dimensional cone <-> two inequalities, reflection and Lorentz boost of a second-order cone, zero padding, redundant rows, shear of the exponential cone, variable substitution, epigraph, explicit slacks, explicit dual). Statuses and optimal values must agree and the second result, carried back to a complete primal-dual point or certificate, must verify against the first form. Up to 3 runs per batch may give up.";
  p.run = [](Ctx& c) {
    int miss = 0, done = 0; std::string last; MetaTol tol; tol.f = 1e-4; tol.g = 1e-3; tol.obj = 1e-4; tol.cone = 1e-5; tol.cert = 0.05;
    for (int k = 0; k < 6; k++) {
      GenOpt o; MetaCase K; try { K = gen_meta_case(c, o); } catch (const Discard&) { continue; }
      std::string what = "reformulated:"; Morph T; T.Q = K.P; T.back = [](const Sol& r) { return r; }; int n = (int)c.s.range(1, 3), did = 0; bool dual = false;
      for (int t = 0; t < n && !dual; t++) for (int tries = 0; tries < 4; tries++) { Morph U; size_t w0 = what.size(); if (!form(c, T.Q, K.want, what, U)) { what.resize(w0); continue; } if (T.Q.m > 90) break; auto f = T.back, g = U.back; U.back = [f, g](const Sol& r) { return f(g(r)); }; U.osc *= T.osc; dual = U.osc < 0; T = U; did++; break; }
      if (!did) continue;
      std::string e = compare_meta(c, K, T, tol, what); done++;
      if (e == "miss") { miss++; last = what + " " + K.P.shape(); c.label("gave up"); } else if (!e.empty()) c.fail(e);
      c.nontrivial(K.P.hash() ^ (T.Q.hash() * 3));
    }
    if (miss > 3) c.fail(fmt("%d of %d pairs of equivalent problems were not both solved, e.g. ", miss, done) + last);
  };
  return p;
}
