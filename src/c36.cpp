// C36: large sparse problems: solved, in few iterations, with a factor about as sparse as the problem allows, in memory proportional to it,
// and without allocating once set up.
#include "gen.hpp"
#include "alloc.hpp"
#include <malloc.h>
#include <unordered_set>
namespace {
struct Trip { std::vector<std::vector<std::pair<long, double>>> col; long rows = 0; void size(long n) { if ((long)col.size() < n) col.resize(n); } void add(long i, long j, double v) { size(j + 1); col[j].push_back({i, v}); rows = std::max(rows, i + 1); } };
struct Rng { uint64_t k; double u() { k = eng::mix(k + 1); return (double)(k >> 11) / 9007199254740992.0; } long in(long a, long b) { return a + (long)(u() * (b - a + 1)); } double nz(double m = 2) { double v = (.25 + .75 * u()) * m; return u() < .5 ? v : -v; } double sgn() { return u() < .5 ? 1 : -1; } };
// exact minimum-degree elimination of a symmetric pattern; -1 when the fill passes cap
long md_fill(std::vector<std::vector<long>> a, long cap) {
  long n = (long)a.size(), fill = 0; std::vector<std::unordered_set<long>> g(n); for (long i = 0; i < n; i++) for (long j : a[i]) if (j != i) { g[i].insert(j); g[j].insert(i); }
  std::set<std::pair<long, long>> pq; for (long i = 0; i < n; i++) pq.insert({(long)g[i].size(), i});
  while (!pq.empty()) { auto it = *pq.begin(); pq.erase(pq.begin()); long v = it.second, d = it.first; fill += d; if (fill > cap) return -1; if (d == (long)pq.size()) { fill += d * (d - 1) / 2; return fill > cap ? -1 : fill; }
    std::vector<long> nb(g[v].begin(), g[v].end()); for (long u : nb) pq.erase({(long)g[u].size(), u});
    for (long u : nb) g[u].erase(v); for (size_t i = 0; i < nb.size(); i++) for (size_t j = 0; j < i; j++) { g[nb[i]].insert(nb[j]); g[nb[j]].insert(nb[i]); }
    for (long u : nb) pq.insert({(long)g[u].size(), u}); g[v].clear(); }
  return fill; }
struct Big { Prob P; std::string fam; double pfeas, dfeas; };
Csc build(const Trip& t, long m, long n, const std::vector<long>& rp, const std::vector<long>& cp) {   // row i -> rp[i], column j -> cp[j]
  Csc c; c.m = m; c.n = n; std::vector<std::map<long, double>> col(n); for (long j = 0; j < (long)t.col.size(); j++) for (auto& e : t.col[j]) col[cp[j]][rp[e.first]] += e.second;
  c.jc.push_back(0); for (long j = 0; j < n; j++) { for (auto& e : col[j]) { c.ir.push_back(e.first); c.pr.push_back(e.second); } c.jc.push_back((idxint)c.ir.size()); } return c; }
Big gen_big(Ctx& c) {
  Src& s = c.s; Big B; Rng r{s.draw(1u << 30)}; long size = s.weighted({3, 4, 3, 1}); long N = size == 0 ? s.range(20, 80) : size == 1 ? s.range(80, 250) : size == 2 ? s.range(250, 700) : s.range(700, 2000);
  Trip L, A; std::vector<std::vector<std::vector<std::pair<long, double>>>> soc; std::vector<std::vector<std::vector<std::pair<long, double>>>> ex; long n = 0, l = 0, p = 0;
  auto lin = [&](std::vector<std::pair<long, double>> e) { for (auto& q : e) L.add(l, q.first, q.second); l++; };
  auto eq = [&](std::vector<std::pair<long, double>> e) { for (auto& q : e) A.add(p, q.first, q.second); p++; };
  int f = s.weighted({3, 2, 2, 3, 3, 2, 2, 1, 3}); bool both = s.chance(50);
  auto box = [&](long j) { lin({{j, 1}}); if (both) lin({{j, -1}}); };
  if (f == 0) { B.fam = "chain"; long d = s.range(1, 4), du = s.range(1, 2), T = std::max(3L, N / (d + du)); n = T * (d + du); auto X = [&](long t, long i) { return t * (d + du) + i; }; auto U = [&](long t, long i) { return t * (d + du) + d + i; };
    for (long t = 0; t + 1 < T; t++) for (long i = 0; i < d; i++) { std::vector<std::pair<long, double>> e{{X(t + 1, i), -1}}; for (long k = 0; k < d; k++) if (k == i || r.u() < .5) e.push_back({X(t, k), r.nz(1)}); for (long k = 0; k < du; k++) e.push_back({U(t, k), r.nz(1)}); eq(e); }
    bool cone = s.chance(40); for (long t = 0; t < T; t++) { for (long i = 0; i < d; i++) box(X(t, i)); if (!cone) for (long i = 0; i < du; i++) box(U(t, i)); else { std::vector<std::vector<std::pair<long, double>>> b(1); for (long i = 0; i < du; i++) b.push_back({{U(t, i), -1}}); soc.push_back(b); } } }
  else if (f == 1) { B.fam = "network"; long V = std::max(4L, N / 2); std::vector<std::pair<long, long>> arc; for (long v = 1; v < V; v++) arc.push_back({r.in(std::max(0L, v - 6), v - 1), v}); long extra = s.range(0, V / 2); for (long k = 0; k < extra; k++) { long a = r.in(0, V - 1), b = std::min(V - 1, a + r.in(1, 8)); if (a != b) arc.push_back({a, b}); } n = (long)arc.size();
    std::vector<std::vector<std::pair<long, double>>> row(V); for (long j = 0; j < n; j++) { double g = r.sgn(); row[arc[j].first].push_back({j, -g}); row[arc[j].second].push_back({j, g}); box(j); } for (long v = 1; v < V; v++) eq(row[v]); }
  else if (f == 2) { B.fam = "hub"; n = N + 1; for (long j = 1; j <= N; j++) { lin({{j, r.nz()}, {0, r.nz()}}); if (both) lin({{j, r.nz()}}); } std::vector<std::pair<long, double>> all; for (long j = 0; j <= N; j++) all.push_back({j, r.nz(1)}); if (s.chance(50)) lin(all); else eq(all); lin({{0, 1}}); }
  else if (f == 3) { B.fam = "large cones"; n = N = std::min(N, 900L); long k = s.range(1, 4); for (long q = 0; q < k; q++) { long d = n / k; std::vector<std::vector<std::pair<long, double>>> b; b.push_back({{q * d, -1}}); for (long i = 1; i < d; i++) { std::vector<std::pair<long, double>> e{{q * d + i, r.nz(1.5)}}; if (r.u() < .3) e.push_back({q * d, r.nz(1)}); b.push_back(e); } soc.push_back(b); } for (long j = 0; j < n; j++) if (j >= n / k * k || r.u() < .2) box(j); long e = s.range(0, 3); for (long i = 0; i < e; i++) { std::vector<std::pair<long, double>> q; for (long j = i; j < n; j++) if (j == i || r.u() < 10.0 / n) q.push_back({j, r.nz()}); eq(q); } }
  else if (f == 4) { B.fam = "exponential sum"; long k = std::max(3L, std::min(N / 2, 350L)); n = 2 * k + 1; for (long i = 0; i < k; i++) { ex.push_back({{{i, -1}}, {{k + i, -1}}, r.u() < .5 ? std::vector<std::pair<long, double>>{} : std::vector<std::pair<long, double>>{{2 * k, r.nz(.5)}}}); box(i); if (r.u() < .3) box(k + i); } std::vector<std::pair<long, double>> all; for (long i = 0; i < k; i++) all.push_back({k + i, 1}); lin(all); lin({{2 * k, 1}}); lin({{2 * k, -1}}); if (s.chance(50)) { std::vector<std::pair<long, double>> q; for (long i = 0; i < k; i++) q.push_back({i, r.nz(1)}); eq(q); } }
  else if (f == 5) { B.fam = "random sparse"; n = std::min(N, 250L); long rows = n / 2; for (long i = 0; i < rows; i++) { std::vector<std::pair<long, double>> q; long k = r.in(1, 3); for (long t = 0; t < k; t++) q.push_back({r.in(0, n - 1), r.nz()}); lin(q); } for (long j = 0; j < n; j++) box(j); long e = s.range(0, n / 10); for (long i = 0; i < e; i++) eq({{i, 2}, {r.in(e, n - 1), r.nz(1)}}); }
  else if (f == 6) { B.fam = "blocks"; long d = s.range(3, 8), k = std::max(2L, N / d); n = k * d; for (long b = 0; b < k; b++) { for (long i = 0; i < d; i++) { std::vector<std::pair<long, double>> q{{b * d + i, 2}}; for (long j = 0; j < d; j++) if (j != i && r.u() < .6) q.push_back({b * d + j, r.nz(1)}); lin(q); box(b * d + i); } if (r.u() < .5) { std::vector<std::vector<std::pair<long, double>>> q; q.push_back({{b * d, -1}}); for (long i = 1; i < d; i++) q.push_back({{b * d + i, r.nz(1)}}); soc.push_back(q); } } long cp = s.range(0, 3); for (long i = 0; i < cp; i++) { std::vector<std::pair<long, double>> q; for (long b = 0; b < k; b++) q.push_back({b * d + i % d, r.nz(1)}); if (r.u() < .5) lin(q); else eq(q); } }
  else if (f == 8) { B.fam = "band"; n = std::min(N, 500L); long W = std::min(s.range(3, 14), n - 1), step = s.range(1, 3), per = s.range(1, 2); bool eqs = s.chance(30); for (long i = 0; i + W <= n; i += step) { std::vector<std::pair<long, double>> q; for (long j = 0; j < W; j++) if (j == 0 || r.u() < .9) q.push_back({i + j, j == 0 ? 4 : r.nz(1)}); if (eqs && i % 4 == 0) eq(q); else for (long k = 0; k < per; k++) { if (k) for (auto& e : q) e.second = r.nz(2); lin(q); } } for (long j = 0; j < n; j++) box(j); }
  else { B.fam = "tree"; n = N; for (long j = 1; j < n; j++) { long q = r.in(0, j - 1); lin({{j, r.nz()}, {q, r.nz()}}); } for (long j = 0; j < n; j++) box(j); }
  Prob& P = B.P; P.n = n; P.l = l; P.p = p; P.nex = (long)ex.size(); long m = l; for (auto& b : soc) { P.q.push_back((long)b.size()); m += (long)b.size(); } m += 3 * P.nex; P.m = m; P.hasA = p > 0 || s.chance(30);
  Trip G = L; long k = l; for (auto* bs : {&soc, &ex}) for (auto& b : *bs) for (auto& e : b) { for (auto& q : e) G.add(k, q.first, q.second); k++; } G.size(n); A.size(n);
  std::vector<long> cp(n), rp(m), ap(p); for (long i = 0; i < n; i++) cp[i] = i; for (long i = 0; i < m; i++) rp[i] = i; for (long i = 0; i < p; i++) ap[i] = i;
  auto shuffle = [&](std::vector<long>& v, long upto) { for (long i = upto - 1; i > 0; i--) std::swap(v[i], v[r.in(0, i)]); }; if (s.chance(60)) { shuffle(cp, n); shuffle(rp, l); shuffle(ap, p); c.label("scrambled"); }
  P.G = build(G, m, n, rp, cp); P.A = build(A, p, n, ap, cp);
  // interior points of both sides
  dvec x0(n), y0(p), s0, z0; for (auto& v : x0) v = 2 * r.u() - 1; for (auto& v : y0) v = 2 * r.u() - 1; auto pt = [&](dvec& o, bool dual) { for (long i = 0; i < l; i++) o.push_back(.3 + 2 * r.u()); for (auto d : P.q) { size_t at = o.size(); o.push_back(0); double t = 0, g = 2 / sqrt((double)d); for (long i = 1; i < d; i++) { double v = g * (2 * r.u() - 1); o.push_back(v); t += v * v; } o[at] = sqrt(t) + .3 + r.u(); }
    for (long e = 0; e < P.nex; e++) { if (!dual) { double z = .3 + 1.5 * r.u(), q = 2 * r.u() - 1; o.push_back(q * z); o.push_back(z * exp(q) + .3 + r.u()); o.push_back(z); } else { double u = -.3 - 1.5 * r.u(), w = 2 * r.u() - 1; o.push_back(u); o.push_back(-u * exp(w / u - 1) + .3 + r.u()); o.push_back(w); } } };
  pt(s0, false); pt(z0, true); P.h = primal_rhs_h(P, x0, s0); P.b = primal_rhs_b(P, x0); P.c = dual_c(P, y0, z0); B.pfeas = (double)dot(P.c, x0); B.dfeas = (double)(-dot(P.h, z0) - dot(P.b, y0)); return B; }
}
eng::Prop make_prop() {
  Prop p; p.id = "C36"; p.quick = 40000; p.thorough = 300000; p.min_nontrivial_pct = 50; p.cpu_limit = 120;
  p.rule = "Sparse problems with 20..2000 variables and up to a few thousand rows (chains of stages, networks, hub rows and columns, second-order cones of dimension up to 900, sums of up to 350 exponential cones, random sparse, block diagonal with coupling, trees, bands; natural or scrambled order) with interior points on both sides, solved, sometimes updated and solved again. The result must be a certified optimum of the known value range in a bounded number of iterations; the factor must not be much denser than an exact minimum-degree ordering of the system gives; the memory held after setup must be proportional to data and factor; solving must allocate nothing and updating must keep nothing. Non-trivial: at least 200 rows in the linear system.";
  p.assumptions = {"a numerical-failure exit is tolerated with exponential cones, cones over 100 rows or more than 300 variables (seen in less than 1%); smaller symmetric problems must be solved"};
  p.run = [](Ctx& c) {
    Big B = gen_big(c); Prob& P = B.P; std::string sh = " (" + B.fam + ") " + (P.q.size() > 6 ? fmt("n=%ld m=%ld p=%ld l=%ld %zu cones nex=%ld", P.n, P.m, P.p, P.l, P.q.size(), P.nex) : P.shape()); if (c.want_note) { if (P.n <= 40) P.print(c.note); else c.note << sh << "\n"; }
    Prob U = P, Q = P; long dmax = 0; for (auto d : P.q) dmax = std::max<long>(dmax, d); double ft = dmax > 100 ? 1e-4 : 2e-6, gt = dmax > 100 ? 1e-3 : 2e-5; Inst I(P); size_t m0 = mallinfo2().uordblks + mallinfo2().hblkhd; if (!I.setup()) c.fail("setup refused" + sh); size_t held = mallinfo2().uordblks + mallinfo2().hblkhd - m0; pwork* w = I.w;
    long nK = w->KKT->PKPt->n, lnz = w->KKT->L->jc[nK] > 0 ? w->KKT->L->jc[nK] : 0;
    long want_nK = P.n + P.m + P.p + 2 * (long)P.q.size();
    // fill
    auto solve = [&](const char* when) {
      long a0 = alc::total, l0 = alc::live; Sol r = I.solve(); c.subevals++; if (alc::total != a0 || alc::live != l0) c.fail(fmt("solving made %ld allocations", alc::total - a0) + sh);
      if (c.want_note) c.note << when << " exit " << code_name(r.code) << " iterations " << r.info.iter << "\n"; std::string k = P.nex ? "exponential" : "symmetric"; c.label(k + ": exit " + code_name(r.code));
      if (r.code != 0) { c.label(fmt("gave up: %s, %s", k.c_str(), dmax > 100 ? "cone over 100 rows" : P.n > 300 ? "over 300 variables" : "smaller")); if (!(P.nex || dmax > 100 || P.n > 300) || (r.code != -2 && r.code != 10 && r.code != -1)) c.fail("not solved: exit " + code_name(r.code) + " " + when + sh); return r; }
      hist(c, k + " iterations/10", r.info.iter / 10.0); if (dmax <= 300 && r.info.iter > (P.nex || dmax > 100 || P.n > 300 ? 90 : 45)) c.fail(fmt("%ld iterations ", (long)r.info.iter) + when + sh); return r; };
    Sol r = solve("first solve"); lnz = w->KKT->L->jc[nK];
    if (r.code == 0) { Kkt kk = kkt_eval(P, r); std::string lg = dmax > 100 ? "cone>100: " : ""; hist(c, lg + "primal residual", kk.pres); hist(c, lg + "dual residual", kk.dres); hist(c, lg + "gap", kk.gap); std::string e = certify_optimal(P, r, ft, gt, 3e-7); if (!e.empty()) c.fail(e + sh); double v = (double)dot(P.c, r.x), sc = 1 + std::max(fabs(B.pfeas), fabs(B.dfeas)); if (!(B.dfeas - v <= 2e-5 * sc && v - B.pfeas <= 2e-5 * sc)) c.fail(fmt("value %.12g outside [%.12g, %.12g]", v, B.dfeas, B.pfeas) + sh); }
    // pattern of the system: [0 A' G'; . 0 0; . . V], second-order cones with two auxiliary rows
    std::vector<std::vector<long>> a(want_nK); { std::vector<long> zi(P.m); long k = P.n + P.p, j = 0; for (long i = 0; i < P.l; i++) zi[j++] = k++; for (auto d : P.q) { long b = k; for (long i = 0; i < d; i++) zi[j++] = k++; for (long i = 0; i < d; i++) { if (i) a[k].push_back(b + i); a[k + 1].push_back(b + i); } k += 2; } for (long e = 0; e < P.nex; e++) { for (int i = 0; i < 3; i++) { zi[j++] = k + i; for (int q = 0; q < i; q++) a[k + i].push_back(k + q); } k += 3; }
      for (long c2 = 0; c2 < P.n; c2++) { for (long q = P.G.jc[c2]; q < P.G.jc[c2 + 1]; q++) a[zi[P.G.ir[q]]].push_back(c2); for (long q = P.A.jc[c2]; q < P.A.jc[c2 + 1]; q++) a[P.n + P.A.ir[q]].push_back(c2); } }
    long nz = 0; for (auto& v : a) nz += (long)v.size(); long md = md_fill(a, 4000000);
    if (md >= 0) { double q = (double)lnz / (md + nz + want_nK); hist(c, "factor entries / (minimum-degree + system entries + rows)", q); hist(c, "factor entries / minimum-degree", (double)lnz / std::max(1L, md)); if (c.want_note) c.note << fmt("factor %ld, minimum degree %ld, system %ld entries, %ld rows\n", lnz, md, nz, nK); if (lnz > 1.8 * md + 40) c.fail(fmt("factor with %ld entries; an exact minimum-degree ordering gives %ld (system of %ld rows, %ld entries)", lnz, md, want_nK, nz) + sh); }
    double est = 16.0 * lnz + 16.0 * nz * 3 + 8.0 * 20 * want_nK; hist(c, "memory / estimate", held / est); if (c.want_note) c.note << fmt("%zu bytes held, estimate %.0f\n", held, est); if (held > 2.2 * est + 20000) c.fail(fmt("%zu bytes held after setup for a factor of %ld entries, a system of %ld entries and %ld rows", held, lnz, nz, want_nK) + sh);
    if (c.s.chance(30)) { Rng q{c.s.draw(1u << 30)}; // the same constraints, another scale of the objective
      double k = .5 + q.u(); for (auto& v : U.c) v *= k; Q.c = U.c; static double dz1[1]; long l0 = alc::live; bool ha = P.p > 0 || P.hasA; ECOS_updateData(w, U.G.pr.empty() ? dz1 : U.G.pr.data(), ha ? (U.A.pr.empty() ? dz1 : U.A.pr.data()) : NULL, U.c.data(), U.h.data(), P.p ? U.b.data() : NULL); if (alc::live != l0) c.fail("updating the data changed the memory held" + sh); Sol r2 = solve("after update"); if (r2.code == 0) { std::string e = certify_optimal(Q, r2, ft, gt, 3e-7); if (!e.empty()) c.fail("after update: " + e + sh); } I.cleanup(); }
    c.label(B.fam); if (nK >= 200) c.nontrivial(P.hash());
  };
  return p;
}
