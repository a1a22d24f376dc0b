// Mixed-integer problems, the branch-and-bound wrapper and a brute-force reference.
#pragma once
#include "gen.hpp"
extern "C" {
#include "ecos_bb.h"
}
#undef MAX
#undef MIN

struct MiProb { Prob P; ivec bools, ints; long B = 2; };   // every integer variable is kept in [-B,B] by rows of G

struct MiInst {
  MiProb M; Csc G, A; dvec c, h, b; ivec q, bi, ii; settings_bb st; ecos_bb_pwork* w = nullptr; bool use_default = false;
  explicit MiInst(const MiProb& m) : M(m), G(m.P.G), A(m.P.A), c(m.P.c), h(m.P.h), b(m.P.b), q(m.P.q), bi(m.bools), ii(m.ints) {
    settings_bb* d = get_default_ECOS_BB_settings(); st = *d; free(d); st.verbose = 0;
  }
  MiInst(const MiInst&) = delete;
  bool setup() {
    static double dz[1]; static idxint iz[1]; auto& P = M.P;
    auto dp = [&](dvec& v) { return v.empty() ? dz : v.data(); }; auto ip = [&](ivec& v) { return v.empty() ? iz : v.data(); };
    bool a = P.p > 0 || P.hasA;
    w = ECOS_BB_setup(P.n, P.m, P.p, P.l, (idxint)q.size(), q.empty() ? NULL : q.data(), P.nex, dp(G.pr), ip(G.jc), ip(G.ir), a ? dp(A.pr) : NULL, a ? ip(A.jc) : NULL, a ? ip(A.ir) : NULL,
                      c.data(), dp(h), P.p ? b.data() : NULL, (idxint)bi.size(), bi.empty() ? NULL : bi.data(), (idxint)ii.size(), ii.empty() ? NULL : ii.data(), use_default ? NULL : &st);
    if (w && use_default) w->stgs->verbose = 0;
    return w != nullptr;
  }
  int solve() { return (int)ECOS_BB_solve(w); }
  dvec x() const { return dvec(w->x, w->x + M.P.n); }
  void cleanup() { if (w) ECOS_BB_cleanup(w, 0); w = nullptr; }
  ~MiInst() { if (w) ECOS_BB_cleanup(w, 0); }
};

inline bool is_intvar(const MiProb& M, long j) { for (auto b : M.bools) if (b == j) return true; for (auto b : M.ints) if (b == j) return true; return false; }

struct MiRef { bool ok = true; bool feas = false; double opt = INFINITY, second = INFINITY, slop = 0 /* what the integrality tolerance may be worth (exponential cones only) */; dvec x; long assignments = 0, feasible = 0; };

// Enumerate every assignment of the integer variables; the rest is a continuous problem solved with the columns removed.
inline MiRef brute(Ctx& c, const MiProb& M, double itol = 1.1e-3) {
  MiRef R; const Prob& P = M.P; std::vector<long> iv, lo, hi; std::vector<long> cv;
  for (auto b : M.bools) { iv.push_back(b); lo.push_back(0); hi.push_back(1); }
  for (auto b : M.ints) { iv.push_back(b); lo.push_back(-M.B); hi.push_back(M.B); }
  for (long j = 0; j < P.n; j++) if (!is_intvar(M, j)) cv.push_back(j);
  std::vector<long> cur = lo; Dense G = to_dense(P.G), A = to_dense(P.A);
  while (true) {
    R.assignments++;
    dvec h = P.h, b = P.b; double base = 0;
    for (size_t k = 0; k < iv.size(); k++) { long j = iv[k]; base += P.c[j] * cur[k]; for (long i = 0; i < P.m; i++) h[i] -= G(i, j) * cur[k]; for (long i = 0; i < P.p; i++) b[i] -= A(i, j) * cur[k]; }
    bool feas = false; double val = 0; dvec xs(P.n, 0.0); for (size_t k = 0; k < iv.size(); k++) xs[iv[k]] = cur[k];
    if (cv.empty()) {
      double mg = INFINITY; long r = 0;
      for (; r < P.l; r++) mg = std::min(mg, h[r]);
      for (auto d : P.q) { double t = 0; for (long j = 1; j < d; j++) t += h[r + j] * h[r + j]; mg = std::min(mg, h[r] - sqrt(t)); r += d; }
      if (fabs(mg) < 0.02) { R.ok = false; return R; }
      feas = mg > 0; val = base;
    } else {
      // quick reject by rows without continuous variables, decided exactly
      Prob Q; Q.n = (long)cv.size(); Q.p = P.p; Q.l = P.l; Q.q = P.q; Q.nex = P.nex; Q.m = P.m; Q.hasA = P.p > 0; Q.h = h; Q.b = b;
      Dense g(P.m, Q.n), a(P.p, Q.n); for (long t = 0; t < Q.n; t++) { for (long i = 0; i < P.m; i++) if (G.p(i, cv[t])) g.set(i, t, G(i, cv[t])); for (long i = 0; i < P.p; i++) if (A.p(i, cv[t])) a.set(i, t, A(i, cv[t])); Q.c.push_back(P.c[cv[t]]); }
      bool rej = false;
      for (long i = 0; i < P.l; i++) { bool any = false; for (long t = 0; t < Q.n; t++) if (g.p(i, t)) any = true; if (!any && h[i] < 0) rej = true; }
      if (!rej) {
        Q.G = to_csc(g); Q.A = to_csc(a); bool rfeas = false; double rval = 0;
        if (P.nex) { // the same assignment with every constraint relaxed by what the integrality tolerance may give
          Prob E = Q; auto add = [&](long i, double f) { double t = 1e-7; for (long j : iv) t += itol * fabs(G(i, j)); return f * t; }; long k = 0; for (; k < P.l; k++) E.h[k] += add(k, 1); for (auto d : P.q) { double t = 0; for (long j = 0; j < d; j++) t += add(k + j, 1); E.h[k] += t; k += d; } for (; k < P.m; k += 3) { E.h[k] -= add(k, 1); E.h[k + 1] += add(k + 1, 1); }
          if (P.p) { for (long i = 0; i < P.p; i++) for (long j : iv) if (A(i, j) != 0) { R.ok = false; return R; } }
          Inst I(E); if (!I.setup()) { R.ok = false; return R; } Sol s = I.solve(); if (s.code == ECOS_OPTIMAL && certify_optimal(E, s, 1e-7, 1e-6) == "") { rfeas = true; rval = base + (double)dot(E.c, s.x); } else if (s.code != ECOS_PINF || certify_pinf(E, s, 1e-4) != "") { R.ok = false; return R; } }
        Inst I(Q); if (!I.setup()) { R.ok = false; return R; } Sol s = I.solve();
        if (s.code == ECOS_OPTIMAL && certify_optimal(Q, s, 1e-7, 1e-6) == "") { feas = true; val = base + (double)dot(Q.c, s.x); for (long t = 0; t < Q.n; t++) xs[cv[t]] = s.x[t]; }
        else if (s.code == ECOS_PINF && certify_pinf(Q, s, 1e-4) == "") feas = false;
        else { R.ok = false; return R; }
        if (rfeas && !feas) { R.ok = false; return R; } if (rfeas) R.slop = std::max(R.slop, val - rval + itol * 10);
      }
    }
    if (feas) { R.feasible++; if (val < R.opt) { R.second = R.opt; R.opt = val; R.x = xs; R.feas = true; } else if (val < R.second) R.second = val; }
    size_t k = 0; for (; k < iv.size(); k++) { if (cur[k] < hi[k]) { cur[k]++; break; } cur[k] = lo[k]; }
    if (k == iv.size()) break;
  }
  return R;
}

struct MiOpt { long maxbool = 4, maxint = 2, maxcont = 2, maxB = 3; bool soc = true; int infeas_bias = 20; bool exp = false; };
// Integer data with half-integer right-hand sides: every assignment is clearly feasible or clearly infeasible.
inline MiProb gen_mi(Ctx& c, const MiOpt& o) {
  Src& s = c.s; MiProb M; Prob& P = M.P;
  long nb = s.range(0, o.maxbool), ni = s.range(0, o.maxint), nc = s.chance(50) ? s.range(0, o.maxcont) : 0;
  if (nb + ni == 0) nb = 1;
  P.n = nb + ni + nc; M.B = s.range(1, o.maxB);
  auto pm = s.chance(60) ? s.perm(P.n) : [&] { std::vector<long> v(P.n); for (long i = 0; i < P.n; i++) v[i] = i; return v; }();
  for (long i = 0; i < nb; i++) M.bools.push_back(pm[i]);
  for (long i = 0; i < ni; i++) M.ints.push_back(pm[nb + i]);
  long nsoc = o.soc && s.chance(25) ? s.range(1, s.chance(20) ? 4 : 2) : 0, extra = s.range(nsoc ? 0 : 1, 4);
  std::vector<std::vector<double>> rows; dvec h;
  for (auto j : M.ints) { std::vector<double> r(P.n, 0.0); r[j] = 1; rows.push_back(r); h.push_back(M.B + 0.5); r[j] = -1; rows.push_back(r); h.push_back(M.B + 0.5); }
  for (long k = nb + ni; k < P.n; k++) { std::vector<double> r(P.n, 0.0); r[pm[k]] = 1; rows.push_back(r); h.push_back(s.range(1, 3) + 0.25); r[pm[k]] = -1; rows.push_back(r); h.push_back(s.range(1, 3) + 0.25); }
  std::vector<double> centre(P.n); for (auto j : M.bools) centre[j] = (double)s.range(0, 1); for (auto j : M.ints) centre[j] = (double)s.range(-M.B, M.B); for (long k = nb + ni; k < P.n; k++) centre[pm[k]] = s.val(1, 4);
  bool mayinf = s.chance(o.infeas_bias);
  for (long e = 0; e < extra; e++) { std::vector<double> r(P.n, 0.0); double v = 0; for (long j = 0; j < P.n; j++) if (s.chance(75)) r[j] = (double)s.range(-5, 5); for (long j = 0; j < P.n; j++) v += r[j] * centre[j]; rows.push_back(r); h.push_back(std::floor(v) + 0.5 + (mayinf ? (double)s.range(-6, 2) : (double)s.range(0, 3))); }
  P.l = (long)rows.size();
  for (long e = 0; e < nsoc; e++) {
    long d = s.range(s.chance(10) ? 1 : 2, s.chance(15) ? 8 : 4); P.q.push_back(d);
    for (long t = 0; t < d; t++) { std::vector<double> r(P.n, 0.0); double v = 0; for (long j = 0; j < P.n; j++) if (s.chance(t == 0 ? 30 : 60)) r[j] = (double)s.range(-2, 2); for (long j = 0; j < P.n; j++) v += r[j] * centre[j]; rows.push_back(r); h.push_back(t == 0 ? std::floor(v) + 1.55 + (double)s.range(0, 3) : std::floor(v) + 0.5 * s.range(-1, 1)); }
  }
  long nexp = o.exp && nc > 0 && s.chance(30) ? s.range(1, s.chance(30) ? 3 : 1) : 0;
  for (long e = 0; e < nexp; e++) {   // t >= exp(r'x + k) for a continuous t
    std::vector<double> r(P.n, 0.0), t(P.n, 0.0), z(P.n, 0.0); long tv = pm[nb + ni + (e ? s.range(0, nc - 1) : 0)]; double v = 0; for (long j = 0; j < P.n; j++) if (j != tv && s.chance(60)) r[j] = -0.5 * (double)s.range(-2, 2); for (long j = 0; j < P.n; j++) v -= r[j] * centre[j]; t[tv] = -1;
    rows.push_back(r); h.push_back(-v - 0.25 * (double)s.range(0, 4)); rows.push_back(t); h.push_back(0.25 * (double)s.range(0, 4)); rows.push_back(z); h.push_back(1); P.nex++; }
  P.m = (long)rows.size(); Dense G(P.m, P.n); for (long i = 0; i < P.m; i++) for (long j = 0; j < P.n; j++) if (rows[i][j] != 0) G.set(i, j, rows[i][j]);
  P.G = to_csc(G); P.h = h; P.A = to_csc(Dense(0, P.n)); P.hasA = false; P.p = 0;
  if (nc > 0 && s.chance(40)) { // an equality defining a continuous variable
    P.p = nc > 1 && s.chance(30) ? 2 : 1; Dense A(P.p, P.n);
    for (long i = 0; i < P.p; i++) { long k = pm[nb + ni + i]; A.set(i, k, 1); double v = centre[k]; for (long j = 0; j < P.n; j++) if (j != k && !(i && j == pm[nb + ni]) && s.chance(50)) { double a = (double)s.range(-2, 2); if (a != 0) { A.set(i, j, a); v += a * centre[j]; } } P.b.push_back(v); }
    P.A = to_csc(A); }
  P.c.resize(P.n); for (auto& v : P.c) v = (double)s.range(-7, 7); if (s.chance(30)) for (auto& v : P.c) v += s.val(0.5, 16);
  return M;
}
inline void print_mi(std::ostream& o, const MiProb& M) { M.P.print(o); o << "  bools:"; for (auto b : M.bools) o << " " << b; o << "  ints:"; for (auto b : M.ints) o << " " << b; o << " in [" << -M.B << "," << M.B << "]\n"; }

// ---- running a mixed-integer solve while observing the exit codes of its relaxations (linker --wrap=ECOS_solve) ----
namespace rel { extern bool on; extern std::vector<int> codes; }
struct MiCfg { int br = 3, ns = 1; long maxit = 1000, eta = 6; double abs = 1e-6, relg = 1e-3, itol = 1e-4; unsigned seed = 7; };
struct MiOut { int code = -99; dvec x, y, s, z; double U = 0, L = 0; long it = 0, solves = 0; bool clean = true; stats info; std::vector<int> codes; double tau = 1, kap = 0; std::string sync; };
inline MiCfg gen_cfg(Ctx& c, bool loose = true) { Src& s = c.s; MiCfg g; g.br = (int)s.range(0, 4); g.ns = (int)s.range(0, 2); g.eta = s.chance(50) ? 6 : s.range(0, 4); if (s.chance(40)) g.relg = s.chance(50) ? 1e-6 : loose ? s.logpos(-5, -1.3) : 1e-6; if (!loose) { g.relg = std::min(g.relg, 1e-3); } if (loose && s.chance(20)) g.abs = s.logpos(-6, 0); if (s.chance(20)) g.itol = s.logpos(-5, -3); g.seed = (unsigned)s.range(0, 1000); return g; }
inline void put(MiInst& I, const MiCfg& g) { I.st.branching_strategy = (enum BRANCHING_STRATEGY)g.br; I.st.node_selection_method = (enum NODE_SELECTION_METHOD)g.ns; I.st.maxit = g.maxit; I.st.reliable_eta = g.eta; I.st.abs_tol_gap = g.abs; I.st.rel_tol_gap = g.relg; I.st.integer_tol = g.itol; }
inline std::string cfg_str(const MiCfg& g) { return fmt("[branching %d, selection %d, maxit %ld, eta %ld, gaps %.2g/%.2g, int tol %.2g, srand %u]", g.br, g.ns, g.maxit, g.eta, g.abs, g.relg, g.itol, g.seed); }
inline MiOut mi_solve(Ctx& c, MiInst& I, const MiCfg& g) {
  srand(g.seed); rel::codes.clear(); rel::on = true; MiOut r; r.code = I.solve(); rel::on = false; c.subevals++; auto* w = I.w; long m2 = w->ecos_prob->m;
  r.U = w->global_U; r.L = w->global_L; r.it = w->iter; r.codes = rel::codes; r.solves = (long)r.codes.size(); for (int k : r.codes) if (k != 0 && k != 1 && k != 2) r.clean = false;
  if (r.code == 0 || r.code == 10) { r.x = I.x(); r.y.assign(w->y, w->y + I.M.P.p); r.s.assign(w->s, w->s + m2); r.z.assign(w->z, w->z + m2); r.info = *w->info; r.tau = w->tau; r.kap = w->kap;
    auto* e = w->ecos_prob; auto eq = [](const pfloat* a, const pfloat* b, long n) { return n <= 0 || memcmp(a, b, sizeof(pfloat) * (size_t)n) == 0; }; // what interfaces read is the incumbent, all of it
    if (!eq(w->x, e->x, I.M.P.n)) r.sync = "x"; else if (!eq(w->y, e->y, I.M.P.p)) r.sync = "y"; else if (!eq(w->z, e->z, m2)) r.sync = "z"; else if (!eq(w->s, e->s, m2)) r.sync = "s"; else if (!eq(&w->tau, &e->tau, 1) || !eq(&w->kap, &e->kap, 1)) r.sync = "tau/kap"; else if (!eq(&w->info->pcost, &e->info->pcost, 1) || !eq(&w->info->dcost, &e->info->dcost, 1) || !eq(&w->info->gap, &e->info->gap, 1) || !eq(&w->info->pres, &e->info->pres, 1) || !eq(&w->info->dres, &e->info->dres, 1) || w->info->iter != e->info->iter) r.sync = "info"; } return r;
}
inline MiOut mi_run(Ctx& c, const MiProb& M, const MiCfg& g) { MiInst I(M); put(I, g); if (!I.setup()) c.fail("mixed-integer setup refused " + M.P.shape()); return mi_solve(c, I, g); }
// an incumbent: integral, feasible, its slack and value consistent with it
inline std::string mi_point(const MiProb& M, const MiCfg& g, const MiOut& r) {
  const Prob& P = M.P; if (!finite_all(r.x) || !finite_all(r.s) || !finite_all(r.z) || !finite_all(r.y)) return "non-finite solution";
  if (!r.sync.empty()) return "ecos_prob does not hold the incumbent's " + r.sync;
  if (r.clean) { // multipliers stored with it are those of its own relaxation: stationary and as complementary as reported
    long off = 2 * (long)(M.bools.size() + M.ints.size()), k = 0; std::vector<long double> rs(P.n); long double nz = 0, sz = 0; for (long j = 0; j < P.n; j++) rs[j] = P.c[j]; dvec zz(r.z.begin() + off, r.z.end()); auto Gz = multv(P.G, zz), Ay = multv(P.A, r.y); for (long j = 0; j < P.n; j++) rs[j] += Gz[j] + Ay[j];
    for (auto* l : {&M.bools, &M.ints}) for (auto j : *l) { rs[j] += (long double)r.z[2 * k + 1] - r.z[2 * k]; k++; }
    for (double v : r.z) nz += fabs(v); for (double v : r.y) nz += fabs(v); for (double v : P.c) nz += fabs(v); long double sc = 0; for (size_t i = 0; i < r.z.size(); i++) { sz += (long double)r.z[i] * r.s[i]; sc += fabsl((long double)r.z[i] * r.s[i]); }
    for (long j = 0; j < P.n; j++) if (!(fabsl(rs[j]) <= 1e-6L * (1 + nz))) return fmt("stored multipliers are not those of the incumbent: stationarity %.3Lg in variable %ld (multipliers %.3Lg)", rs[j], j, nz);
    if (!(fabsl(sz * r.tau * r.tau - r.info.gap) <= 1e-9L * (1e-3L + r.tau * r.tau * sc))) return fmt("s'z of the stored vectors is %.9Lg, reported gap %.9g (tau %.3g)", sz, r.info.gap, r.tau); }
  double it = std::max(1.01 * g.itol, 1e-6); for (auto j : M.bools) { double v = r.x[j]; if (std::min(fabs(v), fabs(v - 1)) > it) return fmt("boolean variable %ld is %.9g", (long)j, v); }
  for (auto j : M.ints) if (fabs(r.x[j] - std::round(r.x[j])) > it + 1e-5) return fmt("integer variable %ld is %.9g", (long)j, r.x[j]);
  double ft = M.ints.empty() ? 1e-6 : 1e-4; auto Gx = mulv(P.G, r.x), Ax = mulv(P.A, r.x); dvec sl(P.m); double big = 1; for (double v : r.x) big = std::max(big, fabs(v)); for (long i = 0; i < P.m; i++) { sl[i] = (double)(P.h[i] - Gx[i]); big = std::max(big, fabs(P.h[i])); }
  for (long i = 0; i < P.p; i++) if (!(fabsl(Ax[i] - P.b[i]) <= ft * big)) return fmt("equality %ld violated by %.3Lg", i, Ax[i] - P.b[i]);
  Prob Q = P; double mg = INFINITY; { long k = 0; for (; k < P.l; k++) mg = std::min(mg, sl[k] / big); for (auto d : P.q) { double t = 0; for (long j = 1; j < d; j++) t += sl[k + j] * sl[k + j]; mg = std::min(mg, (sl[k] - sqrt(t)) / big); k += d; } for (long e = 0; e < P.nex; e++, k += 3) { double v = sl[k + 2] > 0 && sl[k + 1] > -ft ? (sl[k + 1] - sl[k + 2] * exp(sl[k] / sl[k + 2])) / big : -1.0, ep = ft * big, z = std::max(sl[k + 2], 0.0) + ep;
      if (v < -ft && sl[k + 2] >= -ep && sl[k + 1] + ep >= z * exp((sl[k] - ep) / z)) v = 0; /* within ft of the cone's closure (third component 0) */ mg = std::min(mg, v); } }
  if (!(mg >= -ft)) return fmt("constraints violated by %.3g", -mg);
  long off = 2 * (long)(M.bools.size() + M.ints.size()); for (long i = 0; i < P.m; i++) if (!(fabs(r.s[off + i] - sl[i]) <= (M.ints.empty() ? 10 * ft * big : 0.25 * big /* residuals are relative to the +-8388608 bounds of integer variables */))) return fmt("returned slack %ld is %.9g, h-Gx is %.9g", i, r.s[off + i], sl[i]);
  double v = (double)dot(P.c, r.x); double vs = 1; for (long j = 0; j < P.n; j++) vs += fabs(P.c[j] * r.x[j]); if (!(fabs(v - r.U) <= 1e-6 * vs)) return fmt("reported best value %.12g, c'x = %.12g", r.U, v); if (!(fabs(r.info.pcost - v) <= 1e-5 * vs)) return fmt("reported pcost %.12g, c'x = %.12g", r.info.pcost, v); return "";
}
inline double mi_gap(const MiCfg& g, const MiRef& f, const MiProb& M) { double o = fabs(f.opt); return std::max(g.abs, 1.05 * g.relg / (1 - g.relg) * (o + g.abs)) + (M.ints.empty() ? 1e-5 : 1e-4) * (1 + o) + f.slop; }
inline void label_cfg(Ctx& c, const MiCfg& g) { static const char* b[] = {"most infeasible", "strong", "pseudocost", "reliability", "random"}; static const char* n[] = {"breadth first", "dive lower", "dive upper"}; c.label(std::string("branching: ") + b[g.br]); c.label(std::string("selection: ") + n[g.ns]); }
inline void label_mi(Ctx& c, const MiProb& M, const MiOut& r) { c.label("booleans only", M.ints.empty()); c.label("integers only", M.bools.empty()); c.label("mixed list", !M.bools.empty() && !M.ints.empty()); c.label("second-order cone", !M.P.q.empty()); c.label("exponential cone", M.P.nex > 0); c.label("equality", M.P.p > 0); c.label(fmt("exit %d", r.code)); c.label("some relaxation not solved to full accuracy", !r.clean); c.label(r.it == 0 ? "tree: root only" : r.it < 4 ? "tree: 1-3 branchings" : r.it < 12 ? "tree: 4-11 branchings" : r.it < 50 ? "tree: 12-49 branchings" : r.it < 200 ? "tree: 50-199 branchings" : "tree: 200+ branchings"); }
// exact families: knapsack by dynamic programming, set covering by enumeration
inline MiProb gen_combi(Ctx& c, double& opt, bool& feas) {
  Src& s = c.s; MiProb M; Prob& P = M.P; long n = s.range(3, 12); P.n = n; std::vector<long> pm = s.perm(n); for (long i = 0; i < n; i++) M.bools.push_back(pm[i]); M.B = 1; P.c.assign(n, 0); std::vector<std::vector<double>> rows; feas = true; opt = INFINITY; int kind = (int)s.range(0, 2);
  if (kind == 0) { long tot = 0; std::vector<double> r(n); for (long j = 0; j < n; j++) { r[j] = (double)s.range(1, 12); tot += (long)r[j]; P.c[j] = -(double)s.range(1, 15); } rows.push_back(r); P.h.push_back(std::floor(tot * s.pos_in(.3, .8)) + .5); }
  else if (kind == 1) { long k = s.range(2, 6); for (long e = 0; e < k; e++) { std::vector<double> r(n, 0.0); for (long j = 0; j < n; j++) if (s.chance(40)) r[j] = -1; r[s.pick(n)] = -1; rows.push_back(r); P.h.push_back(-0.5); } for (auto& v : P.c) v = (double)s.range(1, 9); }
  else { std::vector<double> r(n), t(n); long tot = 0; for (long j = 0; j < n; j++) { r[j] = (double)s.range(1, 9); t[j] = -r[j]; tot += (long)r[j]; P.c[j] = (double)s.range(-5, 5); } long v = s.range(0, tot); rows.push_back(r); P.h.push_back(v + .5); rows.push_back(t); P.h.push_back(-v + .5); }
  P.l = P.m = (long)rows.size(); Dense G(P.m, n); for (long i = 0; i < P.m; i++) for (long j = 0; j < n; j++) if (rows[i][j] != 0) G.set(i, j, rows[i][j]); P.G = to_csc(G); P.A = to_csc(Dense(0, n)); P.hasA = false;
  for (long a = 0; a < (1L << n); a++) { bool ok = true; double v = 0; for (long i = 0; i < P.m && ok; i++) { double t = 0; for (long j = 0; j < n; j++) if (a >> j & 1) t += rows[i][j]; ok = t <= P.h[i]; } if (!ok) continue; for (long j = 0; j < n; j++) if (a >> j & 1) v += P.c[j]; opt = std::min(opt, v); }
  feas = std::isfinite(opt); return M;
}
// larger exact families, for trees with tens to hundreds of branchings: knapsack (also value = weight + constant) and pairs of rows that
// pin a sum by dynamic programming over the weight; independent blocks of small problems, whose optimum is the sum of the blocks' optima
inline MiProb gen_big(Ctx& c, double& opt, bool& feas, bool infeasible = false) {
  Src& s = c.s; MiProb M; Prob& P = M.P; M.B = 1; int kind = infeasible ? 2 : (int)s.range(0, 3); std::vector<std::vector<double>> rows; P.A = to_csc(Dense(0, 0)); P.hasA = false; feas = true; opt = 0;
  if (kind == 3) {   // blocks, variables interleaved
    long k = s.range(2, 4); std::vector<MiProb> bl; long n = 0; for (long i = 0; i < k; i++) { double o; bool f; bl.push_back(gen_combi(c, o, f)); n += bl.back().P.n; if (!f) feas = false; opt += o; }
    P.n = n; auto pm = s.perm(n); P.c.assign(n, 0); long off = 0; for (auto& b : bl) { Dense g = to_dense(b.P.G); for (long i = 0; i < b.P.m; i++) { std::vector<double> r(n, 0.0); for (long j = 0; j < b.P.n; j++) r[pm[off + j]] = g(i, j); rows.push_back(r); P.h.push_back(b.P.h[i]); } for (long j = 0; j < b.P.n; j++) { M.bools.push_back(pm[off + j]); P.c[pm[off + j]] = b.P.c[j]; } off += b.P.n; }
    c.label("large: independent blocks"); if (!feas) opt = INFINITY;
  } else {
    long n = s.range(12, infeasible ? 16 : kind == 2 ? 20 : 30); P.n = n; auto pm = s.perm(n); for (long i = 0; i < n; i++) M.bools.push_back(pm[i]); P.c.assign(n, 0); std::vector<long> w(n); long tot = 0, g = kind == 2 && (infeasible || s.chance(50)) ? s.range(2, 4) : 1; long add = s.range(1, 6);
    for (auto& v : w) { v = g * s.range(g > 1 ? 1 : 3, g > 1 ? 5 : 40); tot += v; } for (long j = 0; j < n; j++) P.c[j] = kind == 0 ? -(double)s.range(1, 40) : kind == 1 ? -(double)(w[j] + add) : (double)s.range(-5, 5);
    long cap = (long)std::floor(tot * s.pos_in(.2, .8)); if (kind == 2 && infeasible) { cap = std::max(g, cap / g * g) - s.range(1, g - 1); } std::vector<double> r(n), t(n); for (long j = 0; j < n; j++) { r[j] = (double)w[j]; t[j] = -r[j]; }
    rows.push_back(r); P.h.push_back(cap + .5); if (kind == 2) { rows.push_back(t); P.h.push_back(-cap + .5); }
    dvec best(cap + 1, INFINITY); best[0] = 0; for (long j = 0; j < n; j++) for (long v = cap; v >= w[j]; v--) best[v] = std::min(best[v], best[v - w[j]] + P.c[j]);
    if (kind == 2) opt = best[cap]; else { opt = INFINITY; for (double v : best) opt = std::min(opt, v); } feas = std::isfinite(opt); c.label(kind == 0 ? "large: knapsack" : kind == 1 ? "large: correlated knapsack" : "large: pinned sum"); }
  P.l = P.m = (long)rows.size(); Dense G(P.m, P.n); for (long i = 0; i < P.m; i++) for (long j = 0; j < P.n; j++) if (rows[i][j] != 0) G.set(i, j, rows[i][j]); P.G = to_csc(G); P.A = to_csc(Dense(0, P.n)); return M;
}
