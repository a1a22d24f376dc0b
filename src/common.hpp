// Problem model, ECOS wrapper, oracles (written from the documented conic program):
//   min c'x  s.t.  A x = b,  G x + s = h,  s in K
//   max -h'z - b'y  s.t.  G'z + A'y + c = 0,  z in K*
// K = R+^l x SOC(q_1) x ... x Kexp^nex,   Kexp = cl{(x,y,z): z exp(x/z) <= y, z > 0}
#pragma once
#include "engine.hpp"
#include <memory>
extern "C" {
#include "ecos.h"
}
#undef MAX
#undef MIN

typedef long double ld;
using eng::Ctx; using eng::Src; using eng::fmt; using eng::Hash; using eng::Prop; using eng::Discard; using eng::Fail;
typedef std::vector<double> dvec;
typedef std::vector<idxint> ivec;

struct Csc {
  long m = 0, n = 0; ivec jc, ir; dvec pr;
  long nnz() const { return (long)ir.size(); }
};
struct Dense {           // column major
  long m = 0, n = 0; dvec v; std::vector<char> pat;   // pat: structurally present
  Dense() {}
  Dense(long m_, long n_) : m(m_), n(n_), v(m_ * n_, 0.0), pat(m_ * n_, 0) {}
  double& operator()(long i, long j) { return v[j * m + i]; }
  double operator()(long i, long j) const { return v[j * m + i]; }
  char& p(long i, long j) { return pat[j * m + i]; }
  char p(long i, long j) const { return pat[j * m + i]; }
  void set(long i, long j, double x) { (*this)(i, j) = x; p(i, j) = 1; }
};
inline Csc to_csc(const Dense& d) {
  Csc c; c.m = d.m; c.n = d.n; c.jc.push_back(0);
  for (long j = 0; j < d.n; j++) { for (long i = 0; i < d.m; i++) if (d.p(i, j)) { c.ir.push_back(i); c.pr.push_back(d(i, j)); } c.jc.push_back((idxint)c.ir.size()); }
  return c;
}
inline Dense to_dense(const Csc& c) {
  Dense d(c.m, c.n);
  for (long j = 0; j < c.n; j++) for (long k = c.jc[j]; k < c.jc[j + 1]; k++) d.set(c.ir[k], j, d(c.ir[k], j) + c.pr[k]);
  return d;
}

struct Prob {
  long n = 0, m = 0, p = 0, l = 0, nex = 0; ivec q;
  Csc G, A; dvec c, h, b;
  bool hasA = true;            // pass A arrays (possibly with 0 rows) instead of NULL
  long soc_total() const { long t = 0; for (auto x : q) t += x; return t; }
  long degree() const { return l + (long)q.size() + 3 * nex; }
  std::string shape() const { std::string s = fmt("n=%ld m=%ld p=%ld l=%ld q=[", n, m, p, l); for (size_t i = 0; i < q.size(); i++) s += fmt(i ? ",%ld" : "%ld", (long)q[i]); return s + fmt("] nex=%ld", nex); }
  uint64_t hash() const {
    Hash H; H.add(n); H.add(m); H.add(p); H.add(l); H.add(nex); for (auto x : q) H.add(x);
    for (auto x : G.ir) H.add(x); for (auto x : G.jc) H.add(x); for (auto x : G.pr) H.addd(x);
    for (auto x : A.ir) H.add(x); for (auto x : A.pr) H.addd(x); for (auto x : c) H.addd(x); for (auto x : h) H.addd(x); for (auto x : b) H.addd(x);
    return H.h;
  }
  void print(std::ostream& o) const {
    o << shape() << "\n";
    auto pv = [&](const char* nm, const dvec& v) { o << "  " << nm << "=["; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i]; o << "]\n"; };
    auto pm = [&](const char* nm, const Csc& M) { o << "  " << nm << " (row,col,val):"; for (long j = 0; j < M.n; j++) for (long k = M.jc[j]; k < M.jc[j + 1]; k++) o << " (" << M.ir[k] << "," << j << "," << M.pr[k] << ")"; o << "\n"; };
    pm("G", G); if (p) pm("A", A); pv("c", c); pv("h", h); if (p) pv("b", b);
  }
};

struct Sol {
  int code = -999; dvec x, y, s, z; stats info; double tau = 0, kap = 0;
};

// Owns the arrays handed to the library.
struct Inst {
  Prob P;                        // pristine copy
  Csc G, A; dvec c, h, b; ivec q;
  pwork* w = nullptr;
  explicit Inst(const Prob& p_) : P(p_), G(p_.G), A(p_.A), c(p_.c), h(p_.h), b(p_.b), q(p_.q) {}
  Inst(const Inst&) = delete;
  bool setup(bool quiet = true) {
    bool a = P.p > 0 || P.hasA;
    bool g = P.m > 0;
    // vectors with no element have a null data(): use a dummy for present-but-empty arrays
    static double dz[1]; static idxint iz[1];
    auto dp = [&](dvec& v) { return v.empty() ? dz : v.data(); };
    auto ip = [&](ivec& v) { return v.empty() ? iz : v.data(); };
    w = ECOS_setup(P.n, P.m, P.p, P.l, (idxint)q.size(), q.empty() ? NULL : q.data(), P.nex,
                   g ? dp(G.pr) : NULL, g ? ip(G.jc) : NULL, g ? ip(G.ir) : NULL,
                   a ? dp(A.pr) : NULL, a ? ip(A.jc) : NULL, a ? ip(A.ir) : NULL,
                   c.data(), P.m ? h.data() : NULL, P.p ? b.data() : NULL);
    if (w && quiet) w->stgs->verbose = 0;
    return w != nullptr;
  }
  Sol grab(int code) {
    Sol r; r.code = code; r.x.assign(w->x, w->x + P.n); r.y.assign(w->y, w->y + P.p);
    r.s.assign(w->s, w->s + P.m); r.z.assign(w->z, w->z + P.m); r.info = *w->info; r.tau = w->tau; r.kap = w->kap; return r;
  }
  Sol solve() { int code = (int)ECOS_solve(w); return grab(code); }
  void cleanup() { if (w) ECOS_cleanup(w, 0); w = nullptr; }
  ~Inst() { if (w) ECOS_cleanup(w, 0); }
};

inline Sol solve_once(Ctx& c, const Prob& P) {
  Inst I(P); if (!I.setup()) c.fail("setup refused a consistent problem: " + P.shape());
  c.subevals++; return I.solve();
}

// ---------- linear algebra on the original data ----------
inline std::vector<ld> mulv(const Csc& M, const dvec& x) { std::vector<ld> y(M.m, 0); for (long j = 0; j < M.n; j++) for (long k = M.jc[j]; k < M.jc[j + 1]; k++) y[M.ir[k]] += (ld)M.pr[k] * x[j]; return y; }
inline std::vector<ld> multv(const Csc& M, const dvec& x) { std::vector<ld> y(M.n, 0); for (long j = 0; j < M.n; j++) for (long k = M.jc[j]; k < M.jc[j + 1]; k++) y[j] += (ld)M.pr[k] * x[M.ir[k]]; return y; }
// magnitudes sum |M||x|: natural error scale of each residual row
inline std::vector<ld> amulv(const Csc& M, const dvec& x) { std::vector<ld> y(M.m, 0); for (long j = 0; j < M.n; j++) for (long k = M.jc[j]; k < M.jc[j + 1]; k++) y[M.ir[k]] += fabsl((ld)M.pr[k] * x[j]); return y; }
inline std::vector<ld> amultv(const Csc& M, const dvec& x) { std::vector<ld> y(M.n, 0); for (long j = 0; j < M.n; j++) for (long k = M.jc[j]; k < M.jc[j + 1]; k++) y[j] += fabsl((ld)M.pr[k] * x[M.ir[k]]); return y; }
inline ld dot(const dvec& a, const dvec& b) { ld s = 0; for (size_t i = 0; i < a.size(); i++) s += (ld)a[i] * b[i]; return s; }
inline ld adot(const dvec& a, const dvec& b) { ld s = 0; for (size_t i = 0; i < a.size(); i++) s += fabsl((ld)a[i] * b[i]); return s; }
inline ld nrm(const dvec& a) { ld s = 0; for (double x : a) s += (ld)x * x; return sqrtl(s); }
inline ld nrm(const std::vector<ld>& a) { ld s = 0; for (ld x : a) s += x * x; return sqrtl(s); }
inline bool finite_all(const dvec& v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }

// Signed membership margin (>=0 inside); a violation is measured relative to max(size of the block, ref).
inline double exp_primal_margin(double x, double y, double z, double ref = 1) {
  double sc = std::max({fabs(x), fabs(y), fabs(z), ref, 1e-300});
  if (!(z > 0)) { if (z == 0 && x <= 0 && y >= 0) return 0; return std::min({z, y, -1e-300}) / sc; }   // only the boundary piece x<=0, y>=0, z=0
  if (!(y > 0)) return std::min(y, -1e-300) / sc;
  return (double)(((ld)z * logl((ld)y / z) - x) / sc);     // z log(y/z) - x >= 0
}
inline double exp_dual_margin(double u, double v, double w, double ref = 1) {
  double sc = std::max({fabs(u), fabs(v), fabs(w), ref, 1e-300});
  if (!(u < 0)) { if (u == 0 && v >= 0 && w >= 0) return 0; return -std::max(u, 1e-300) / sc; }
  if (!(v > 0)) return std::min(v, -1e-300) / sc;
  return (double)((-(ld)u - (ld)u * logl(-(ld)v / u) + w) / sc);
}
inline double cone_margin(const Prob& P, const dvec& s, bool dual, double ref = 1) {
  double mn = INFINITY; long k = 0; if (!(ref > 0)) ref = 1e-300;
  auto upd = [&](double v) { if (!(v >= mn)) mn = v; };
  for (; k < P.l; k++) upd(s[k] / ref);
  for (auto d : P.q) { ld t = 0; for (long j = 1; j < d; j++) t += (ld)s[k + j] * s[k + j]; t = sqrtl(t); upd((double)((s[k] - t) / std::max<ld>({fabsl(s[k]), t, ref}))); k += d; }
  for (long e = 0; e < P.nex; e++) { upd(dual ? exp_dual_margin(s[k], s[k + 1], s[k + 2], ref) : exp_primal_margin(s[k], s[k + 1], s[k + 2], ref)); k += 3; }
  return mn;
}
// interior test with an absolute margin per block
inline bool finite_sol(const Sol& r) { return finite_all(r.x) && finite_all(r.y) && finite_all(r.s) && finite_all(r.z); }

struct Kkt { ld pres, dres, gap, pobj, dobj, smargin, zmargin; };   // relative quantities
// Residuals relative to the size of what was computed, everything from the caller's original data.
inline Kkt kkt_eval(const Prob& P, const Sol& r) {
  Kkt k; ld pr = 0, dr = 0;
  auto Gx = mulv(P.G, r.x); auto Ax = mulv(P.A, r.x);
  std::vector<ld> e1(P.m), e2(P.p);
  for (long i = 0; i < P.m; i++) e1[i] = Gx[i] + r.s[i] - P.h[i];
  for (long i = 0; i < P.p; i++) e2[i] = Ax[i] - P.b[i];
  ld sc = 1 + nrm(P.h) + nrm(P.b) + nrm(r.x) + nrm(r.s);
  pr = sqrtl(nrm(e1) * nrm(e1) + nrm(e2) * nrm(e2)) / sc;
  auto a = multv(P.G, r.z), b = multv(P.A, r.y); std::vector<ld> e3(P.n);
  for (long j = 0; j < P.n; j++) e3[j] = a[j] + b[j] + P.c[j];
  dr = nrm(e3) / (1 + nrm(P.c) + nrm(r.y) + nrm(r.z));
  k.pres = pr; k.dres = dr; k.pobj = dot(P.c, r.x); k.dobj = -dot(P.h, r.z) - dot(P.b, r.y);
  ld szs = 1 + std::min(fabsl(k.pobj), fabsl(k.dobj));
  k.gap = fabsl(k.pobj - k.dobj) / szs;
  ld sz = fabsl(dot(r.s, r.z)) / szs; if (sz > k.gap) k.gap = sz;
  k.smargin = cone_margin(P, r.s, false); k.zmargin = cone_margin(P, r.z, true);
  return k;
}
inline std::string kkt_str(const Kkt& k) { return fmt("pres=%.3Lg dres=%.3Lg gap=%.3Lg pobj=%.17Lg dobj=%.17Lg smargin=%.3Lg zmargin=%.3Lg", k.pres, k.dres, k.gap, k.pobj, k.dobj, k.smargin, k.zmargin); }

// Returns empty string when the point is a certified (near-)optimal primal-dual pair.
inline std::string certify_optimal(const Prob& P, const Sol& r, double ftol, double gtol, double ctol = 1e-9) {
  if (!finite_sol(r)) return "optimal exit with non-finite solution";
  Kkt k = kkt_eval(P, r);
  if (!(k.smargin >= -ctol)) return "slack s is not in the cone: " + kkt_str(k);
  if (!(k.zmargin >= -ctol)) return "multiplier z is not in the dual cone: " + kkt_str(k);
  if (!(k.pres <= ftol)) return "primal residual too large: " + kkt_str(k);
  if (!(k.dres <= ftol)) return "dual residual too large: " + kkt_str(k);
  if (!(k.gap <= gtol)) return "duality gap too large: " + kkt_str(k);
  return "";
}
// Farkas certificate: z in K*, G'z + A'y ~ 0, h'z + b'y < 0
inline std::string certify_pinf(const Prob& P, const Sol& r, double tol, double ctol = 1e-9, double* ratio_out = nullptr) {
  if (!finite_all(r.y) || !finite_all(r.z)) return "infeasibility exit with non-finite certificate";
  ld v = dot(P.h, r.z) + dot(P.b, r.y);
  double zm = cone_margin(P, r.z, true, (double)fabsl(v));
  if (!(zm >= -ctol)) return fmt("certificate z is not in the dual cone (margin %.3g)", zm);
  if (!(v < 0)) return fmt("certificate has h'z+b'y = %.3Lg, not negative", v);
  auto a = multv(P.G, r.z), b = multv(P.A, r.y); std::vector<ld> e(P.n); for (long j = 0; j < P.n; j++) e[j] = a[j] + b[j];
  ld ratio = nrm(e) / (-v); if (ratio_out) *ratio_out = (double)ratio;
  if (!(ratio <= tol)) return fmt("certificate residual |G'z+A'y|/-(h'z+b'y) = %.3Lg too large", ratio);
  return "";
}
// Unboundedness certificate: c'x < 0, A x ~ 0, G x + s ~ 0, s in K
inline std::string certify_dinf(const Prob& P, const Sol& r, double tol, double ctol = 1e-9, double* ratio_out = nullptr) {
  if (!finite_all(r.x) || !finite_all(r.s)) return "unboundedness exit with non-finite certificate";
  ld v = dot(P.c, r.x);
  double sm = cone_margin(P, r.s, false, (double)fabsl(v));
  if (!(sm >= -ctol)) return fmt("ray slack s is not in the cone (margin %.3g)", sm);
  if (!(v < 0)) return fmt("ray has c'x = %.3Lg, not negative", v);
  auto Gx = mulv(P.G, r.x), Ax = mulv(P.A, r.x); std::vector<ld> e(P.m + P.p);
  for (long i = 0; i < P.m; i++) e[i] = Gx[i] + r.s[i]; for (long i = 0; i < P.p; i++) e[P.m + i] = Ax[i];
  ld ratio = nrm(e) / (-v); if (ratio_out) *ratio_out = (double)ratio;
  if (!(ratio <= tol)) return fmt("ray residual |(Gx+s,Ax)|/-(c'x) = %.3Lg too large", ratio);
  return "";
}

// Smallest singular value by one-sided Jacobi on columns (n <= ~40)
inline double smin(std::vector<std::vector<double>> cols) {
  size_t n = cols.size(); if (n == 0) return INFINITY;
  if (cols[0].size() < n) return 0;
  for (int sweep = 0; sweep < 12; sweep++) {
    bool rot = false;
    for (size_t p = 0; p < n; p++) for (size_t q = p + 1; q < n; q++) {
      double a = 0, b = 0, g = 0; for (size_t i = 0; i < cols[p].size(); i++) { a += cols[p][i] * cols[p][i]; b += cols[q][i] * cols[q][i]; g += cols[p][i] * cols[q][i]; }
      if (fabs(g) <= 1e-12 * sqrt(a * b)) continue; rot = true;
      double ze = (b - a) / (2 * g), t = (ze >= 0 ? 1 : -1) / (fabs(ze) + sqrt(1 + ze * ze)), c = 1 / sqrt(1 + t * t), s = c * t;
      for (size_t i = 0; i < cols[p].size(); i++) { double u = cols[p][i], v = cols[q][i]; cols[p][i] = c * u - s * v; cols[q][i] = s * u + c * v; }
    }
    if (!rot) break;
  }
  double mn = INFINITY; for (auto& c : cols) { double a = 0; for (double x : c) a += x * x; mn = std::min(mn, sqrt(a)); } return mn;
}

// decade histogram of a measured quantity, for the evidence file
inline void hist(Ctx& c, const std::string& what, ld v) {
  if (v <= 1e-8L) { c.label(what + " <=1e-8"); return; }
  c.label(what + fmt(" <=1e%d", (int)ceill(log10l(v))));
}
inline std::string code_name(int k) {
  switch (k) { case 0: return "0 optimal"; case 1: return "1 primal infeasible"; case 2: return "2 unbounded"; case 10: return "10 close to optimal"; case 11: return "11 close to primal infeasible"; case 12: return "12 close to unbounded";
    case -1: return "-1 iteration limit"; case -2: return "-2 numerics"; case -3: return "-3 outside cone"; case -4: return "-4 interrupted"; case -7: return "-7 fatal"; }
  return fmt("%d undocumented", k);
}
inline void show(Ctx& c, const Prob& P, const Sol& r) {
  if (!c.want_note) return; P.print(c.note); c.note << "  -> exit " << code_name(r.code) << " iter=" << r.info.iter << " pcost=" << r.info.pcost << " dcost=" << r.info.dcost << "\n";
}
