// Builds of the library with other options, loaded as shared objects (check passes their paths in ECOS_SO_*).
#pragma once
#include "mi.hpp"
#include <dlfcn.h>
typedef long (*solve_fn)(long, long, long, long, long, const long*, long, double*, const long*, const long*, double*, const long*, const long*, double*, double*, double*, const double*, const long*, double*, double*, double*, double*, double*, double*, double*, double*, double*, double*);
typedef long (*bb_fn)(long, long, long, long, long, const long*, long, double*, const long*, const long*, double*, const long*, const long*, double*, double*, double*, long, const long*, long, const long*, const long*, double*, double*);
struct Lib { std::string name; bool same; solve_fn solve; bb_fn bb; };
static const std::vector<Lib>& libs(const std::vector<std::pair<std::string, bool>>& names) {
  static std::vector<Lib> L; static bool done = false; if (done) return L; done = true;
  for (auto& k : names) {
    const char* f = getenv(("ECOS_SO_" + k.first).c_str()); if (!f) continue; void* h = dlopen(f, RTLD_NOW | RTLD_LOCAL); if (!h) throw Fail("cannot load configuration " + k.first + ": " + dlerror());
    Lib l; l.name = k.first; l.same = k.second; l.solve = (solve_fn)dlsym(h, "shim_solve"); l.bb = (bb_fn)dlsym(h, "shim_bb"); L.push_back(l); }
  return L;
}
struct Out { long code = -99; dvec x, y, s, z; double info[16] = {0}; Sol sol() const { Sol r; r.code = (int)code; r.x = x; r.y = y; r.s = s; r.z = z; return r; } };
static std::vector<long> lv(const ivec& v) { std::vector<long> r(v.begin(), v.end()); if (r.empty()) r.reserve(1); return r; }
static Out call(const Lib& L, Prob P, const Prob* up, const double* num, const long* cnt) {
  Out o; o.x.assign(P.n + 1, 0); o.y.assign(P.p + 1, 0); o.s.assign(P.m + 1, 0); o.z.assign(P.m + 1, 0); auto q = lv(P.q), gj = lv(P.G.jc), gi = lv(P.G.ir), aj = lv(P.A.jc), ai = lv(P.A.ir); bool a = P.p > 0 || P.hasA; static double dz[1]; static long iz[1]; Prob U; if (up) U = *up; auto dp = [](dvec& v) { return v.empty() ? dz : v.data(); }; auto ip = [](std::vector<long>& v) { return v.empty() ? iz : v.data(); };
  o.code = L.solve(P.n, P.m, P.p, P.l, (long)q.size(), q.empty() ? nullptr : q.data(), P.nex, dp(P.G.pr), ip(gj), ip(gi), a ? dp(P.A.pr) : nullptr, a ? ip(aj) : nullptr, a ? ip(ai) : nullptr, P.c.data(), dp(P.h), P.p ? P.b.data() : nullptr, num, cnt,
    up ? dp(U.G.pr) : nullptr, up && a ? dp(U.A.pr) : nullptr, up ? U.c.data() : nullptr, up ? dp(U.h) : nullptr, up && P.p ? U.b.data() : nullptr, o.x.data(), o.y.data(), o.s.data(), o.z.data(), o.info);
  o.x.resize(P.n); o.y.resize(P.p); o.s.resize(P.m); o.z.resize(P.m); return o;
}
static bool nbits(const dvec& a, const dvec& b) { for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return a.size() == b.size(); }
static bool biti(const double* a, const double* b, int n) { return nbits(dvec(a, a + n), dvec(b, b + n)); }
struct OutBB { long code = -99; dvec x; double info[4] = {0, 0, 0, 0}; };
// num: maxit, branching strategy, node selection, reliability
static OutBB call_bb(const Lib& L, const MiProb& M, const long* cnt) {
  Prob P = M.P; OutBB o; auto q = lv(P.q), gj = lv(P.G.jc), gi = lv(P.G.ir), aj = lv(P.A.jc), ai = lv(P.A.ir), bi = lv(M.bools), ii = lv(M.ints); bool a = P.p > 0 || P.hasA; o.x.assign(P.n, 0.0); static double dz[1]; static long iz[1]; auto dp = [](dvec& v) { return v.empty() ? dz : v.data(); }; auto ip = [](std::vector<long>& v) { return v.empty() ? iz : v.data(); };
  o.code = L.bb(P.n, P.m, P.p, P.l, (long)q.size(), q.empty() ? nullptr : q.data(), P.nex, dp(P.G.pr), ip(gj), ip(gi), a ? dp(P.A.pr) : nullptr, a ? ip(aj) : nullptr, a ? ip(ai) : nullptr, P.c.data(), dp(P.h), P.p ? P.b.data() : nullptr, (long)bi.size(), bi.empty() ? nullptr : bi.data(), (long)ii.size(), ii.empty() ? nullptr : ii.data(), cnt, o.x.data(), o.info); return o;
}
static bool same_bb(const OutBB& a, const OutBB& b) { bool f = std::isfinite(a.info[2]) && a.info[2] < 1e19; return a.code == b.code && (!f || nbits(a.x, b.x)) && biti(a.info + 1, b.info + 1, f ? 3 : 2) && (!std::isfinite(a.info[2]) || a.info[0] == b.info[0]); }
