// C22: the mixed-integer answer does not depend on search strategy, random numbers or presentation.
#include "mi.hpp"
static MiProb remap(const MiProb& M, const std::vector<long>& pv, const std::vector<long>& pr, bool& ok) {   // variables and LP rows permuted
  MiProb N = M; Dense G = to_dense(M.P.G), A = to_dense(M.P.A), H(M.P.m, M.P.n), B(M.P.p, M.P.n); for (long j = 0; j < M.P.n; j++) { for (long i = 0; i < M.P.m; i++) if (G.p(i, j)) H.set(i < M.P.l ? pr[i] : i, pv[j], G(i, j)); for (long i = 0; i < M.P.p; i++) if (A.p(i, j)) B.set(i, pv[j], A(i, j)); N.P.c[pv[j]] = M.P.c[j]; }
  for (long i = 0; i < M.P.l; i++) N.P.h[pr[i]] = M.P.h[i]; N.P.G = to_csc(H); N.P.A = to_csc(B); for (auto& b : N.bools) b = pv[b]; for (auto& b : N.ints) b = pv[b]; ok = true; return N;
}
eng::Prop make_prop() {
  Prop p; p.id = "C22"; p.quick = 105000; p.thorough = 800000; p.min_nontrivial_pct = 25;
  p.rule = "One mixed-integer program (up to 10 booleans, 3 integers, 3 continuous variables, cones, equalities) is solved under two settings (branching rule, node selection, pseudocost reliability, rand() seed) or in two presentations: variables, rows and index lists permuted, booleans declared as integers with explicit 0/1 rows, a boolean complemented, an integer shifted, objective scaled. Exit code and optimal value (mapped) must agree within the gap tolerances. Also: without integer variables the answer is that of ECOS_solve. Non-trivial: both runs branch, or the presentation changed and one branches.";
  p.run = [](Ctx& c) {
    Src& s = c.s; MiCfg g = gen_cfg(c, false); g.abs = 1e-6; g.relg = s.chance(70) ? 1e-6 : 1e-3; MiProb M; bool combi = s.chance(25);
    if (combi) { bool f; double o; M = s.chance(6) ? gen_big(c, o, f) : gen_combi(c, o, f); } else { MiOpt o; o.exp = s.chance(20); o.maxbool = s.chance(30) ? 10 : 6; o.maxint = s.chance(35) ? 3 : 0; o.maxcont = 3; M = gen_mi(c, o); }
    MiCfg h = g; MiProb N = M; double mul = 1, add = 0; int how = s.weighted({4, 3, 2, 2, 2, 1, 1}); std::string what; bool same_cfg = true;
    switch (how) {
      case 0: { h.br = (int)s.range(0, 4); h.ns = (int)s.range(0, 2); h.eta = s.range(0, 8); h.seed = (unsigned)s.range(0, 1000); what = "other search settings"; same_cfg = false; break; }
      case 1: { bool ok; N = remap(M, s.perm(M.P.n), s.perm(M.P.l), ok); auto sh = [&](ivec& v) { auto q = s.perm((long)v.size()); ivec t(v.size()); for (size_t i = 0; i < v.size(); i++) t[q[i]] = v[i]; v = t; }; sh(N.bools); sh(N.ints); what = "permuted presentation"; break; }
      case 2: { if (M.bools.empty()) throw Discard(); N.ints.insert(N.ints.end(), N.bools.begin(), N.bools.end()); N.bools.clear(); Dense G = to_dense(M.P.G); long k = (long)M.bools.size(), m = M.P.m; Dense H(m + 2 * k, M.P.n); dvec hh; for (long i = 0; i < k; i++) { H.set(2 * i, M.bools[i], -1); H.set(2 * i + 1, M.bools[i], 1); hh.push_back(0); hh.push_back(1); } for (long j = 0; j < M.P.n; j++) for (long i = 0; i < m; i++) if (G.p(i, j)) H.set(2 * k + i, j, G(i, j)); hh.insert(hh.end(), M.P.h.begin(), M.P.h.end()); N.P.G = to_csc(H); N.P.h = hh; N.P.m += 2 * k; N.P.l += 2 * k; what = "booleans declared as integers in [0,1]"; break; }
      case 3: { if (M.bools.empty()) throw Discard(); auto idx = M.bools[s.pick(M.bools.size())]; Dense G = to_dense(M.P.G), A = to_dense(M.P.A); for (long i = 0; i < M.P.m; i++) { N.P.h[i] -= G(i, idx); G(i, idx) = -G(i, idx); } for (long i = 0; i < M.P.p; i++) { N.P.b[i] -= A(i, idx); A(i, idx) = -A(i, idx); } N.P.G = to_csc(G); N.P.A = to_csc(A); add = M.P.c[idx]; N.P.c[idx] = -M.P.c[idx]; what = "a boolean complemented"; break; }
      case 4: { if (M.ints.empty()) throw Discard(); auto idx = M.ints[s.pick(M.ints.size())]; double k = (double)s.range(1, 5) * (s.chance(50) ? 1 : -1); Dense G = to_dense(M.P.G), A = to_dense(M.P.A); for (long i = 0; i < M.P.m; i++) N.P.h[i] -= k * G(i, idx); for (long i = 0; i < M.P.p; i++) N.P.b[i] -= k * A(i, idx); add = k * M.P.c[idx]; what = "an integer shifted"; break; }
      case 5: { mul = s.pos_in(.25, 4); for (auto& v : N.P.c) v *= mul; what = "objective scaled"; break; }
      default: M.bools.clear(); M.ints.clear(); what = "no integer variables"; break;
    }
    if (how == 6) { MiOut r = mi_run(c, M, g); Sol q = solve_once(c, M.P); label_mi(c, M, r); if (c.want_note) print_mi(c.note, M); double v = (double)dot(M.P.c, q.x);
      if (q.code == 0 ? !(r.code == 0 && fabs(r.U - v) <= 1e-7 * (1 + fabs(v))) : q.code == 1 ? r.code != 1 : false) c.fail(fmt("without integer variables ECOS_BB gives exit %d value %.12g, ECOS_solve exit %d value %.12g ", r.code, r.U, q.code, v) + M.P.shape()); c.label("no integer variables"); return; }
    MiOut a = mi_run(c, M, g), b = mi_run(c, N, h); label_cfg(c, g); label_mi(c, M, a); c.label(what);
    if (c.want_note) { print_mi(c.note, M); c.note << "  " << what << " " << cfg_str(g) << fmt(" -> exit %d value %.12g branchings %ld; ", a.code, a.U, a.it) << cfg_str(h) << fmt(" -> exit %d value %.12g branchings %ld\n", b.code, b.U, b.it); }
    auto weak = [](const MiProb& Q, const MiOut& r) { if (r.clean) return false; if (Q.ints.empty() && !Q.P.nex) return false; for (int k : r.codes) if (k < 0) return true; return Q.P.nex > 0; };
    if (weak(M, a) || weak(N, b)) { c.label("not judged: a relaxation was not solved"); return; } if (a.code >= 10 || b.code >= 10) { c.label("not judged: node budget ran out"); return; }
    std::string why = " (" + what + fmt(": exit %d value %.12g, exit %d value %.12g mapped %.12g) ", a.code, a.U, b.code, b.U, b.U / mul + add) + cfg_str(g) + " " + cfg_str(h) + " " + M.P.shape();
    if (a.code != b.code) c.fail("exit codes differ" + why); if (a.code != 0 && a.code != 1) c.fail("undocumented exit" + why);
    if (a.code == 0) { std::string e = mi_point(M, g, a); if (e.empty()) e = mi_point(N, h, b); if (!e.empty()) c.fail(e + why); double cs = 0; for (auto v : M.P.c) cs += fabs(v); double o = std::max(fabs(a.U), fabs(b.U / mul)) + (add ? fabs(add) : 0), tol = g.abs * std::max(1.0, 1 / mul) + 1.1 * g.relg * o + cs * g.itol * 2.02 + (N.ints.empty() && M.ints.empty() ? 2e-6 : a.clean && b.clean ? 1e-4 : 1e-2) * (1 + o);
      if (!(fabs(a.U - (b.U / mul + add)) <= tol)) c.fail("optimal values differ" + why); }
    if ((a.it > 0 && b.it > 0) || (same_cfg && (a.it > 0 || b.it > 0))) c.nontrivial(M.P.hash() ^ (uint64_t)how);
  };
  return p;
}
