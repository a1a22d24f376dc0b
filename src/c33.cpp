// C33: what is printed is what is returned; silence is silence; reported times are elapsed times.
#include "mi.hpp"
#include "logx.hpp"
static std::string capture(const std::function<void()>& f) { char* b = nullptr; size_t n = 0; fflush(stdout); FILE* old = stdout; FILE* m = open_memstream(&b, &n); stdout = m; try { f(); } catch (...) { stdout = old; fclose(m); free(b); throw; } stdout = old; fclose(m); std::string r(b, n); free(b); return r; }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::string cur; for (char ch : t) { if (ch == 8) { continue; } if (ch == '\n') { v.push_back(cur); cur.clear(); } else cur += ch; } if (cur != "") v.push_back(cur); return v; }
// "12  +1.234e+00  ..." -> iteration number
static bool progress(const std::string& l, long& it) { char* e; it = strtol(l.c_str(), &e, 10); if (e == l.c_str() || e[0] != ' ' || e[1] != ' ') return false; while (*e == ' ') e++; return *e == '+' || *e == '-' || *e == 'n' || *e == 'i'; }
static std::vector<std::string> words(const std::string& l) { std::istringstream i(l); std::vector<std::string> v; std::string w; while (i >> w) v.push_back(w); return v; }
static bool sames(const Sol& a, const Sol& b) { auto eq = [](const dvec& x, const dvec& y) { for (size_t i = 0; i < x.size(); i++) if (!(x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])))) return false; return x.size() == y.size(); }; auto e1 = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }; return a.code == b.code && eq(a.x, b.x) && eq(a.y, b.y) && eq(a.s, b.s) && eq(a.z, b.z) && a.info.iter == b.info.iter && e1(a.info.pcost, b.info.pcost) && e1(a.info.dcost, b.info.dcost) && e1(a.info.gap, b.info.gap) && e1(a.info.pres, b.info.pres) && e1(a.info.dres, b.info.dres); }
eng::Prop make_prop() {
  Prop p; p.id = "C33"; p.quick = 450000; p.thorough = 3000000; p.min_nontrivial_pct = 30;
  p.rule = "Any conic program under drawn tolerances and iteration limits, solved with and without verbose, and mixed-integer programs likewise; the standard output of each run is captured. Without verbose setup, solve and cleanup print nothing. With it the result is bit for bit the same, iterations are printed once each from 0 in order, a run limited to k iterations prints the same lines as the longer run, the costs printed for the last iteration, or for the one announced as recovered, are the returned ones, the closing message names exactly the exit code returned and quotes the returned statistics, the run time printed is setup plus solve time. Times are checked with an interposed clock whose readings are drawn. Non-trivial: at least one iteration printed.";
  p.run = [](Ctx& c) {
    Src& s = c.s;
    if (s.chance(20)) { MiOpt o; o.exp = s.chance(10); o.maxint = s.chance(30) ? 2 : 0; MiProb M = gen_mi(c, o); MiCfg g = gen_cfg(c); if (s.chance(30)) g.maxit = s.range(1, 12); if (c.want_note) { print_mi(c.note, M); c.note << cfg_str(g) << "\n"; } MiOut r0, r1; std::string sh = " " + M.P.shape();
      std::string t0 = capture([&] { MiInst I(M); put(I, g); I.st.verbose = 0; if (!I.setup()) c.fail("setup refused" + sh); r0 = mi_solve(c, I, g); I.cleanup(); }); if (t0 != "") c.fail("a quiet mixed-integer solve prints \"" + t0.substr(0, 80) + "\"" + sh);
      std::string t1 = capture([&] { MiInst I(M); put(I, g); I.st.verbose = 1; if (!I.setup()) c.fail("setup refused" + sh); r1 = mi_solve(c, I, g); I.cleanup(); }); auto e1 = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }; if (r0.code != r1.code || r0.x != r1.x || !e1(r0.U, r1.U) || !e1(r0.L, r1.L) || r0.it != r1.it) c.fail("printing changes the mixed-integer result" + sh);
      long k = 0; double pl = -INFINITY, pu = INFINITY; std::string last; for (auto& l : lines(t1)) { auto w = words(l); if (w.size() != 4) continue; char* e; long it = strtol(w[0].c_str(), &e, 10); if (*e) continue; if (it != k) c.fail(fmt("node %ld printed where %ld is expected", it, k) + sh); k++; double L = atof(w[1].c_str()), U = atof(w[2].c_str()); if (U > pu + 1e-9) c.fail(fmt("printed upper bound rises from %.2f to %.2f", pu, U) + sh); pu = U; (void)pl; (void)L; last = l; }
      if (k != r1.it + 1) c.fail(fmt("%ld nodes printed, %ld branchings made", k, r1.it) + sh); auto w = words(last); if (w[1] != fmt("%.2f", r1.L) || w[2] != fmt("%.2f", r1.U)) c.fail("last bounds printed are " + w[1] + " " + w[2] + fmt(", returned %.2f %.2f", r1.L, r1.U) + sh); c.label("mixed-integer"); if (r1.it > 0) c.nontrivial(M.P.hash()); return; }
    GenOpt o; o.huge_pct = 1; o.maxcols = 6; o.maxrows = 10; Prob P = s.chance(40) ? gen_solvable(c, o).P : gen_any(c, o); double ft = 1e-8, at = 1e-8, rt = 1e-8, fi = 1e-4, ai = 5e-5, ri = 5e-5; long maxit = 100, nit = 9; if (s.chance(60)) { ft = s.logpos(-14, -2); at = s.logpos(-14, -2); rt = s.logpos(-14, -2); if (s.chance(40)) { fi = s.logpos(-8, 0); ai = s.logpos(-8, 0); ri = s.logpos(-8, 0); } } if (s.chance(50)) maxit = s.range(0, 14); if (s.chance(20)) nit = s.range(0, 3);
    if (c.want_note) { P.print(c.note); c.note << fmt("feastol %g abstol %g reltol %g inaccurate %g %g %g maxit %ld nitref %ld\n", ft, at, rt, fi, ai, ri, maxit, nit); } std::string sh = " " + P.shape(); label_shape(c, P);
    bool twice = s.chance(25); bool clk = s.chance(50); long long base = (long long)s.range(0, 1000000) * 1000000000LL + (long long)s.draw(999999999), step = (long long)s.draw(1) ? (long long)s.draw(999999999) : (long long)s.draw(4) * 1000000000LL + (long long)s.draw(999999999);
    auto go = [&](int verbose, long mi, Sol& R, double& tset, double& tsol, std::vector<long long>& reads) { return capture([&] { Inst I(P); if (clk) { lx::now = base; lx::step = step; lx::reads.clear(); lx::on = true; } bool ok = I.setup(false); size_t r1 = lx::reads.size(); if (!ok) { lx::on = false; c.fail("setup refused" + sh); } auto* g = I.w->stgs; g->feastol = ft; g->abstol = at; g->reltol = rt; g->feastol_inacc = fi; g->abstol_inacc = ai; g->reltol_inacc = ri; g->maxit = mi; g->nitref = nit; g->verbose = 0; if (twice) { I.solve(); } size_t r2 = lx::reads.size(); g->verbose = verbose; R = I.solve(); lx::on = false; c.subevals++; tset = R.info.tsetup; tsol = R.info.tsolve; reads.clear(); if (clk) { reads = lx::reads; if (r1 == 2 && !(fabs(tset - (reads[1] - reads[0]) * 1e-9) <= 1e-9 + 1e-15 * (reads[1] - reads[0]) * 1e-9)) c.fail(fmt("setup time reported %.12g, clock went from %lld to %lld ns", tset, reads[0], reads[1])); if (reads.size() - r2 == 2) { long long a = reads[r2], b = reads[r2 + 1]; if (!(fabs(tsol - (b - a) * 1e-9) <= 1e-9 + 1e-15 * (b - a) * 1e-9)) c.fail(fmt("solve time reported %.12g, clock went from %lld to %lld ns", tsol, a, b)); c.label("clock interposed"); } } if (!(tset >= 0) || !(tsol >= 0)) c.fail(fmt("negative time %g %g", tset, tsol)); I.cleanup(); }); };
    Sol q, v; double ts, tv; std::vector<long long> rd; std::string t0 = go(0, maxit, q, ts, tv, rd); if (t0 != "") c.fail("a quiet solve prints \"" + t0.substr(0, 80) + "\"" + sh); std::string t1 = go(1, maxit, v, ts, tv, rd); if (!sames(q, v)) c.fail(fmt("printing changes the result: exit %d and %d, %ld and %ld iterations", q.code, v.code, (long)q.info.iter, (long)v.info.iter) + sh);
    if (c.want_note) c.note << t1 << "\n";
    auto L = lines(t1); long k = 0, rec = -1; std::vector<std::string> pr; std::string fin; double rt2 = -1; bool del = t1.find(8) != std::string::npos; std::vector<std::string> msgs;
    for (auto& l : L) { long it; if (progress(l, it)) { if (it != k) c.fail(fmt("iteration %ld printed where %ld is expected", it, k) + sh); k++; pr.push_back(l); } size_t a = l.find("recovering best iterate ("); if (a != std::string::npos) rec = atol(l.c_str() + a + 25); for (auto m : {"OPTIMAL (within", "UNBOUNDED (within", "PRIMAL INFEASIBLE (within", "NUMERICAL PROBLEMS (reached", "RAN OUT OF ITERATIONS (reached", "INTERRUPTED (reached"}) { size_t f = l.find(m); if (f != std::string::npos) { msgs.push_back(m); fin = l; } } if (l.compare(0, 9, "Runtime: ") == 0) rt2 = atof(l.c_str() + 9); }
    if (k == 0) { c.label("nothing iterated"); return; } if (v.code == -7) return;
    if (msgs.size() != 1) c.fail(fmt("%zu closing messages, exit %d", msgs.size(), v.code) + sh);
    auto& I = v.info; const char* want = v.code == 0 || v.code == 10 ? "OPTIMAL (within" : v.code == 1 || v.code == 11 ? "PRIMAL INFEASIBLE (within" : v.code == 2 || v.code == 12 ? "UNBOUNDED (within" : v.code == -1 ? "RAN OUT OF ITERATIONS (reached" : v.code == -2 || v.code == -3 ? "NUMERICAL PROBLEMS (reached" : "INTERRUPTED (reached"; bool close = fin.find("Close to ") != std::string::npos;
    if (msgs[0] != want && !(v.code == -2 && std::isnan(I.pcost))) c.fail("closing message \"" + fin + "\" for exit " + code_name(v.code) + sh); if (close != (v.code >= 10)) c.fail("closing message \"" + fin + "\" for exit " + code_name(v.code) + sh);
    std::string num = v.code == 1 || v.code == 11 ? fmt("feastol=%3.1e", I.pinfres) : v.code == 2 || v.code == 12 ? fmt("feastol=%3.1e", I.dinfres) : fmt("feastol=%3.1e, reltol=%3.1e, abstol=%3.1e", std::isnan(I.dres) ? I.pres : std::max(I.dres, I.pres), I.relgap, I.gap); bool nan = std::isnan(I.dres) || std::isnan(I.pres); if (!nan && fin.find(num) == std::string::npos) c.fail("closing message \"" + fin + "\" but the returned statistics say " + num + sh);
    if (I.iter != k - 1) c.fail(fmt("last iteration printed %ld, %ld reported", k - 1, (long)I.iter) + sh); if (rec >= k) c.fail("unprinted iterate recovered" + sh); long at2 = rec >= 0 ? rec : k - 1; if (rec < 0 && v.code <= 2 && v.code >= 0 && del) c.fail("line deleted without a reason" + sh);
    { auto w = words(pr[at2]); if (w[1] != fmt("%+5.3e", I.pcost) || w[2] != fmt("%+5.3e", I.dcost)) if (!std::isnan(I.pcost)) c.fail("returned iterate was printed with costs " + w[1] + " " + w[2] + fmt(", returned %+5.3e %+5.3e", I.pcost, I.dcost) + sh); }
    if (!(fabs(rt2 - (ts + tv)) <= 1e-6 + 1e-12 * (ts + tv))) c.fail(fmt("run time printed %f, setup %f and solve %f", rt2, ts, tv) + sh);
    if (s.chance(40) && k > 1) { long m2 = s.range(0, std::min<long>(k - 1, maxit)); Sol u; std::string t2 = go(1, m2, u, ts, tv, rd); long q2 = 0; for (auto& l : lines(t2)) { long it; if (progress(l, it)) { if (it < (long)pr.size() && l != pr[it]) c.fail("a run limited to " + fmt("%ld", m2) + " iterations prints \"" + l + "\", the longer one \"" + pr[it] + "\"" + sh); q2++; } } if (q2 > m2 + 1) c.fail(fmt("%ld iterations printed with maxit %ld", q2, m2) + sh); c.label("prefix compared"); }
    c.label("exit " + code_name(v.code)); c.label("iterate recovered", rec >= 0); if (k > 1) c.nontrivial(P.hash());
  };
  return p;
}
