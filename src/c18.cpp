// C18: setup accepts exactly the inputs whose sizes add up, refuses the rest without a trace.
#include "hist.hpp"
#include "mi.hpp"
#include "alloc.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C18"; p.quick = 2800000; p.thorough = 12000000; p.min_nontrivial_pct = 90;
  p.rule = "Problems of every cone mix (also none of a kind, empty G or A, up to a few hundred rows) are passed to ECOS_setup or ECOS_BB_setup with the declared cone sizes left as they are, moved between cones so that the sum still fits, or changed so that it does not. Setup must succeed exactly when l+sum(q)+3*nex equals m; a refusal returns NULL, keeps no allocation and leaves every array bit for bit as it was; an accepted workspace records the declared sizes, default settings and (mixed-integer) one pair of bound rows per variable, and cleanup releases everything. Non-trivial: every case with at least one row.";
  p.run = [](Ctx& c) {
    Src& s = c.s; GenOpt o; o.big_pct = 4; o.huge_pct = 1; bool mi = s.chance(25); Prob P; MiProb M;
    if (mi) { MiOpt mo; mo.exp = s.chance(30); M = gen_mi(c, mo); P = M.P; } else P = gen_any(c, o);
    if (!mi && s.chance(6)) { P.m = 0; P.l = 0; P.nex = 0; P.q.clear(); P.h.clear(); P.G = Csc(); P.G.n = P.n; P.G.jc.assign(P.n + 1, 0); }
    if (!mi && s.range(0, 399) == 0) { // more rows than 16 bits count
      GenOpt u; P = Prob(); P.n = s.range(1, 3); int k = s.weighted({3, 2, 2}); P.l = k == 0 ? s.range(0, 5) : k == 1 ? s.range(33000, 70000) : 2; P.nex = k == 2 ? s.range(11000, 14000) : 0; if (k == 0) P.q.push_back(s.range(33000, 70000)); P.m = P.l + 3 * P.nex; for (auto d : P.q) P.m += d;
      P.h.assign(P.m, 1); P.c.assign(P.n, 1); P.G.m = P.m; P.G.n = P.n; P.G.jc = {0}; for (long j = 0; j < P.n; j++) { P.G.ir.push_back(j * 7); P.G.pr.push_back(1); P.G.ir.push_back(P.m - 1 - j); P.G.pr.push_back(-1); P.G.jc.push_back((idxint)P.G.ir.size()); } P.A = Csc(); P.A.n = P.n; P.A.jc.assign(P.n + 1, 0); c.label("more than 32767 rows"); }
    long l = P.l, nex = P.nex; ivec q = P.q; long m = P.m; int how = s.weighted({4, 2, 6});
    if (how >= 1) { int k = (int)s.range(1, 3); for (int t = 0; t < k; t++) switch (s.range(0, 5)) {
        case 0: l = std::max<long>(0, l + s.range(-3, 3)); break;
        case 1: if (!q.empty()) { auto& x = q[s.pick(q.size())]; x = std::max<long>(1, x + s.range(-3, 3)); } break;
        case 2: nex = std::max<long>(0, nex + s.range(-2, 2)); break;
        case 3: if (!q.empty()) q.pop_back(); break;
        case 4: q.push_back(s.range(1, 6)); break;
        default: l = s.range(0, 2 * P.m + 2); } }
    long sum = l + 3 * nex; for (auto d : q) sum += d;
    if (how == 1) { // repair the sum again where possible
      if (sum < m) { if (s.chance(50)) l += m - sum; else q.push_back(m - sum); } else if (l >= sum - m) l -= sum - m; sum = l + 3 * nex; for (auto d : q) sum += d; }
    bool fits = sum == m; c.label(fits ? "sizes fit" : "sizes do not fit"); if (mi) c.label("mixed-integer");
    if (c.want_note) { P.print(c.note); c.note << fmt("  declared l=%ld nex=%ld q:", l, nex); for (auto d : q) c.note << " " << d; c.note << fmt(" sum=%ld m=%ld\n", sum, m); }
    Csc G = P.G, A = P.A; dvec cc = P.c, h = P.h, b = P.b; ivec qq = q, bi = M.bools, ii = M.ints; double dz[1] = {7}; idxint iz[1] = {7};
    bool g = P.m > 0 || s.chance(50), a = P.p > 0 || P.hasA; auto dp = [&](dvec& v) { return v.empty() ? dz : v.data(); }; auto ip = [&](ivec& v) { return v.empty() ? iz : v.data(); };
    auto untouched = [&](const char* when, double tol) { auto near = [&](const dvec& x, const dvec& y) { for (size_t i = 0; i < x.size(); i++) if (tol == 0 ? !same_d(x[i], y[i]) : !(std::fabs(x[i] - y[i]) <= tol * std::fabs(x[i]))) return false; return true; };
      if (!near(P.G.pr, G.pr)) c.fail(std::string("G changed ") + when); if (!near(P.A.pr, A.pr)) c.fail(std::string("A changed ") + when); if (!near(P.c, cc)) c.fail(std::string("c changed ") + when); if (!near(P.h, h)) c.fail(std::string("h changed ") + when); if (!near(P.b, b)) c.fail(std::string("b changed ") + when);
      if (P.G.ir != G.ir || P.G.jc != G.jc || P.A.ir != A.ir || P.A.jc != A.jc || q != qq || bi != M.bools || ii != M.ints) c.fail(std::string("index data changed ") + when); };
    long l0 = alc::live; alc::pattern = s.chance(50) ? 0xFF : -1;
    if (!mi) {
      pwork* w = ECOS_setup(P.n, m, P.p, l, (idxint)qq.size(), qq.empty() ? NULL : qq.data(), nex, g ? dp(G.pr) : NULL, g ? ip(G.jc) : NULL, g ? ip(G.ir) : NULL, a ? dp(A.pr) : NULL, a ? ip(A.jc) : NULL, a ? ip(A.ir) : NULL, cc.data(), m ? h.data() : NULL, P.p ? b.data() : NULL);
      alc::pattern = -1;
      if (!fits) { if (w) c.fail(fmt("setup accepted sizes adding up to %ld for %ld rows: ", sum, m) + P.shape()); if (alc::live != l0) c.fail(fmt("refused setup keeps %ld allocations", alc::live - l0)); untouched("by a refused setup", 0); }
      else {
        if (!w) c.fail(fmt("setup refused fitting sizes l=%ld nex=%ld ", l, nex) + P.shape());
        if (w->n != P.n || w->m != m || w->p != P.p || w->C->lpc->p != l || w->C->nsoc != (idxint)q.size() || w->C->nexc != nex || w->D != l + (long)q.size() + 3 * nex) c.fail("recorded sizes differ from the declared ones");
        for (size_t i = 0; i < q.size(); i++) if (w->C->soc[i].p != q[i]) c.fail("recorded cone size differs from the declared one");
        settings& t = *w->stgs; if (t.maxit != 100 || t.feastol != 1e-8 || t.abstol != 1e-8 || t.reltol != 1e-8 || t.feastol_inacc != 1e-4 || t.abstol_inacc != 5e-5 || t.reltol_inacc != 5e-5 || t.nitref != 9 || t.verbose != 1 || t.gamma != 0.99 || t.delta != 2e-7 || t.eps != 1e-13 || t.max_bk_iter != 90 || t.bk_scale != 0.8 || t.centrality != 1.0) c.fail("settings do not start at the documented defaults");
        ECOS_cleanup(w, 0); untouched("by setup and cleanup", 1e-13); if (alc::live != l0) c.fail(fmt("%ld allocations kept after cleanup", alc::live - l0)); }
    } else {
      settings_bb* d = NULL; bool own = s.chance(50); if (own) { d = get_default_ECOS_BB_settings(); d->maxit = s.range(1, 50); d->verbose = s.range(0, 1); d->reliable_eta = s.range(0, 9); d->branching_strategy = (enum BRANCHING_STRATEGY)s.range(0, 4); d->node_selection_method = (enum NODE_SELECTION_METHOD)s.range(0, 2); d->abs_tol_gap = s.logpos(-9, -1); d->rel_tol_gap = s.chance(20) ? 0 : s.logpos(-9, -1); d->integer_tol = s.logpos(-9, -1); }
      settings_bb dcopy; memset(&dcopy, 0, sizeof dcopy); if (own) dcopy = *d;
      auto same = [&]() { return dcopy.maxit == d->maxit && dcopy.verbose == d->verbose && dcopy.reliable_eta == d->reliable_eta && dcopy.branching_strategy == d->branching_strategy && dcopy.node_selection_method == d->node_selection_method && dcopy.abs_tol_gap == d->abs_tol_gap && dcopy.rel_tol_gap == d->rel_tol_gap && dcopy.integer_tol == d->integer_tol; };
      ecos_bb_pwork* w = ECOS_BB_setup(P.n, m, P.p, l, (idxint)qq.size(), qq.empty() ? NULL : qq.data(), nex, dp(G.pr), ip(G.jc), ip(G.ir), a ? dp(A.pr) : NULL, a ? ip(A.jc) : NULL, a ? ip(A.ir) : NULL, cc.data(), h.data(), P.p ? b.data() : NULL, (idxint)bi.size(), bi.empty() ? NULL : bi.data(), (idxint)ii.size(), ii.empty() ? NULL : ii.data(), d);
      alc::pattern = -1; long held = l0 + (own ? 1 : 0);
      if (!fits) { if (w) c.fail(fmt("mixed-integer setup accepted sizes adding up to %ld for %ld rows: ", sum, m) + P.shape()); if (alc::live != held) c.fail(fmt("refused mixed-integer setup keeps %ld allocations", alc::live - held)); untouched("by a refused mixed-integer setup", 0); }
      else {
        if (!w) c.fail("mixed-integer setup refused fitting sizes " + P.shape()); pwork* e = w->ecos_prob; long k = 2 * (long)(bi.size() + ii.size());
        if (e->n != P.n || e->m != m + k || e->p != P.p || e->C->lpc->p != l + k || e->C->nsoc != (idxint)q.size() || e->C->nexc != nex || w->num_bool_vars != (idxint)bi.size() || w->num_int_vars != (idxint)ii.size()) c.fail("recorded sizes differ from the declared ones (mixed-integer)");
        settings_bb& t = *w->stgs; if (!own && (t.maxit != 1000 || t.verbose != 1 || t.abs_tol_gap != 1e-6 || t.rel_tol_gap != 1e-3 || t.integer_tol != 1e-4 || t.reliable_eta != 6 || t.branching_strategy != BRANCHING_STRATEGY_RELIABILITY || t.node_selection_method != DIVE_LOWER_NODE)) c.fail("mixed-integer settings do not start at their defaults"); if (own && w->stgs != d) c.fail("the caller's settings are not used"); if (own && !same()) c.fail("setup changes the caller's mixed-integer settings");
        if (e->stgs->verbose) c.fail("the relaxation solver is verbose");
        ECOS_BB_cleanup(w, 0); untouched("by mixed-integer setup and cleanup", 1e-13); if (alc::live != held) c.fail(fmt("%ld allocations kept after mixed-integer cleanup", alc::live - held)); }
      if (own) { if (!same()) c.fail("the caller's mixed-integer settings were changed"); free(d); }
    }
    if (P.m) c.nontrivial(P.hash() ^ (uint64_t)(l * 1000003 + nex * 7919 + (long)q.size()) ^ (mi ? 77 : 0));
  };
  return p;
}
