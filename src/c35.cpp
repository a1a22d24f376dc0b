// C35: the tree a mixed-integer solve explores is the one its settings prescribe.
// Every relaxation is observed (linker --wrap=ECOS_solve); most cases replace the relaxation by a stand-in that
// answers with generated values and exit codes, so that every path of the search is reached.
#include "mi.hpp"
namespace rel { bool on = false; std::vector<int> codes; }
struct Rec { dvec box; int code = 0; dvec x; double q = 0; };
namespace ob { bool on = false, stub = false; long rows = 0; std::vector<Rec> tr; std::function<void(const dvec&, dvec&, int&)> f; size_t cap = 200000; }
extern "C" { idxint __real_ECOS_solve(pwork*);
idxint __wrap_ECOS_solve(pwork* w) {
  if (!ob::on) return __real_ECOS_solve(w);
  Rec r; r.box.resize(ob::rows); for (long i = 0; i < ob::rows; i++) { double v = w->h[i];
#if defined EQUILIBRATE && EQUILIBRATE > 0
    v *= w->Gequil[i];
#endif
    r.box[i] = fabs(v - std::round(v)) < 1e-6 ? std::round(v) + 0.0 : v; }
  if (ob::stub) { r.x.assign(w->n, 0.0); ob::f(r.box, r.x, r.code); for (long i = 0; i < w->n; i++) w->x[i] = r.x[i]; for (long i = 0; i < w->p; i++) w->y[i] = 0; for (long i = 0; i < w->m; i++) w->s[i] = w->z[i] = 1; w->tau = 1; w->kap = 0; }
  else { r.code = (int)__real_ECOS_solve(w); r.x.assign(w->x, w->x + w->n); }
  double t = 0; for (long i = 0; i < w->n; i++) t += w->x[i] * w->c[i]; r.q = t; if (ob::stub) w->info->pcost = t;
  if (ob::tr.size() < ob::cap) ob::tr.push_back(r); return r.code; } }

namespace {
struct Bad { std::string m; }; struct Undecided {};
struct Split { long v; double val; };
struct Node { dvec box; double L = -INFINITY, relax = 0, pval = 0, prel = 0; bool open = false; long psplit = -1; bool up = false; std::vector<Split> ok; };
// Reference search. Where rounding decides, both outcomes are tried (script).
struct Model {
  const std::vector<Rec>& tr; const MiCfg& g; std::vector<long> vars; long nb, nv; double tie;
  std::vector<int> script, made; size_t sp = 0, pos = 0; std::vector<Node> N; double U = INFINITY, Lg = 0; long inc = -1, iter = 0, dive = 0; long branched = 0, strongq = 0, fixed = 0, dives = 0, pcused = 0, reliable = 0, ties = 0, outside = 0;
  struct Pc { double s = 0; long c = 0; double e = 0; }; std::vector<Pc> pc;
  Model(const std::vector<Rec>& t, const MiCfg& c, const MiProb& M, double tie_) : tr(t), g(c), nb((long)M.bools.size()), tie(tie_) { for (auto j : M.bools) vars.push_back(j); for (auto j : M.ints) vars.push_back(j); nv = (long)vars.size(); pc.resize(2 * nv); }
  bool pickb(bool first) { int k = sp < script.size() ? script[sp] : 0; sp++; made.push_back(k); return k ? !first : first; }
  bool near(double a, double b) const { return tie > 0 && std::isfinite(a) && std::isfinite(b) && fabs(a - b) <= tie * std::max(1.0, std::max(fabs(a), fabs(b))); }
  bool lt(double a, double b) { return near(a, b) ? pickb(a < b) : a < b; }
  static std::string show(const dvec& b) { std::string o = "["; for (size_t i = 0; i + 1 < b.size(); i += 2) o += fmt("%s%g..%g", i ? " " : "", -b[i] + 0.0, b[i + 1]); return o + "]"; }
  const Rec& take(const dvec& box, const char* what) {
    if (pos >= tr.size()) throw Bad{fmt("the search ended where %s should be solved: ", what) + show(box)};
    if (tr[pos].box != box) throw Bad{fmt("relaxation %zu should be %s ", pos, what) + show(box) + ", solved was " + show(tr[pos].box)}; return tr[pos++]; }
  bool frac(double x) { double d = fabs(x - std::round(x)); if (fabs(d - g.itol) < 1e-12) return pickb(d >= g.itol); return d >= g.itol; }
  // one side of a split; at: bound row of the variable
  void side(dvec& b, long v, double val, bool up) const { if (v < nb) { b[2 * v] = up ? -1 : 0; b[2 * v + 1] = up ? 1 : 0; } else if (up) b[2 * v] = -std::ceil(val) + 0.0; else b[2 * v + 1] = std::floor(val) + 0.0; }
  static double f8(double d) { return d > 1e-8 ? d : 1e-8; }
  struct Sc { double lo, hi; long v; double val; };
  static Sc score(double a, double b, double ea, double eb, long v, double val) { return Sc{f8(a - ea) * f8(b - eb) * (1 - 1e-12), f8(a + ea) * f8(b + eb) * (1 + 1e-12), v, val}; }
  std::vector<Split> best(const std::vector<Sc>& s) { double m = -1; for (auto& a : s) m = std::max(m, a.lo); std::vector<Split> o; for (auto& a : s) if (a.hi >= m) o.push_back({a.v, a.val}); return o; }
  void psi(long v, double* p, double* e) { for (int u = 0; u < 2; u++) { if (pc[2 * v + u].c) { p[u] = pc[2 * v + u].s / pc[2 * v + u].c; e[u] = pc[2 * v + u].e / pc[2 * v + u].c; continue; } double s = 0, er = 0; long n = 0; for (long k = v < nb ? 0 : nb; k < (v < nb ? nb : nv); k++) if (pc[2 * k + u].c) { s += pc[2 * k + u].s; er += pc[2 * k + u].e; n += pc[2 * k + u].c; } p[u] = n ? s / n : 1.0; e[u] = n ? er / n : 0; } }
  Sc pcscore(long v, double y) { double p[2], e[2]; psi(v, p, e); double d = y - std::floor(y), u = 1 - d; pcused++; return score(d * p[0], u * p[1], d * e[0] + 1e-13 * fabs(p[0]), u * e[1] + 1e-13 * fabs(p[1]), v, y); }
  void learn(long v, int u, double dq, double dv, double scale) { if (dv <= 0) throw Undecided{}; pc[2 * v + u].s += dq / dv; pc[2 * v + u].c++; pc[2 * v + u].e += 1e-13 * scale / dv + 1e-15 * fabs(dq / dv); }
  static bool infeas(int k) { return k == 1 || k == 2 || k == 11 || k == 12; }
  void lookahead(long k, const Rec& R) {   // strong and reliability branching
    bool rely = g.br == 3; std::vector<long> rem; std::vector<Sc> sc; std::vector<Split> fix; dvec tmp = N[k].box; const Rec* B = &R;
    if (!rely) { if (pos < tr.size() && tr[pos].box == tmp) B = &tr[pos++]; }
    for (long v = 0; v < nv; v++) { double y = rely ? R.x[vars[v]] : B->x[vars[v]]; if (!frac(y)) continue; if (rely && pc[2 * v].c > g.eta && pc[2 * v + 1].c > g.eta) { sc.push_back(pcscore(v, y)); reliable++; } else rem.push_back(v); }
    if (rely && !rem.empty() && pos < tr.size() && tr[pos].box == tmp) B = &tr[pos++];
    while (!rem.empty()) {
      size_t hit = rem.size(); dvec b; if (pos >= tr.size()) throw Bad{"the search ended in the middle of a branching decision"};
      std::vector<size_t> hits; for (size_t r = 0; r < rem.size(); r++) { b = tmp; side(b, rem[r], B->x[vars[rem[r]]], false); if (b == tr[pos].box) hits.push_back(r); }   // several only when a variable lies outside its box
      for (size_t r = 0; r < hits.size(); r++) if (r + 1 == hits.size() || pickb(true)) { hit = hits[r]; break; }
      if (hit == rem.size()) throw Bad{fmt("relaxation %zu ", pos) + show(tr[pos].box) + fmt(" tries no undecided candidate of node ") + show(tmp) + fmt(" (%zu candidates left)", rem.size())};
      long v = rem[hit]; rem.erase(rem.begin() + hit); double val = B->x[vars[v]]; const Rec& D = tr[pos++]; strongq++;
      auto cut = [&](const Rec& r) { return infeas(r.code) || lt(U, r.q); };
      auto shut = [&](bool up) { fixed++; side(tmp, v, val, up); side(N[k].box, v, val, up); fix.push_back({v, val}); };
      if (cut(D)) { shut(true); continue; }
      b = tmp; side(b, v, val, true); const Rec& E = take(b, "the up side of the candidate just tried"); strongq++;
      if (cut(E)) { shut(false); continue; }
      double a = D.q - B->q, u = E.q - B->q, er = tie * (1 + fabs(B->q) + fabs(D.q) + fabs(E.q));
      if (rely) { double s = 1 + fabs(B->q) + fabs(D.q) + fabs(E.q); learn(v, 0, a, val - std::floor(val), s); learn(v, 1, u, std::ceil(val) - val, s); }
      sc.push_back(score(a, u, er, er, v, rely ? R.x[vars[v]] : val)); }
    N[k].ok = sc.empty() ? fix : best(sc); }
  void bounds(long k) {
    Rec R = take(N[k].box, "the node"); Node* n = &N[k]; n->open = false;
    if (!(R.code == 0 || R.code == 10 || R.code == -1 || R.code == -2)) { n->L = INFINITY; return; }
    n->L = R.q; if (lt(U, n->L)) return; n->relax = R.q;
    if (n->psplit >= 0) { double ch = n->up ? std::ceil(n->pval) - n->pval : n->pval - std::floor(n->pval); learn(n->psplit, n->up, n->relax - n->prel, ch, 1 + fabs(n->relax) + fabs(n->prel)); }
    bool br = false; std::vector<long> fr; dvec rb(2 * nv); for (long v = 0; v < nv; v++) { double x = R.x[vars[v]]; if (!std::isfinite(x) || fabs(x) > 1e8) throw Undecided{}; if (frac(x)) { br = true; fr.push_back(v); }
      double r = std::round(x); if (fabs(fabs(x - std::floor(x)) - .5) < 1e-12) r = pickb(x >= 0) ? std::ceil(x) : std::floor(x); r += 0.0; if (v < nb) { if (r < 0 || r > 1) outside++; r = r >= 1 ? 1 : 0; } if (v < nb) { rb[2 * v] = -r + 0.0; rb[2 * v + 1] = r; } else { rb[2 * v] = -r + 0.0; rb[2 * v + 1] = r; } }
    if (br) {
      n->open = true; n->ok.clear();
      if (g.br == 0) { auto amb = [&](long v) { double x = R.x[vars[v]]; return fabs(x - (v < nb ? 0 : std::floor(x)) - .5); }; double d = 1, df = INFINITY; for (long v = 0; v < nv; v++) d = std::min(d, amb(v)); for (long v : fr) df = std::min(df, amb(v)); if (df > d + 1e-9 || df > 1 - 1e-9) throw Undecided{}; for (long v : fr) { double x = R.x[vars[v]]; if (amb(v) <= d + 1e-9) n->ok.push_back({v, x}); } }
      else if (g.br == 4) for (long v : fr) n->ok.push_back({v, R.x[vars[v]]});
      else if (g.br == 2) { std::vector<Sc> s; for (long v : fr) s.push_back(pcscore(v, R.x[vars[v]])); n->ok = best(s); }
      else { lookahead(k, R); n = &N[k]; }
      long at = (long)pos; const Rec& Q = take(rb, "the rounded relaxation"); if (Q.code == 0 && lt(Q.q, U)) { U = Q.q; inc = at; } }
    else if (lt(R.q, U)) { U = R.q; inc = (long)pos - 1; }
    if (lt(U, n->L)) n->open = false; }
  void run() {
    N.assign(1, Node()); N[0].box.resize(2 * nv); for (long v = 0; v < nv; v++) { N[0].box[2 * v] = v < nb ? 0 : MAX_FLOAT_INT; N[0].box[2 * v + 1] = v < nb ? 1 : MAX_FLOAT_INT; }
    bounds(0); Lg = N[0].L; std::vector<long> cur{0}; if (!N[0].open) cur.clear();
    while (true) {
      double a = U - Lg, b = fabs(U / Lg - 1); bool c1 = tie > 0 && std::isfinite(a) && fabs(a - g.abs) <= 1e-9 * (1 + fabs(U)) ? pickb(a > g.abs) : a > g.abs, c2 = tie > 0 && std::isfinite(b) && fabs(b - g.relg) <= 1e-9 ? pickb(b > g.relg) : b > g.relg;
      bool go = c1 && c2 && !cur.empty() && iter < g.maxit - 1;
      if (!go) { if (pos != tr.size()) throw Bad{fmt("the search went on after relaxation %zu (branching %ld of at most %ld, value %.17g, bound %.17g, %s)", pos, iter, g.maxit - 1, U, Lg, cur.empty() ? "nothing open" : "nodes open")}; return; }
      if (pos == tr.size()) throw Bad{fmt("the search ended with node ") + show(N[cur[0]].box) + fmt(" open (branching %ld of at most %ld, value %.17g, bound %.17g, gap %.3g/%.3g)", iter, g.maxit - 1, U, Lg, a, b)};
      struct Opt { long k; Split s; dvec l; }; std::vector<Opt> o; std::string ex; for (long k : cur) for (auto& s : N[k].ok) { dvec l = N[k].box; side(l, s.v, s.val, false); bool dup = false; if (l == tr[pos].box) { for (auto& q : o) if (q.k == k && q.s.v == s.v) dup = true; if (!dup) o.push_back({k, s, l}); } if (ex.size() < 600) ex += " " + show(l); }
      if (o.empty()) throw Bad{fmt("relaxation %zu ", pos) + show(tr[pos].box) + " is not the lower half of the node and variable the settings select; allowed:" + ex};
      size_t w = 0; if (o.size() > 1 || cur.size() > 1) ties++; while (w + 1 < o.size() && !pickb(true)) w++;
      long k = o[w].k; if (cur.size() > 1 || g.ns == 0 || dives_next < 0) dive = k; if (dives_next >= 0) dives++; iter++; branched++;
      Node& p = N[k]; p.psplit = o[w].s.v; p.pval = o[w].s.val; p.prel = p.relax; p.up = false; Node up = p; up.up = true; up.ok.clear(); up.open = false; side(up.box, up.psplit, up.pval, true); p.box = o[w].l; N.push_back(up);
      bounds(k); bounds(iter);
      Lg = INFINITY; for (auto& n : N) Lg = std::min(Lg, n.L); next(cur); } }
  long dives_next = -1;
  void next(std::vector<long>& cur) {
    cur.clear(); dives_next = -1; if (g.ns == 1 && dive >= 0 && N[dive].open) { cur.push_back(dives_next = dive); return; } if (g.ns == 2 && N[iter].open) { cur.push_back(dives_next = iter); return; }
    double m = INFINITY; std::vector<long> el; for (size_t i = 0; i < N.size(); i++) if (N[i].open && lt(N[i].L, U)) { el.push_back((long)i); m = std::min(m, N[i].L); } for (long i : el) if (N[i].L <= m || near(N[i].L, m)) cur.push_back(i); if (cur.empty()) dive = -1; }
};
}
eng::Prop make_prop() {
  Prop p; p.id = "C35"; p.quick = 1200000; p.thorough = 12000000; p.min_nontrivial_pct = 40;
  p.rule = "A mixed-integer workspace (0-6 booleans, 0-4 integers, index lists in any order) is solved under a drawn branching rule, node selection, gap, integrality tolerance, pseudocost reliability and node budget while every relaxation is observed; in 9 of 10 cases ECOS_solve is replaced by a stand-in whose points, values and exit codes are generated (ties, infeasible boxes, inaccurate and undecided exits, undecided points far outside the box), otherwise the real solver runs. The recorded boxes must be those a reference search asks for, in an order the rules allow, and exit code, branchings, incumbent and bounds must be the reference's. Non-trivial: at least three branchings.";
  p.assumptions = {"where the rules leave a choice (equal scores, equal bounds, candidate order, rand()) any choice is accepted", "with the real solver, comparisons decided by less than 1e-12 are tried both ways; cases whose relaxations return unbounded points are not judged"};
  p.run = [](Ctx& c) {
    Src& s = c.s; MiCfg g = gen_cfg(c); bool stub = !s.chance(10); MiProb M; std::vector<double> t, wt; int pinf = 0, pout = 0, pundec = 0, pacc = 0, pint = 0, quant = 0, noise = 0; bool sq = false, hard = false; uint64_t salt = 0; double base = 0, pert = 0;
    if (stub) {
      long nb = s.range(0, 6), ni = s.chance(60) ? s.range(0, 4) : 0, nc = s.range(0, 2); if (nb + ni < 3 && s.chance(85)) nb += 3; if (nb + ni == 0) nb = 2; Prob& P = M.P; P.n = nb + ni + nc + 1; auto pm = s.perm(P.n); for (long i = 0; i < nb; i++) M.bools.push_back(pm[i]); for (long i = 0; i < ni; i++) M.ints.push_back(pm[nb + i]);
      P.l = P.m = 1; Dense G(1, P.n); for (long j = 0; j < P.n; j++) G.set(0, j, 1); P.G = to_csc(G); P.h = {1}; P.A = to_csc(Dense(0, P.n)); P.hasA = false; P.p = 0; P.c.assign(P.n, 0.0); P.c[pm[P.n - 1]] = 1;
      for (long i = 0; i < nb + ni; i++) { bool tie = s.chance(10); t.push_back(i < nb ? (tie ? .5 : s.range(-10, 1034) / 1024.0 + 1e-5) : (tie ? s.range(-8, 8) * .5 : s.range(-6000, 6000) / 512.0 + 1e-5)); wt.push_back(s.chance(15) ? 0 : s.logpos(-3, 1)); }
      pinf = s.chance(60) ? (int)s.range(1, 35) : 0; pundec = s.chance(25) ? (int)s.range(1, 20) : 0; pout = pundec && s.chance(30) ? (int)s.range(10, 90) : 0; pacc = s.chance(25) ? (int)s.range(1, 30) : 0; pint = s.chance(40) ? (int)s.range(1, 40) : 0; quant = s.chance(25) ? 1 : 0; noise = s.chance(60) ? (int)s.range(1, 20) : 0; sq = s.chance(50); hard = s.chance(50); pert = s.chance(70) ? s.logpos(-1, 2) : 0; salt = s.draw(1000000); base = s.chance(50) ? s.val(20, 64) : 0; g.maxit = s.chance(40) ? s.range(1, 12) : s.range(8, 60); }
    else { MiOpt o; o.exp = s.chance(20); o.maxbool = 5; o.maxint = s.chance(30) ? 2 : 0; o.infeas_bias = 15; M = gen_mi(c, o); if (s.chance(40)) g.maxit = s.range(1, 30); }
    long nb = (long)M.bools.size(), nv = nb + (long)M.ints.size(), vp = stub ? -1 : 0; for (long j = 0; stub && j < M.P.n; j++) if (M.P.c[j] != 0) vp = j; if (s.chance(30)) g.eta = s.range(0, 2);
    ob::rows = 2 * nv; ob::stub = stub; auto var = [&](long v) { return v < nb ? M.bools[v] : M.ints[v - nb]; };
    ob::f = [&](const dvec& box, dvec& x, int& code) {
      uint64_t h = salt; for (double d : box) { uint64_t u; memcpy(&u, &d, 8); h = eng::mix(h ^ u); } auto rnd = [&](int k) { return (long)(eng::mix(h + 77 * (uint64_t)k) % 1000); }; double val = base; bool empty = false, full = true; for (long v = 0; v < nv; v++) if (-box[2 * v] != box[2 * v + 1]) full = false;
      for (long v = 0; v < nv; v++) { double lo = -box[2 * v], hi = box[2 * v + 1]; if (lo > hi) empty = true; double y = t[v] + (noise ? (rnd(10 + (int)v) - 500) * noise / 4000.0 : 0); if (rnd(40 + (int)v) < 10 * pint) y = std::round(y); else if (rnd(140 + (int)v) < 60) y = std::round(y) + (rnd(240 + (int)v) - 499.5) * g.itol / 250; y = std::min(std::max(y, lo), hi); x[var(v)] = y; double d = fabs(y - t[v]); val += wt[v] * (sq ? d * d : d); }
      if (full && nv > 1) val += pert * rnd(7) / 1000.0;
      if (quant) val = std::round(4 * val) / 4; else if (rnd(99) < 30) val -= 0.3; x[vp] = val; for (long j = 0; j < M.P.n; j++) if (j != vp && !is_intvar(M, j)) x[j] = rnd((int)(60 + j)) / 100.0;
      long r = rnd(1); code = empty || r < 10 * pinf * (hard && full ? 3 : 1) ? (rnd(2) < 700 ? 1 : rnd(2) < 800 ? 11 : rnd(2) < 900 ? 2 : 12) : rnd(3) < 10 * pundec ? (rnd(4) < 500 ? -1 : -2) : rnd(5) < 10 * pacc ? 10 : 0;  if (code < 0 && rnd(8) < 10 * pout) for (long v = 0; v < nb; v++) if (rnd(340 + (int)v) < 400) x[var(v)] += (rnd(440 + (int)v) < 500 ? -1 : 1) * (0.3 + rnd(540 + (int)v) / 700.0) * (rnd(640 + (int)v) < 100 ? 300 : 1); };
    MiInst I(M); put(I, g); if (!I.setup()) c.fail("mixed-integer setup refused " + M.P.shape()); int rounds = (g.br == 0 || g.br == 1 || g.br == 4) && s.chance(20) ? 2 : 1;
    for (int rd = 0; rd < rounds; rd++) {
      if (rd) { int b[3] = {0, 1, 4}; g.br = b[s.range(0, 2)]; g.ns = (int)s.range(0, 2); I.w->stgs->branching_strategy = (enum BRANCHING_STRATEGY)g.br; I.w->stgs->node_selection_method = (enum NODE_SELECTION_METHOD)g.ns; if (stub) salt ^= 5; }
      ob::tr.clear(); srand(g.seed); ob::on = true; settings_bb sb; settings se; memcpy(&sb, I.w->stgs, sizeof sb); memcpy(&se, I.w->ecos_prob->stgs, sizeof se); int code = I.solve(); ob::on = false; if (memcmp(&sb, I.w->stgs, sizeof sb) || memcmp(&se, I.w->ecos_prob->stgs, sizeof se)) c.fail("the solve changes the settings it is given " + M.P.shape()); c.subevals += ob::tr.size(); if (ob::tr.size() >= ob::cap) { c.label("trace too long"); return; } label_cfg(c, g); c.label(stub ? "stand-in relaxations" : "real relaxations"); c.label("second solve on the workspace", rd == 1);
      Model m(ob::tr, g, M, stub ? 0 : 1e-12); std::string err; bool ok = false; int tries = 0;
      for (; tries < 300; tries++) {
        std::vector<int> sc = m.script; m.~Model(); new (&m) Model(ob::tr, g, M, stub ? 0 : 1e-12); m.script = sc;
        try { m.run(); auto* w = I.w; auto bad = [](const std::string& q) { throw Bad{q}; };
          int want = m.iter < g.maxit - 1 ? (m.U < INFINITY ? 0 : 1) : (m.U < INFINITY ? 10 : 11); if (code != want) bad(fmt("exit %d, the search performed means %d", code, want)); if (w->iter != m.iter) bad(fmt("%ld branchings counted, %ld made", (long)w->iter, m.iter));
          auto near = [](double a, double b) { return a == b || fabs(a - b) <= 1e-9 * (1 + fabs(b)); }; if (!near(w->global_U, m.U)) bad(fmt("best value %.17g, the relaxations give %.17g", w->global_U, m.U)); if (!near(w->global_L, m.Lg)) bad(fmt("lower bound %.17g, the open nodes give %.17g", w->global_L, m.Lg));
          if (m.inc >= 0) { const Rec& r = ob::tr[m.inc]; for (long j = 0; j < M.P.n; j++) if (!(w->x[j] == r.x[j])) { bool other = false; for (auto& q : ob::tr) if (!stub && near(q.q, r.q) && memcmp(q.x.data(), w->x, sizeof(double) * M.P.n) == 0) other = true; if (!other) bad(fmt("returned point is not that of the best relaxation (variable %ld: %.17g, %.17g)", j, w->x[j], r.x[j])); break; } }
          ok = true; break; }
        catch (Undecided&) { c.label("not judged: unbounded relaxation point"); return; }
        catch (Bad& b) { if (err.empty()) err = b.m; }
        // next script: flip the last choice that was the first option
        auto& md = m.made; while (!md.empty() && md.back() == 1) md.pop_back(); if (md.empty()) break; md.back() = 1; std::vector<int> ns = md; m.script = ns; }
      c.label("decided by a near tie", ok && tries > 0);
      if (c.want_note) { if (!stub) print_mi(c.note, M); c.note << fmt("  %s exit %d, %ld branchings, %zu relaxations, value %.10g, bound %.10g ", cfg_str(g).c_str(), code, (long)I.w->iter, ob::tr.size(), I.w->global_U, I.w->global_L); for (size_t i = 0; i < ob::tr.size() && i < 40; i++) c.note << "\n    " << Model::show(ob::tr[i].box) << fmt(" exit %d value %.17g", ob::tr[i].code, ob::tr[i].q); c.note << "\n"; }
      if (!ok) { if (tries >= 300) { c.label("not judged: too many near ties"); return; } c.fail(err + fmt(" (%s relaxations, %ld booleans, %ld integers) ", stub ? "stand-in" : "real", nb, nv - nb) + cfg_str(g)); }
      c.label("strong branching fixed a variable", m.fixed > 0); c.label("pseudocost scores used", m.pcused > 0); c.label("reliable variables", m.reliable > 0); c.label("dived", m.dives > 0); c.label("ties", m.ties > 0); c.label("undecided relaxation with a boolean beyond [-0.5,1.5]", m.outside > 0);
      if (m.branched >= 3) { uint64_t h = 0; for (auto& r : ob::tr) for (double d : r.box) { uint64_t u; memcpy(&u, &d, 8); h = eng::mix(h ^ u); } c.nontrivial(h); } }
  };
  return p;
}
