// C15: workspaces do not influence one another, interleaved or in parallel.
#include "hist.hpp"
#include "coro.hpp"
#include "mi.hpp"
#include <signal.h>
#include <thread>
struct Op { int kind; Set S; };      // 0 solve, 1 new workspace of the same problem, 2 entry update of h, 3 entry update of c
struct Job { Prob P; std::vector<Op> ops; std::vector<std::pair<long, double>> arg; bool mi = false; MiProb M; MiCfg g; };
struct MiRes { int code; dvec x, y, s, z; double U, L; long it; stats info; };
struct Run {
  const Job* J; std::unique_ptr<Inst> I; std::unique_ptr<MiInst> B; std::vector<Sol> out; std::vector<MiRes> mout; bool bad = false; uint64_t rng = 1;
  bool fresh() {
    if (J->mi) { B.reset(); B.reset(new MiInst(J->M)); put(*B, J->g); return B->setup(); }
    I.reset(); I.reset(new Inst(J->P)); return I->setup(); }
  void step(size_t k) {
    coro::rng = &rng; if (!bad) step1(k); coro::rng = nullptr; }
  void step1(size_t k) {
    const Op& o = J->ops[k];
    if (J->mi) { // one workspace per solve
      if (!fresh()) { bad = true; return; }
      MiRes r; r.code = B->solve(); auto* w = B->w; long m = w->ecos_prob->m; r.U = w->global_U; r.L = w->global_L; r.it = w->iter; r.info = *w->info;
      if (r.code == 0 || r.code == 10) { r.x = B->x(); r.y.assign(w->y, w->y + J->M.P.p); r.s.assign(w->s, w->s + m); r.z.assign(w->z, w->z + m); }
      mout.push_back(r); return; }
    if (!I || o.kind == 1) { if (!fresh()) { bad = true; return; } if (o.kind == 1) return; }
    if (o.kind == 2) { if (J->P.m) ecos_updateDataEntry_h(I->w, J->arg[k].first % J->P.m, J->arg[k].second); }
    else if (o.kind == 3) ecos_updateDataEntry_c(I->w, J->arg[k].first % J->P.n, J->arg[k].second);
    else { put(I->w, o.S); out.push_back(I->solve()); } }
  void drop() { I.reset(); B.reset(); }
};
static std::string diff_mi(const MiRes& a, const MiRes& b) {
  if (a.code != b.code) return fmt("exit codes %d and %d", a.code, b.code);
  if (a.it != b.it) return fmt("%ld and %ld nodes", a.it, b.it);
  if (memcmp(&a.U, &b.U, sizeof a.U) || memcmp(&a.L, &b.L, sizeof a.L)) return fmt("bounds %.17g/%.17g and %.17g/%.17g", a.L, a.U, b.L, b.U);
  if (!same_vec(a.x, b.x)) return "different x"; if (!same_vec(a.y, b.y)) return "different y"; if (!same_vec(a.s, b.s)) return "different s"; if (!same_vec(a.z, b.z)) return "different z";
  return (a.code == 0 || a.code == 10) && !same_info(a.info, b.info) ? "different reported statistics" : ""; }
eng::Prop make_prop() {
  Prop p; p.id = "C15"; p.quick = 36000; p.thorough = 500000; p.min_nontrivial_pct = 60;
  p.rule = "2..4 jobs: problems with a history of setup, solves under settings, entry updates and re-setups, or (20%) mixed-integer solves. Each history is run alone; then all are interleaved call by call in a generated order; then run under a generated preemptive schedule in which any basic block of the library may be the point of a switch (half: one job is stopped at a uniformly drawn block while the others run to completion; half: switches about every k blocks, k drawn from 1..10^4); then (30%) in parallel threads. Every result must be bit-identical to the lone run. Non-trivial: two jobs have solves that iterate.";
  p.assumptions = {"in the threaded runs only the operating system chooses the schedule; the process-wide SIGINT disposition is not compared; rand() is replaced by one stream per job, since sharing the C library's stream is by design"};
  p.run = [](Ctx& c) {
    Src& s = c.s; std::vector<Job> J(s.range(2, 4)); GenOpt o; o.big_pct = 4; o.huge_pct = 1;
    for (auto& j : J) { bool f; if (s.chance(20)) { j.mi = true; MiOpt mo; mo.exp = s.chance(25); mo.maxbool = 3; mo.maxint = 1; j.M = gen_mi(c, mo); j.g = gen_cfg(c); j.P = j.M.P; long k = s.range(1, 2); for (long t = 0; t < k; t++) { j.ops.push_back({0, Set()}); j.arg.push_back({0, 0}); } c.label("a mixed-integer job"); continue; } size_t at = &j - &J[0]; if (at && !J[at - 1].mi && s.chance(25)) { j.P = J[at - 1].P; int v = (int)s.pick(3); c.label("two jobs of the same size");
        if (v == 0) { for (auto& t : j.P.h) if (s.chance(30)) t += s.val(1); for (auto& t : j.P.c) if (s.chance(30)) t += s.val(1); }
        else if (v == 1) { auto pm = s.perm(j.P.n); auto mix = [&](Csc& M, long rows) { Dense D = to_dense(M), E(rows, j.P.n); for (long k = 0; k < j.P.n; k++) for (long i = 0; i < rows; i++) if (D.p(i, k)) E.set(i, pm[k], D(i, k)); M = to_csc(E); }; mix(j.P.G, j.P.m); if (j.P.p) mix(j.P.A, j.P.p); dvec q = j.P.c; for (long k = 0; k < j.P.n; k++) q[pm[k]] = j.P.c[k]; j.P.c = q; } }
      else switch (s.weighted({3, 2, 1})) { case 0: try { j.P = gen_any(c, o); } catch (const Discard&) { j.P = gen_unit(c, f); } break; case 1: j.P = gen_unit(c, f); break; default: j.P = gen_known_opt(c, o).P; }
      long k = s.range(1, 4); for (long t = 0; t < k; t++) { int kind = t == 0 ? 0 : s.weighted({6, 1, 1, 1}); j.ops.push_back({kind, gen_set(c)}); j.arg.push_back({s.range(0, 63), s.val(2)}); } }
    if (c.want_note) for (auto& j : J) { if (j.mi) { print_mi(c.note, j.M); c.note << "  " << cfg_str(j.g) << "\n"; continue; } j.P.print(c.note); for (auto& q : j.ops) c.note << "  op " << q.kind << " " << set_str(q.S) << "\n"; }
    std::vector<Run> alone(J.size()), inter(J.size()), pre(J.size()), par(J.size()); std::vector<long> len(J.size(), 0); int eff = 0;
    for (size_t i = 0; i < J.size(); i++) { alone[i].J = inter[i].J = pre[i].J = par[i].J = &J[i]; len[i] = coro::count([&] { for (size_t k = 0; k < J[i].ops.size(); k++) { if (!alone[i].bad) alone[i].step(k); c.subevals++; } }); if (alone[i].bad) c.fail("setup refused"); bool e = false; for (auto& r : alone[i].out) if (r.info.iter > 0) e = true; if (!alone[i].mout.empty()) e = true; eff += e; }
    auto cmp = [&](std::vector<Run>& R, const std::string& how) { for (size_t i = 0; i < J.size(); i++) { if (R[i].bad || R[i].out.size() != alone[i].out.size() || R[i].mout.size() != alone[i].mout.size()) c.fail(how + ": setup refused"); for (size_t k = 0; k < R[i].mout.size(); k++) { std::string e = diff_mi(R[i].mout[k], alone[i].mout[k]); if (!e.empty()) c.fail(how + fmt(": mixed-integer job %zu solve %zu differs from its lone run: ", i, k) + e + " " + J[i].P.shape()); } for (size_t k = 0; k < R[i].out.size(); k++) { std::string e = diff_sol(R[i].out[k], alone[i].out[k]); if (!e.empty()) c.fail(how + fmt(": job %zu solve %zu differs from its lone run: ", i, k) + e + " " + J[i].P.shape()); } } };
    std::vector<size_t> pos(J.size(), 0); size_t left = 0; for (auto& j : J) left += j.ops.size(); std::string order;
    while (left) { size_t i = s.pick(J.size()); while (pos[i] >= J[i].ops.size()) i = (i + 1) % J.size(); inter[i].step(pos[i]++); left--; order += fmt("%zu", i); if (pos[i] == J[i].ops.size() && s.chance(50)) inter[i].drop(); }
    if (c.want_note) c.note << "  order " << order << "\n";
    cmp(inter, "interleaved (" + order + ")");
    bool single = s.chance(50); size_t victim = s.pick(J.size()); long at = s.range(1, std::max(1L, len[victim])); double mean = std::pow(10.0, s.range(0, 400) / 100.0); uint64_t h = (uint64_t)s.range(1, 1000000007) * 0x9E3779B97F4A7C15ull;
    auto rnd = [&] { h ^= h << 13; h ^= h >> 7; h ^= h << 17; return (double)(h >> 11) / 9007199254740992.0; };
    std::vector<std::function<void()>> jobs; for (size_t i = 0; i < J.size(); i++) { size_t q = (victim + i) % J.size(); jobs.push_back([&, q] { for (size_t k = 0; k < J[q].ops.size(); k++) if (!pre[q].bad) pre[q].step(k); }); }
    bool first = true; long sw;
    if (single) sw = coro::run(jobs, [&](size_t i, long t) { return i == 0 && t == 0 ? at : -1L; }, [&](size_t k) { if (first) { first = false; return (size_t)0; } return 1 + (size_t)(rnd() * (k - 1)); });
    else sw = coro::run(jobs, [&](size_t, long t) { return t > 5000 ? -1L : 1 + (long)(-std::log(1 - rnd()) * mean); }, [&](size_t k) { return (size_t)(rnd() * k); });
    signal(SIGINT, SIG_DFL);
    std::string how = single ? fmt("job %zu preempted at basic block %ld of %ld", victim, at, len[victim]) : fmt("preempted about every %.3g basic blocks (%ld switches)", mean, sw);
    if (c.want_note) c.note << "  " << how << "\n";
    cmp(pre, how); c.label(single ? "one preemption" : sw > 100 ? "preempted often" : "preempted"); 
    if (s.chance(30)) { std::vector<std::thread> T; for (size_t i = 0; i < J.size(); i++) T.emplace_back([&, i] { for (size_t k = 0; k < J[i].ops.size(); k++) if (!par[i].bad) par[i].step(k); }); for (auto& t : T) t.join(); cmp(par, "threads"); c.label("threaded"); }
    if (eff >= 2) { uint64_t z = 0; for (auto& j : J) z = z * 31 + j.P.hash(); c.nontrivial(z); }
  };
  return p;
}
