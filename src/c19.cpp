// C19: Ctrl-C at any instant of a solve.
#include "hist.hpp"
#include "mi.hpp"
#include "sigx.hpp"
static void my_handler(int) {}
struct Prior {      // the caller's own SIGINT disposition around the case
  struct sigaction before, mine; sigset_t mask;
  Prior(int kind) { memset(&mine, 0, sizeof mine); sigemptyset(&mine.sa_mask); mine.sa_handler = kind == 0 ? SIG_IGN : kind == 1 ? my_handler : SIG_DFL; if (kind == 1) { mine.sa_flags = SA_RESTART; sigaddset(&mine.sa_mask, SIGUSR1); } sigaction(SIGINT, NULL, &before); sigaction(SIGINT, &mine, NULL); sigprocmask(SIG_SETMASK, NULL, &mask); }
  ~Prior() { sigaction(SIGINT, &before, NULL); }
  std::string differs() { struct sigaction now; sigaction(SIGINT, NULL, &now); sigset_t m; sigprocmask(SIG_SETMASK, NULL, &m);
    if (now.sa_handler != mine.sa_handler) return "handler"; if ((now.sa_flags ^ mine.sa_flags) & ~0x04000000) return "handler flags";
    for (int s = 1; s < 32; s++) { if (s != SIGKILL && s != SIGSTOP && sigismember(&now.sa_mask, s) != sigismember(&mine.sa_mask, s)) return "handler mask"; if (sigismember(&m, s) != sigismember(&mask, s)) return "blocked signals"; } return ""; }
};
static void conic(Ctx& c) {
  Src& s = c.s; GenOpt o; o.big_pct = 3; o.huge_pct = 1; Prob P; bool f;
  switch (s.weighted({3, 3, 2, 1, 1})) { case 0: P = gen_any(c, o); break; case 1: P = gen_known_opt(c, o).P; break; case 2: P = gen_solvable(c, o).P; break; case 3: P = gen_pinf(c, o).P; break; default: P = gen_dinf(c, o).P; }
  if (s.chance(3)) P.h[s.pick(P.h.size())] = NAN;
  Set S; if (s.chance(25)) S.maxit = s.range(0, 12); if (s.chance(20)) S.f = S.a = S.r = s.logpos(-9, -3);
  Prior prior((int)s.range(0, 1)); bool hardcase = s.chance(10);   // inaccurate tolerances out of reach: an interrupt can only end as -4
  auto fresh = [&](Inst& I, long maxit) { if (!I.setup()) c.fail("setup refused " + P.shape()); Set T = S; T.maxit = maxit; put(I.w, T); if (hardcase) { I.w->stgs->feastol_inacc = I.w->stgs->abstol_inacc = I.w->stgs->reltol_inacc = 1e-14; } };
  long total; Sol full; { Inst I(P); fresh(I, S.maxit); sx::Arm a; full = I.solve(); total = sx::count; c.subevals++; }
  long inst = -1, rem = -1, at = -1; switch (s.weighted({8, 1, 1})) { case 0: at = 1 + (long)s.draw((uint64_t)std::max<long>(0, total + total / 8)); break; case 1: inst = 1; break; default: rem = 1; }
  std::string what = at > 0 ? fmt("SIGINT at square root %ld of %ld", at, total) : inst > 0 ? std::string("SIGINT right after the handler was installed") : std::string("SIGINT right before the handler is removed");
  Inst I(P); fresh(I, S.maxit); Sol R; bool fired; { sx::Arm a(at, inst, rem); R = I.solve(); fired = sx::fired; } c.subevals++;
  if (c.want_note) { P.print(c.note); c.note << "  " << what << fmt(" -> exit %d, uninterrupted exit %d, iterations %ld / %ld %s\n", R.code, full.code, (long)R.info.iter, (long)full.info.iter, set_str(S).c_str()); }
  std::string d = prior.differs(); if (!d.empty()) c.fail("the caller's SIGINT " + d + " changed by a solve with " + what + " " + P.shape());
  c.label("exit " + code_name(R.code)); c.label("signal delivered during the solve", fired); if (inst > 0) c.label("signal right after installation"); if (rem > 0) c.label("signal right before removal");
  long K = S.maxit; Sol ref = full;
  if (!fired || rem > 0) { std::string e = diff_sol(full, R); if (!e.empty()) c.fail(what + " after the last check changed the result: " + e + " " + P.shape()); }
  else {
    // what the run would have returned had the limit been the first iteration whose check comes after the signal
    bool ok = false; std::string e1; long Kmax = S.maxit;
    for (long k = 0, tries = 0; k <= Kmax && tries < 2; k++) {
      Inst J(P); fresh(J, k); sx::Arm a; Sol r = J.solve(); long cnt = sx::count; sx::on = false; c.subevals++;
      if (inst > 0 ? false : cnt < at) continue;
      tries++; if (r.code == ECOS_MAXIT && R.code == ECOS_SIGINT) r.code = ECOS_SIGINT; else if (r.code == ECOS_MAXIT && k == S.maxit && R.code == ECOS_MAXIT && tries > 1) {}
      std::string e = diff_sol(r, R); if (e.empty()) { ok = true; ref = r; K = k; break; } if (e1.empty()) e1 = fmt("against a stop at iteration %ld: ", k) + e;
    }
    if (!ok) c.fail(what + fmt(" gave exit %d after %ld iterations (uninterrupted: exit %d after %ld), not what stopping there gives; ", R.code, (long)R.info.iter, full.code, (long)full.info.iter) + e1 + " " + P.shape());
    if (R.code == ECOS_SIGINT) c.label("interrupted");
  }
  // afterwards the workspace behaves as one that was stopped there, and nothing is still pending
  Set T = S; if (s.chance(50)) T.maxit = 100;
  Inst J(P); fresh(J, K); { Sol r = J.solve(); (void)r; } auto again = [&](Inst& X) { put(X.w, T); return X.solve(); };
  Sol a = again(I), b = again(J); c.subevals += 3; if (b.code == ECOS_SIGINT) c.fail("a solve without any signal reports an interrupt " + P.shape());
  std::string e = diff_sol(b, a); if (!e.empty()) c.fail("the next solve after " + what + " differs: " + e + " " + P.shape());
  d = prior.differs(); if (!d.empty()) c.fail("the caller's SIGINT " + d + " changed by the following solve");
  if (fired) c.nontrivial(P.hash() ^ (uint64_t)at);
}
static void mixed(Ctx& c) {
  Src& s = c.s; MiOpt o; o.exp = s.chance(20); o.maxint = s.chance(30) ? 2 : 0; o.maxbool = 5; MiProb M = gen_mi(c, o); int br = (int)s.range(0, 4), ns = (int)s.range(0, 2); Prior prior((int)s.range(0, 1));
  MiRef ref = brute(c, M); if (!ref.ok) throw Discard();
  struct Out { int code; dvec x; double U; long n, inst; bool fired, clean; };
  auto run = [&](long at, long inst, long rem) { MiInst I(M); I.st.branching_strategy = (enum BRANCHING_STRATEGY)br; I.st.node_selection_method = (enum NODE_SELECTION_METHOD)ns; if (!I.setup()) c.fail("mixed-integer setup refused"); srand(7); sx::Arm a(at, inst, rem); rel::codes.clear(); rel::on = true; int k = I.solve(); rel::on = false; bool clean = true; for (int q : rel::codes) if (q != 0 && q != 1 && q != 10 && q != 11 && q != -4) clean = false; long n = sx::count, in = sx::installs; bool fi = sx::fired; sx::on = false; c.subevals++; dvec x = (k == 0 || k == 10) ? I.x() : dvec(); double U = I.w->global_U;
    if (s.chance(30) && fi) { srand(7); int k2 = I.solve(); c.subevals++; if (M.ints.empty()) { if (ref.feas ? !(k2 == 0 && fabs(I.w->global_U - ref.opt) <= 2.1e-3 * std::max(1.0, fabs(ref.opt))) : k2 != 1) c.fail(fmt("mixed-integer solve after an interrupted one: exit %d value %.9g, optimum %.9g ", k2, I.w->global_U, ref.opt) + M.P.shape()); } }
    return Out{k, x, U, n, in, fi, clean}; };
  Out full = run(-1, -1, -1); if (full.n < 1) throw Discard();
  if (!M.ints.empty() && (full.code != (ref.feas ? 0 : 1) || (ref.feas && fabs(full.U - ref.opt) > 2.1e-3 * std::max(1.0, fabs(ref.opt))))) throw Discard();   // weak relaxations (C20), not the signal's doing
  long at = -1, inst = -1, rem = -1; switch (s.weighted({8, 1, 1})) { case 0: at = 1 + (long)s.draw((uint64_t)full.n); break; case 1: inst = 1 + (long)s.draw((uint64_t)(full.inst / 2 - 1)); break; default: rem = 1 + (long)s.draw((uint64_t)(full.inst / 2 - 1)); }
  Out R = run(at, inst, rem); std::string what = fmt("mixed-integer solve (branching %d, selection %d) with SIGINT at square root %ld of %ld / solve start %ld / end %ld: exit %d value %.9g, true %s %.9g ", br, ns, at, full.n, inst, rem, R.code, R.U, ref.feas ? "optimum" : "infeasible", ref.opt) + M.P.shape();
  if (c.want_note) { print_mi(c.note, M); c.note << "  " << what << "\n"; }
  std::string d = prior.differs(); if (!d.empty()) c.fail("the caller's SIGINT " + d + " changed by a " + what);
  c.label(fmt("mixed: exit %d", R.code)); c.label("mixed: signal delivered", R.fired); double tol = 2.1e-3 * std::max(1.0, fabs(ref.opt)) + (M.ints.empty() ? 0 : 1e-2);
  if (R.code != 0 && R.code != 1 && R.code != 10 && R.code != 11) c.fail("undocumented exit of a " + what);
  bool judge = M.ints.empty() || R.clean; // with integers, relaxations start from a huge box and may be given up (C20's known finding)
  if (!judge) c.label("mixed: a relaxation was given up, verdict not judged");
  if (judge && R.code == 1 && ref.feas) c.fail("wrong verdict 'infeasible' of a " + what);
  if (judge && R.code == 0 && (!ref.feas || R.U > ref.opt + tol)) c.fail("wrong verdict 'optimal' of a " + what);
  if (R.code == 10 && (!ref.feas || R.U < ref.opt - tol)) c.fail("impossible incumbent of a " + what);
  if (!R.fired && R.code != full.code) c.fail("without any signal the exit changed: " + what);
  if (R.fired) c.nontrivial(M.P.hash() ^ (uint64_t)(at * 64 + inst + rem * 7 + br));
}
eng::Prop make_prop() {
  Prop p; p.id = "C19"; p.quick = 240000; p.thorough = 1200000; p.min_nontrivial_pct = 40;
  p.rule = "A SIGINT is delivered at a chosen instant of a solve (right after the handler is installed, at the k-th square root of the run for any k, right before the handler is removed), under a caller disposition of SIG_IGN or an own handler with flags and mask. The result must be bit for bit what a run with the iteration limit at the next check gives (exit -1 becoming -4), the caller's disposition must be back, and the next solve must be as after such a limited run. For mixed-integer solves an interrupted run may stop early but never gives a wrong definite verdict. Non-trivial: the signal arrived during the solve.";
  p.run = [](Ctx& c) { if (c.s.chance(75)) conic(c); else mixed(c); };
  return p;
}
