// C31: the answer does not depend on how the library was built.
#include "so.hpp"
eng::Prop make_prop() {
  Prop p; p.id = "C31"; p.quick = 100000; p.thorough = 800000; p.min_nontrivial_pct = 30;
  p.rule = "Any conic program (solvable, infeasible, unbounded, rank-deficient, badly scaled), one or two solves on a workspace with a data update in between, drawn settings, or a mixed-integer program under a drawn strategy, solved by builds of the same sources with 32-bit indices, without signal handling, without printing and timing, with detailed timing (these must agree with the reference build to the last bit: exit code, x, y, s, z, statistics), and unoptimized, with dense second-order cone blocks, without equilibration, with the alternative equilibration (these must give the same verdict and a valid certificate on well-posed problems, optimal values to 1e-5). Non-trivial: the solver made at least one iteration.";
  p.run = [](Ctx& c) {
    Src& s = c.s; auto& Ls = libs({{"base", true}, {"int", true}, {"noctrlc", true}, {"quietp", true}, {"prof2", true}, {"O0", false}, {"dense", false}, {"noequil", false}, {"altequil", false}}); if (Ls.size() < 2) throw Discard();
    if (s.chance(15)) { MiOpt o; o.exp = s.chance(15); o.maxint = s.chance(30) ? 2 : 0; MiProb M = gen_mi(c, o); if (c.want_note) print_mi(c.note, M); long maxit = s.chance(20) ? s.range(1, 10) : 400; long cnt[4] = {maxit, (long)s.range(0, 4), (long)s.range(0, 2), (long)s.range(0, 8)}; OutBB r0; bool first = true; if (c.want_note) c.note << fmt("  maxit %ld branching %ld selection %ld reliability %ld\n", cnt[0], cnt[1], cnt[2], cnt[3]);
      for (auto& L : Ls) { if (!L.same) continue; OutBB r = call_bb(L, M, cnt); c.subevals++; if (first) { first = false; r0 = r; if (r.code == -99) c.fail("ECOS_BB_setup refused " + M.P.shape()); } else if (!same_bb(r0, r)) c.fail(fmt("mixed-integer result differs in configuration %s: exit %ld and %ld, values %.17g and %.17g, nodes %g and %g ", L.name.c_str(), r0.code, r.code, r0.info[2], r.info[2], r0.info[1], r.info[1]) + M.P.shape()); }
      c.label("mixed-integer"); c.label(fmt("mixed-integer exit %ld", r0.code)); c.nontrivial(M.P.hash()); return; }
    GenOpt o; o.huge_pct = 1; o.maxcols = 6; o.maxrows = 10; bool known = s.chance(55); int kind = 0; Known K; Prob P; if (known) { kind = s.weighted({4, 3, 2, 2}); K = kind == 0 ? gen_solvable(c, o) : kind == 1 ? gen_known_opt(c, o) : kind == 2 ? gen_pinf(c, o) : gen_dinf(c, o); P = K.P; } else P = gen_any(c, o);
    double num[6] = {1e-8, 1e-8, 1e-8, 1e-4, 5e-5, 5e-5}; long cnt[3] = {9, 100, 0}; bool drawn = !known && s.chance(40); if (drawn) { num[0] = s.logpos(-9, -4); num[1] = s.logpos(-9, -4); num[2] = s.logpos(-9, -4); cnt[0] = s.range(0, 9); cnt[1] = s.range(0, 30); }
    Prob U; bool up = s.chance(30); if (up) { U = P; for (auto& v : U.G.pr) v *= s.pos_in(.9, 1.1); for (auto& v : U.c) v += s.val(.2); for (auto& v : U.h) v += s.val(.2); }
    if (c.want_note) { P.print(c.note); if (up) { c.note << "then\n"; U.print(c.note); } } const Prob& F = up ? U : P; std::string sh = " " + P.shape(); label_shape(c, P);
    Out r0; bool first = true; for (auto& L : Ls) { Out r = call(L, P, up ? &U : nullptr, num, cnt); c.subevals++; if (first) { first = false; r0 = r; if (r.code == -99) c.fail("setup refused" + sh); c.label("exit " + code_name((int)r.code)); if (r0.info[6] >= 1) c.nontrivial(P.hash()); continue; }
      if (r.code == -99) c.fail("setup refused in configuration " + L.name + sh);
      bool eq = r.code == r0.code && nbits(r.x, r0.x) && nbits(r.y, r0.y) && nbits(r.s, r0.s) && nbits(r.z, r0.z) && biti(r.info, r0.info, 9);
      if (L.same) { if (!eq) c.fail(fmt("result differs in configuration %s: exit %ld and %ld, objective %.17g and %.17g, %g and %g iterations", L.name.c_str(), r0.code, r.code, r0.info[0], r.info[0], r0.info[6], r.info[6]) + sh); continue; }
      c.label(L.name + ": identical to the bit", eq); if (!known || up) continue;
      int expc = kind <= 1 ? 0 : kind == 2 ? 1 : 2; if (r0.code != expc) { c.label("reference build not clean"); continue; }
      if (r.code != expc) { if (r.code == -2 || r.code == expc + 10 || r.code == -1) { c.label(L.name + ": not clean"); continue; } c.fail(fmt("configuration %s gives exit %ld, the reference build %ld", L.name.c_str(), r.code, r0.code) + sh); }
      std::string e = expc == 0 ? certify_optimal(F, r.sol(), 1e-5, 1e-4, 1e-8) : expc == 1 ? certify_pinf(F, r.sol(), 1e-3) : certify_dinf(F, r.sol(), 1e-3); if (e != "") c.fail("configuration " + L.name + ": " + e + sh);
      if (expc == 0 && !(fabs(r.info[0] - r0.info[0]) <= 1e-5 * (1 + fabs(r0.info[0])))) c.fail(fmt("configuration %s finds %.12g, the reference build %.12g", L.name.c_str(), r.info[0], r0.info[0]) + sh); c.label(L.name + ": same verdict"); }
  };
  return p;
}
