#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  ./meta.py  rewrites both."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
TECH = 'property-based testing: generated problems/histories, explicit oracle, shrinking'
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a, _t=technique, _n=note))

EC = 'src/ecos.c'
prop('C01', 'An "optimal" exit is a certified optimal primal-dual point of the given data',
 'Whenever a solve reports "optimal" with default tolerances, the returned x, y, s, z, evaluated against the caller\'s original data, satisfy the equality and inequality constraints and stationarity up to a small relative residual, have s in the cone and z in the dual cone, and a duality gap (c\'x against -h\'z-b\'y, and s\'z) within tolerance. On well-posed problems the residual is at most 2e-6 (relative), the gap 2e-5 and the cone violation 3e-7; on arbitrary finite, moderately scaled data wide tolerances (1e-3, 0.3, 1e-5) apply.',
 ['inputs'], 'All conic programs over orthant, second-order and exponential cones (any mix, with or without equalities), data of moderate size (|entries| between about 1e-3 and 1e3).',
 'The tests check about 25 fixed problems, mostly only the exit code or one objective value; none recomputes residuals, cone membership and gap from the original data for arbitrary problems.',
 [EC, 'src/cone.c', 'src/expcone.c', 'src/kkt.c', 'src/equil.c'],
 [('termination test', 'src/ecos.c checkExitConditions'), ('scaling back to user data', 'src/ecos.c backscale'), ('staying inside the cones', 'src/ecos.c lineSearch, expConeLineSearch; src/cone.c updateScalings')],
 ['return code of ECOS_solve', 'w->x, w->y, w->s, w->z'],
 'PBT: certificate checker in long double over generated conic programs',
 'Random search: 900k problems per quick run up to ~150 rows; certificates recomputed from pristine copies of the data. Trusts the checker in src/common.hpp.')

prop('C02', 'Problems that have an optimum are solved, to the right value',
 'A well-posed problem (strictly feasible primal and dual, full-rank data, moderate scale) is reported optimal with its true optimal value to about six digits, never infeasible or unbounded; giving up (numerical problems, reduced accuracy) is a rare exception, below a few percent. This covers problems built around a known optimal pair and problems with a closed-form solution (norm, log-sum-exp, entropy, projection, trust-region and similar families).',
 ['inputs'], 'All well-posed conic programs with a primal and dual strictly feasible point; all parameter values of the closed-form families.',
 'The tests fix about 25 data sets; a solver that mishandles some sizes, cone orders or sign patterns passes them.',
 [EC, 'src/kkt.c', 'src/cone.c', 'src/expcone.c'],
 [('predictor-corrector loop', 'src/ecos.c ECOS_solve'), ('KKT factor/solve with refinement', 'src/kkt.c kkt_factor, kkt_solve'), ('starting point', 'src/ecos.c init')],
 ['return code', 'w->info->pcost', 'w->x'],
 'PBT: constructed optima and closed-form reference values',
 'Random search over constructed problems whose value is known independently of the solver; single failures to solve are tolerated, wrong values or verdicts never.')

prop('C03', 'Infeasible problems are reported infeasible, with a valid certificate',
 'A strongly infeasible problem (an interior multiplier proves it) is never reported optimal or unbounded, and almost always reported infeasible; an exit "primal infeasible" always comes with y, z such that z is in the dual cone, h\'z+b\'y is negative and G\'z+A\'y is small relative to it. No feasible problem is ever reported primal infeasible.',
 ['inputs'], 'All problems with a planted dual improving ray (random and structured families), plus arbitrary problems for the certificate clause.',
 'Two fixed infeasible problems are tested, by exit code only; no test inspects a certificate.',
 [EC], [('infeasibility test and certificate quality', 'src/ecos.c checkExitConditions, updateStatistics'), ('certificate scaling', 'src/ecos.c backscale')],
 ['return code 1', 'w->y, w->z', 'w->info->pinf'],
 'PBT: planted Farkas certificates, certificate checker', 'Random search; certificate residual relative to h\'z+b\'y checked against 1e-2..1e-3 with observed values below 1e-5.')

prop('C04', 'Unbounded problems are reported unbounded, with a valid ray',
 'A feasible problem with an interior recession direction of strictly decreasing cost is never reported optimal or primal infeasible, and almost always reported unbounded; an exit "unbounded" always comes with x, s such that s is in the cone, c\'x is negative and Gx+s, Ax are small relative to it. No problem whose dual is feasible is ever reported unbounded.',
 ['inputs'], 'All feasible problems with a planted improving ray (random and structured families), plus arbitrary problems for the ray clause.',
 'One fixed unbounded problem is tested, by exit code only.',
 [EC], [('unboundedness test and ray quality', 'src/ecos.c checkExitConditions, updateStatistics'), ('ray scaling', 'src/ecos.c backscale')],
 ['return code 2', 'w->x, w->s', 'w->info->dinf'],
 'PBT: planted recession directions, ray checker', 'Random search, as C03 for the dual side.')

prop('C05', 'Hostile data: always a documented exit in bounded iterations, no false verdict',
 'For any well-dimensioned input - dependent or contradictory rows, empty rows and columns, no interior, zero objective, magnitudes from 1e-300 to 1e300, NaN or infinite coefficients - setup and solve return, within the iteration limit, with one of the documented exit codes. With finite data of moderate size every verdict (optimal, infeasible, unbounded) is backed by its certificate within wide tolerances, and data containing a NaN never receives a verdict.',
 ['inputs'], 'All finite or non-finite inputs of consistent dimensions, iteration limits and refinement limits.',
 'The tests use well-behaved data; one NaN-related test exists. Degenerate structure and extreme magnitudes are combinatorial.',
 [EC, 'src/equil.c', 'src/kkt.c', 'src/expcone.c'],
 [('safeguards and best-iterate recovery', 'src/ecos.c ECOS_solve'), ('regularisation', 'src/kkt.c kkt_factor'), ('small-norm guard', 'src/equil.c use_ruiz_equilibration')],
 ['termination', 'return code', 'w->info->iter', 'returned vectors'],
 'PBT/fuzzing: hostile data generator, termination + certificate oracle', 'Random search, 600k problems per quick run; a case exceeding 20 s of CPU counts as a hang.')

prop('C06', 'Reported statistics describe the returned point',
 'After every solve, the reported primal and dual cost, duality gap, relative gap, primal and dual residual, infeasibility measures, kappa/tau, mu, infeasibility flags, iteration, refinement and backtracking counters, centering and step lengths and times agree with what the returned vectors and the original data give when recomputed, whatever the exit and whichever iterate was returned.',
 ['inputs', 'configurations'], 'All problems, exits (full accuracy, limits, give-ups with recovery of an earlier iterate), tolerances and refinement limits.',
 'Tests read single fields (exit code, pcost) on a few problems and never recompute the others.',
 [EC], [('statistics', 'src/ecos.c updateStatistics, computeResiduals'), ('best iterate bookkeeping', 'src/ecos.c saveIterateAsBest, restoreBestIterate')],
 ['w->info', 'w->x, w->y, w->s, w->z, w->tau, w->kap'],
 'PBT: independent recomputation in long double', 'Random search; residuals are recomputed on the equilibrated scale the solver documents, using its own scaling vectors.')

prop('C07', 'Settings are honoured: tolerances, reduced-accuracy codes, limits, verbosity',
 'Settings start at their documented defaults; a verdict is given exactly when the requested (or, for "close to" exits, the reduced) tolerances hold for the reported measures; loosening tolerances never makes a run longer; the limits on iterations, refinement steps and backtracking steps are never exceeded, and step fraction, backtracking factor, centrality bound and pivot regularization act as set. Verbosity, and a refinement limit above what is used, change nothing in the result.',
 ['inputs', 'configurations'], 'All problems x all combinations of six tolerances, iteration, refinement and backtracking limits, step and regularization parameters and verbosity.',
 'Tests run with default settings (a couple with changed tolerances).',
 [EC, 'src/preproc.c', 'include/ecos.h', 'src/kkt.c'], [('defaults', 'src/preproc.c ECOS_setup'), ('exit tests', 'src/ecos.c checkExitConditions'), ('refinement limit', 'src/kkt.c kkt_solve')],
 ['w->stgs', 'return code', 'w->info', 'standard output'],
 'PBT: metamorphic relations between settings', 'Random search over settings vectors.')

prop('C08', 'An iteration limit only cuts the run short and returns the best iterate so far',
 'With limit k below the N iterations of the full run the solver stops after exactly k iterations with an iteration-limit or reduced-accuracy code; limits of at least N change nothing. The point returned for limit k is either bit for bit the one returned for limit k-1 or has strictly smaller duality gap and mu; an iterate that improves every measure is never passed over, and a run that gives up returns a point no worse than its limited runs.',
 ['inputs', 'histories'], 'All problems, tolerances and every limit k = 0..N+.',
 'No test sets an iteration limit on a run that needs more, so the best-iterate bookkeeping is never observed.',
 [EC], [('best iterate', 'src/ecos.c compareStatistics, saveIterateAsBest, restoreBestIterate'), ('limit test', 'src/ecos.c ECOS_solve')],
 ['return code', 'w->info->iter', 'returned vectors for each limit'],
 'PBT: prefix/monotonicity relation over all iteration limits', 'Random search; for each problem every limit is run.')

prop('C09', 'Answers do not depend on how the problem is written down',
 'Permuting or negating variables, permuting or negating equalities, permuting inequalities, second-order cones, entries within them or exponential cones, storing explicit zeros, listing row indices of a column in any order, or passing no equality matrix instead of an empty one leaves the status and the optimal value unchanged, and the result carried back is optimal (or a certificate) for the original form.',
 ['inputs'], 'All well-posed, infeasible and unbounded problems x all such rewritings and their combinations.',
 'Each test writes its problem in one way only.',
 ['src/preproc.c', 'src/splamm.c', 'src/cone.c', 'src/kkt.c'], [('KKT assembly', 'src/preproc.c createKKT_U'), ('transpose', 'src/splamm.c transposeSparseMatrix'), ('cone offsets', 'src/cone.c')],
 ['return code', 'returned vectors', 'objective value'],
 'PBT: metamorphic relations with carried-back certificates', 'Random search over compositions of rewritings.')

prop('C10', 'Changes of units and translations move the answer exactly as they should',
 'Scaling the objective, scaling right-hand sides, scaling inequality rows or whole cones by positive numbers, scaling equalities or variables by non-zero numbers, and translating the variables leave the status unchanged and transform optimal value and solution as the algebra prescribes, up to solver accuracy (factors up to about 30).',
 ['inputs'], 'All well-posed, infeasible and unbounded problems x all such scalings and translations.',
 'Each test has one scaling.',
 ['src/equil.c', EC], [('equilibration', 'src/equil.c'), ('scaling back', 'src/ecos.c backscale')],
 ['return code', 'returned vectors', 'objective value'],
 'PBT: metamorphic relations with carried-back certificates', 'Random search over compositions of scalings.')

prop('C11', 'Equivalent reformulations give the same answer',
 'Rewriting a problem by a textbook identity - an inequality as a one-dimensional second-order cone, a two-dimensional cone as two inequalities, reflections and Lorentz boosts of second-order cones, zero padding, shears of exponential cones, redundant rows, substituted variables, explicit slacks, an epigraph variable, or the explicit dual - leaves the status unchanged and the optimal value equal, and the full primal-dual result carried back verifies against the original.',
 ['inputs'], 'All well-posed, infeasible and unbounded problems x 14 reformulations and their compositions.',
 'No test solves the same problem in two formulations.',
 [EC, 'src/cone.c', 'src/expcone.c', 'src/kkt.c'], [('treatment of each cone kind', 'src/cone.c, src/expcone.c'), ('embedding', 'src/ecos.c')],
 ['return code', 'returned vectors', 'objective value'],
 'PBT: differential between reformulations with carried-back certificates', 'Random search over compositions of reformulations.')

prop('C12', 'The caller\'s data and signal handler are given back, whatever happened',
 'After every solve the objective vector, and after cleanup every numeric array passed in, holds its original numbers up to a few roundings (exact zeros stay zero), index arrays and cone sizes are untouched, nothing outside the arrays is written, and the caller\'s SIGINT disposition is back in place. This holds for any number of solves and for every kind of exit.',
 ['inputs', 'histories'], 'All problems x histories of solves under changing settings, ending with cleanup keeping any number of vectors.',
 'Tests do not look at their input arrays after solving.',
 [EC, 'src/equil.c', 'src/preproc.c', 'src/ctrlc.c'], [('unscaling', 'src/equil.c unset_equilibration; src/preproc.c ECOS_cleanup; src/ecos.c ECOS_solve'), ('handler', 'src/ctrlc.c init_ctrlc, remove_ctrlc')],
 ['caller arrays', 'SIGINT disposition'],
 'stateful PBT: histories with guarded arrays compared with pristine copies', 'Random search over histories.')

prop('C13', 'Solving again on the same workspace gives what a fresh workspace gives',
 'Each solve of a history of solves on one workspace, under settings changed in between, returns what a newly set up workspace with the same settings returns: bit for bit when the internal scaling of the data is the identity, otherwise (full-accuracy runs of problems with an optimum) the same status with an equally certified result.',
 ['histories', 'inputs', 'configurations'], 'All problems x histories of 2..5 solves with limits, tolerances and refinement limits changed between them.',
 'Only one or two tests solve twice; none after an interrupted or limited run.',
 [EC, 'src/preproc.c'], [('re-initialisation', 'src/ecos.c init'), ('objective scaling', 'src/ecos.c ECOS_solve')],
 ['return code', 'returned vectors', 'w->info'],
 'stateful PBT: differential against a fresh workspace', 'Random search over histories; bitwise oracle.')

prop('C14', 'Updating the numbers equals setting the new problem up afresh',
 'After replacing all data (in new arrays, in the same arrays rewritten in place, with some arrays shared, in adjacent memory) or single entries of h or c, the next solve returns what a fresh workspace on the current numbers returns: bit for bit after an update of all data and whenever scaling is the identity, otherwise the same certified status. Arrays replaced by an update to disjoint memory hold their original numbers again, as do the current ones after cleanup.',
 ['histories', 'inputs'], 'All problems x histories of solves and updates.',
 'A few tests update one fixed problem and compare an objective; memory layouts, entry updates and mixed histories are not explored.',
 [EC, 'src/equil.c'], [('update', 'src/ecos.c ECOS_updateData, ecos_updateDataEntry_h, ecos_updateDataEntry_c'), ('overlap rule', 'src/ecos.c ECOS_updateData')],
 ['return code', 'returned vectors', 'old and new arrays'],
 'stateful PBT: differential against a fresh workspace', 'Random search over histories; bitwise oracle.')

prop('C15', 'Workspaces do not influence one another',
 'The results of any history of setups, solves and entry updates on one workspace (continuous or mixed-integer) are bit for bit the same whether it runs alone, interleaved call by call with histories on other workspaces, or in parallel with them: preempted by them at any point inside any library call. (Only process-wide facilities of the C library are excepted: the SIGINT disposition and the stream behind rand().)',
 ['histories', 'schedules'], 'All tuples of 2..4 histories, call-level interleavings and preemptive schedules with basic-block granularity; operating-system thread schedules.',
 'Tests use one workspace at a time.',
 ['src/preproc.c', EC, 'src/kkt.c', 'ecos_bb/ecos_bb.c', 'src/timer.c'], [('all state lives in the workspace', 'include/ecos.h pwork')],
 ['returned vectors', 'w->info'],
 'stateful PBT: interleaved, deterministically preempted and threaded runs against lone runs', 'Random search; preemption at basic-block granularity under generated, reproducible schedules; sequentially consistent (weak memory effects only via the operating-system threads).')

NA = []
exec(open(os.path.join(V, 'meta2.py')).read()) if os.path.exists(os.path.join(V, 'meta2.py')) else None

def main():
    from props import PROPS
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks = [dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'], technique=p['_t'], level='exploration', level_note=p['_n']) for p in P if p['id'] in PROPS]
    na = [dict(property=i, reason=r) for i, r in NA] + [dict(property=p['id'], reason='check not built yet') for p in P if p['id'] not in PROPS and p['id'] not in [i for i, _ in NA]]
    m = dict(version=1, setup_cmd='./check --build-all', checks=checks, not_applicable=na,
             notes='Property-based testing of embotech/ecos. ./check ID [quick|thorough] [--seed N] [--replay FILE]; see DESIGN.md. Repairs of genuine defects are listed in known_findings.txt.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

if __name__ == '__main__':
    import sys; sys.path.insert(0, V); main()
