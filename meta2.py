BB = 'ecos_bb/ecos_bb.c'; BBP = 'ecos_bb/ecos_bb_preproc.c'
prop('C16', 'No memory error and no leak over any legal history of calls',
 'Any legal history of public calls - setup (accepted or refused), solves, settings changes, entry and full updates in any memory layout, cleanup keeping any number of result vectors, for conic and mixed-integer workspaces - reads and writes only memory it owns, has no undefined behaviour, frees every library allocation exactly once at cleanup, and leaves the kept result vectors valid and unchanged.',
 ['histories', 'inputs'], 'All problems x legal call histories x exits, including refused setups and verbose runs.',
 'Tests run without sanitizers and mostly one call sequence; leaks on refused setups or kept vectors are not observed.',
 ['src/preproc.c', EC, BB, BBP], [('allocation and cleanup', 'src/preproc.c ECOS_setup, ECOS_cleanup; ecos_bb/ecos_bb_preproc.c'), ('updates', 'src/ecos.c ECOS_updateData')],
 ['AddressSanitizer/UBSan reports', 'count of live library allocations'],
 'stateful PBT under AddressSanitizer/UBSan with allocation accounting', 'Random search over histories; a sanitizer report or a non-zero balance of allocations is a violation.')

prop('C17', 'Results never depend on the content of uninitialised memory',
 'Exit codes, returned vectors and statistics of any history of solves and updates (conic or mixed-integer, also when the node budget ends without an incumbent) are bit for bit the same whatever freshly allocated memory and the stack happen to contain.',
 ['inputs', 'histories', 'configurations'], 'All problems x histories x memory fill patterns.',
 'Tests run on whatever the allocator returns (often zeros), which hides reads of unset memory.',
 ['src/preproc.c', EC, 'src/kkt.c', BB, BBP], [('initialisation of the workspace', 'src/preproc.c ECOS_setup; src/ecos.c init'), ('node tree initialisation', 'ecos_bb/ecos_bb.c initialize_root, ecos_bb/ecos_bb_preproc.c')],
 ['returned vectors', 'return code', 'statistics'],
 'PBT on a MemorySanitizer build (no decision on an uninitialised value, nothing uninitialised handed out), and differential between runs with memory pre-filled with 0xFF, 0x00, 0x3C', 'Random search; exact tracking of uninitialised bytes through the library (libm excepted), three fill patterns for heap and stack in a fifth of the cases.')

prop('C18', 'Setup accepts exactly the inputs whose cone sizes add up and refuses the rest',
 'ECOS_setup and ECOS_BB_setup succeed exactly when l + sum(q) + 3*nex equals the number of rows of G. A refusal returns NULL, keeps no memory and leaves the caller\'s arrays bit for bit as they were; an accepted workspace records exactly the declared sizes and cone dimensions, starts from the documented default settings (or the caller\'s mixed-integer settings), and cleanup restores the arrays to rounding accuracy and releases everything.',
 ['inputs'], 'All problems x all declared splits of the rows between the cones, fitting or not, with and without equalities, empty G, conic and mixed-integer.',
 'One or two fixed problems with fitting sizes are set up by the tests; refusals are not exercised.',
 ['src/preproc.c', BBP], [('size check and allocation', 'src/preproc.c ECOS_setup'), ('bound rows', 'ecos_bb/ecos_bb_preproc.c socp_to_ecos_bb, ECOS_BB_setup')],
 ['returned workspace or NULL', 'workspace sizes and settings', 'caller arrays', 'count of live library allocations'],
 'PBT: exact acceptance predicate over generated size declarations', 'Random search over 700k declarations per quick run.')

prop('C19', 'Ctrl-C at any instant of a solve ends it cleanly and hides nothing',
 'A SIGINT that arrives at any instant between installation and removal of the solver\'s handler ends the solve at the next iteration check: the result is exactly what the same run limited to that iteration returns, with exit -4 in place of the iteration limit (or the definite or reduced-accuracy code the iterate deserves). The caller\'s signal disposition, flags and mask are restored, nothing stays pending, and later solves are unaffected. A mixed-integer solve interrupted in any relaxation may stop early but never reports a wrong "optimal" or "infeasible".',
 ['schedules', 'inputs'], 'All problems x all signal arrival points (every square root of the run, just after installation, just before removal) x caller dispositions.',
 'No test sends a signal.',
 ['src/ctrlc.c', EC, BB], [('handler installation', 'src/ctrlc.c init_ctrlc, remove_ctrlc, check_ctrlc'), ('interrupt check', 'src/ecos.c ECOS_solve'), ('interrupted relaxations', 'ecos_bb/ecos_bb.c solve_relaxation')],
 ['return code', 'returned vectors', 'sigaction(SIGINT)'],
 'PBT with injected signals: differential against iteration-limited runs, brute-force verdicts for mixed-integer solves', 'Random search; signal instants are every sqrt call of the library (interposed), not every machine instruction.')
BBS = [BB, BBP]
prop('C20', 'ECOS_BB\'s "optimal" is the optimum over all integer assignments',
 'For a bounded feasible mixed-integer program (booleans, bounded integers, continuous variables, any cones) ECOS_BB ends optimal within its node budget, and the returned point is integral within integer_tol, feasible, consistent with its slack and reported values, and optimal over all integer assignments within the gap tolerances - under every branching rule, node selection and tolerance setting. For boolean linear and second-order problems this is unconditional; where integer variables or exponential cones make a relaxation end without an answer (exit -1/-2), the verdict is not judged (listed finding).',
 ['inputs', 'configurations'], 'All mixed-integer programs of the stated kind x branching rules x node selections x tolerances x rand() states.',
 'The tests contain a handful of fixed mixed-integer problems with the default strategy.',
 BBS, [('node bounding and incumbents', 'ecos_bb/ecos_bb.c get_bounds'), ('branching rules', 'ecos_bb/ecos_bb.c get_branch_var_*, branch'), ('termination', 'ecos_bb/ecos_bb.c should_continue, get_global_L')],
 ['ECOS_BB_solve return code', 'w->x, w->y, w->z, w->s', 'w->global_U', 'w->info->pcost'],
 'PBT: brute-force enumeration of all assignments as reference', 'Random search over problems with up to about 12 booleans; the continuous rest of each assignment is solved by ECOS_solve and certified.',
 [('relaxations solved', 'every relaxation of a run with integer variables or exponential cones ended with an answer', 'ecos_bb/ecos_bb.c get_bounds')])

prop('C21', 'ECOS_BB says "infeasible" exactly when no integer assignment is feasible',
 'For bounded mixed-integer programs ECOS_BB returns "infeasible" exactly when no integer assignment is feasible - also when the continuous relaxation is feasible and only the search tree can tell - and never an incumbent for an infeasible problem; it gives up only when the node budget is used. (Unbounded problems reported infeasible are a listed finding.)',
 ['inputs', 'configurations'], 'All bounded mixed-integer programs, biased to infeasible ones, x search settings.',
 'One or two fixed infeasible instances at most; integer-infeasible problems with feasible relaxations are not covered.',
 BBS, [('infeasible nodes', 'ecos_bb/ecos_bb.c get_bounds, is_infeasible, check_infeasible_bool_var, check_infeasible_int_var'), ('exit code', 'ecos_bb/ecos_bb.c get_ret_code')],
 ['ECOS_BB_solve return code', 'w->global_U'],
 'PBT: brute-force feasibility as reference', 'Random search; same reference as C20.')

prop('C22', 'ECOS_BB\'s answer does not depend on search strategy, rand() or presentation',
 'Exit code and optimal value of a mixed-integer program are the same, within the gap tolerances, for all branching rules, node selections, pseudocost reliabilities and rand() states, and for all presentations of the same problem: permuted variables, rows and index lists, booleans declared as integers with 0/1 rows, complemented booleans, shifted integers, scaled objectives. Without integer variables the answer is that of ECOS_solve.',
 ['inputs', 'configurations'], 'All mixed-integer programs x pairs of search settings or presentations.',
 'No test compares strategies or presentations.',
 BBS, [('node selection', 'ecos_bb/ecos_bb.c get_next_node'), ('pseudocosts', 'ecos_bb/ecos_bb.c set_pseudocost_psi, get_branch_var_reliability_branching'), ('bound rows', 'ecos_bb/ecos_bb_preproc.c socp_to_ecos_bb')],
 ['ECOS_BB_solve return code', 'w->global_U', 'w->x'],
 'PBT: metamorphic comparison of two runs', 'Random search over problems with up to about 16 integer variables.')

prop('C23', 'Node budgets bound the work, and incumbents and bounds are always sound',
 'A mixed-integer solve branches fewer times than its node budget and solves a number of relaxations bounded by it; its exit says truthfully whether the budget ended the search and whether an incumbent exists; any incumbent is integral, feasible and not better than the optimum; min(lower bound, incumbent) never exceeds the optimum; a larger budget never gives a worse incumbent; a budget that is not needed changes nothing, bit for bit.',
 ['inputs', 'configurations'], 'All mixed-integer programs x node budgets x strategies.',
 'Tests run with the default budget to completion.',
 BBS, [('budget', 'ecos_bb/ecos_bb.c should_continue, get_ret_code'), ('incumbent', 'ecos_bb/ecos_bb.c store_solution, load_solution'), ('lower bound', 'ecos_bb/ecos_bb.c get_global_L')],
 ['ECOS_BB_solve return code', 'w->iter', 'w->global_U, w->global_L', 'w->x'],
 'PBT: brute-force reference and comparison of runs with different budgets', 'Random search; relaxations counted by interposing ECOS_solve.')

prop('C24', 'A mixed-integer workspace lives through updates like a fresh one',
 'Through any history of solves, strategy, tolerance and budget changes and single-entry updates of h and c on one mixed-integer workspace, each solve gives the exit and value of a fresh workspace with the current data, ecos_prob holds the returned solution, the caller\'s objective is the current one after every solve, and cleanup gives every array back.',
 ['histories', 'inputs'], 'All mixed-integer programs x histories of solves, settings changes and updates.',
 'The tests solve each mixed-integer workspace once or twice without updates.',
 BBS, [('updates', 'ecos_bb/ecos_bb.c updateDataEntry_h, updateDataEntry_c'), ('re-initialisation', 'ecos_bb/ecos_bb.c initialize_root, set_prob')],
 ['ECOS_BB_solve return code', 'w->global_U', 'w->ecos_prob->x', 'caller arrays'],
 'stateful PBT: fresh-workspace differential', 'Random search over histories of up to 6 operations.')

AMDF = 'external/amd/src/amd_order.c'
prop('C25', 'Orderings are permutations or errors, and their statistics are true',
 'For every square sparse pattern the ordering routine returns success and a permutation of the rows, or refuses an invalid pattern with the documented status; unsorted columns and duplicate entries give a valid ordering with the documented notice; the symmetry, nonzero and flop statistics are those of the matrix and of the factor that ordering produces; dense-row and aggressive-absorption controls never invalidate the result; the input is not modified and patterns of elimination-friendly shapes (trees, arrows, bands) get no or little fill.',
 ['inputs'], 'All square sparse patterns up to some dozens of rows, valid or not, x control settings.',
 'The tests only see the orderings of a few fixed problems through the solver, where a bad ordering still gives the right answer.',
 [AMDF, 'external/amd/src/amd_1.c', 'external/amd/src/amd_2.c', 'external/amd/src/amd_aat.c', 'external/amd/src/amd_preprocess.c', 'external/amd/src/amd_postorder.c', 'external/amd/src/amd_post_tree.c', 'external/amd/src/amd_valid.c'],
 [('ordering', AMDF + ' amd_l_order'), ('quotient graph elimination', 'external/amd/src/amd_2.c'), ('input checks', 'external/amd/src/amd_valid.c'), ('statistics', 'external/amd/src/amd_aat.c, amd_2.c')],
 ['return status', 'permutation', 'Info array'],
 'PBT: validity invariant plus dense symbolic elimination as reference for the statistics', 'Random search over structured and random patterns.')

prop('C26', 'The LDL factorization reproduces the matrix, and its solves invert it',
 'Symbolic analysis gives the elimination tree and column counts of the matrix; numeric factorization gives unit lower triangular L and diagonal D with L D L\' equal to the matrix up to rounding and the documented dynamic regularization, which touches a pivot exactly when it is not of the declared sign by the threshold; a zero pivot is reported at its index; forward, diagonal and backward solves invert the factors, and nothing else is written.',
 ['inputs'], 'All sparse symmetric matrices up to some dozens of rows x permutations x sign patterns x thresholds.',
 'The solver\'s iterative refinement hides small factorization errors from the tests.',
 ['external/ldl/src/ldl.c', 'src/kkt.c'], [('symbolic analysis', 'external/ldl/src/ldl.c LDL_symbolic2'), ('numeric factorization', 'external/ldl/src/ldl.c LDL_numeric2'), ('triangular solves', 'external/ldl/src/ldl.c LDL_lsolve2, LDL_dsolve, LDL_ltsolve')],
 ['L, D', 'return index', 'solution vectors'],
 'PBT: dense long-double factorization as reference', 'Random search.')

prop('C27', 'Scalings map multipliers to slacks, and cone algebra is consistent',
 'For any strictly interior slack/multiplier pair of linear and second-order cones, the scaling update reports "inside" and its W satisfies W z = W^-1 s = lambda, W^2 = eta^2 (2ww\' - J) in every way the code can apply it (W, W^-1, adding W^2, the stretched form); any pair outside is reported outside; cone product and division are inverse with identity e; pushing a vector into the cone leaves it inside and moves it along e only when needed; the initial point is interior; barrier values agree with their definition.',
 ['inputs'], 'All cone shapes x interior pairs over many orders of magnitude and distances to the boundary.',
 'The tests observe final solutions only; a slightly wrong scaling still converges on easy problems.',
 ['src/cone.c'], [('scaling update', 'src/cone.c updateScalings, getSOCDetails'), ('operators', 'src/cone.c scale, scale2add, unscale, conicProduct, conicDivision'), ('entering the cone', 'src/cone.c bring2cone, unitInitialization')],
 ['scaled vectors', 'lambda', 'inside/outside verdict', 'barrier value'],
 'PBT: closed-form long-double reference and algebraic identities', 'Random search; pairs whose determinants are below the library\'s safe-division threshold are not judged.')

prop('C28', 'Exponential-cone kernels and Wright omega are what they claim',
 'The Wright omega function satisfies w + log w = z to rounding for all finite z; barrier, gradient and Hessian of the exponential cone agree with their definitions (and satisfy the identities of a 3-logarithmically-homogeneous barrier) at every interior point; primal and dual membership tests accept every point clearly inside and reject every point clearly outside, over all magnitudes.',
 ['inputs'], 'All reals for omega; all interior and exterior points over many magnitudes for the cone kernels.',
 'The tests solve a handful of exponential-cone problems; kernels are not tested pointwise.',
 ['src/expcone.c', 'src/wright_omega.c'], [('Wright omega', 'src/wright_omega.c wrightOmega'), ('derivatives', 'src/expcone.c evalExpGradient, evalExpHessian, evalBarrierValue'), ('membership', 'src/expcone.c evalExpPrimalFeas, evalExpDualFeas')],
 ['function values', 'feasibility verdicts'],
 'PBT: long-double reference and defining equation', 'Random search, denser near the branch changes of the approximations.')

prop('C29', 'Sparse matrix and vector kernels equal dense arithmetic',
 'Products, transposed products, transposes, symmetric permutations with their index maps, copies, norms, dot products and updates of sparse matrices and vectors equal dense arithmetic up to rounding for every pattern, including empty rows, columns and matrices and unsorted columns, write exactly their output, and leave their input alone.',
 ['inputs'], 'All sparse matrices up to some dozens of rows and columns x all modes.',
 'The tests use the kernels only through solves of fixed problems.',
 ['src/spla.c', 'src/splamm.c'], [('products', 'src/spla.c sparseMV, sparseMtVm'), ('transpose and permutation', 'src/splamm.c transposeSparseMatrix, permuteSparseSymmetricMatrix'), ('vectors', 'src/spla.c norm2, norminf, eddot, vadd, vsubscale')],
 ['output arrays', 'index maps'],
 'PBT: dense reference', 'Random search.')

prop('C30', 'Equilibration is a positive diagonal scaling constant on cones, undone exactly',
 'After setup and after every data update the workspace holds the caller\'s G, A, h, b divided by positive finite row and column scales that are constant over every second-order and exponential cone, and c as given; badly scaled linear rows and columns are brought closer together; solving keeps it so; and replaced or released data are given back to rounding accuracy.',
 ['histories', 'inputs'], 'All problems x data scales over up to 16 decades x histories of solves and updates.',
 'The tests never look at the data of a workspace and use well-scaled problems.',
 ['src/equil.c', 'src/preproc.c'], [('scales', 'src/equil.c use_ruiz_equilibration, set_equilibration'), ('undoing', 'src/equil.c unset_equilibration, src/preproc.c ECOS_updateData, ECOS_cleanup')],
 ['w->G, w->A, w->h, w->b, w->c', 'scale vectors', 'caller arrays'],
 'stateful PBT: exact relation between original and scaled data', 'Random search over histories of up to 4 operations.')

prop('C31', 'The answer does not depend on how the library was built',
 'The same problem and settings give the same exit code, vectors and statistics, bit for bit, whether the library is built with 32- or 64-bit indices, with or without signal handling, printing, timing or detailed timing - for conic solves, re-solves after updates and mixed-integer solves; and builds without optimization, with dense second-order-cone blocks, without equilibration or with the alternative equilibration give the same verdict with a valid certificate and the same optimal value on well-posed problems.',
 ['configurations', 'inputs'], 'Nine build configurations x all problems x settings.',
 'The tests are built in one configuration.',
 ['include/glblopts.h', 'include/cone.h', EC, 'src/kkt.c', 'src/preproc.c', 'src/cone.c'], [('index type', 'external/SuiteSparse_config/SuiteSparse_config.h idxint'), ('options', 'include/glblopts.h, include/cone.h, include/ecos.h'), ('dense blocks', 'src/kkt.c kkt_update, src/preproc.c createKKT_U (CONEMODE)')],
 ['return codes', 'x, y, s, z', 'statistics'],
 'PBT: differential testing between builds', 'Random search; options are edited into copies of the headers, an option no longer spelt as expected is skipped.')

prop('C32', 'The system factored each iteration is the Newton system of the problem',
 'The permuted matrix in the workspace is always the symmetric system [0 A\' G\'; A 0 0; G 0 -V] of the current (equilibrated, possibly updated) data, up to the static regularization, with V = I at the start and V the Nesterov-Todd scaling (V z = s, V J V = eta^4 J) or mu times the barrier Hessian afterwards; the ordering is a permutation, the declared signs are those of a quasi-definite matrix, factorization succeeds for well-posed problems with pivots of those signs, and solving with any right-hand side leaves a small residual in that system without touching the inputs.',
 ['histories', 'inputs'], 'All problems x interior points x histories of solves and updates.',
 'A wrong entry usually slows convergence instead of changing an answer, and tests cannot see the matrix.',
 ['src/kkt.c', 'src/preproc.c', 'src/cone.c'], [('assembly', 'src/preproc.c createKKT_U'), ('updates', 'src/kkt.c kkt_init, kkt_update; src/preproc.c ECOS_updateData'), ('solution', 'src/kkt.c kkt_factor, kkt_solve')],
 ['KKT matrix', 'ordering and signs', 'solutions of the linear system'],
 'stateful PBT: dense long-double model of the system', 'Random search.')

prop('C33', 'What is printed is what is returned, quiet is silent, times are elapsed times',
 'With verbose off, setup, solve and cleanup print nothing. With it on, the result is bit for bit the same; iterations are printed once each in order with the costs of that iterate; a run with a smaller iteration limit prints the same iterations; the closing message names exactly the exit code returned and quotes the returned statistics; an iterate announced as recovered is the one returned; the mixed-integer progress shows one line per node with non-increasing incumbents and ends with the returned bounds. Reported setup and solve times are the elapsed clock times, never negative.',
 ['inputs', 'configurations'], 'All problems x tolerances x iteration limits x clock readings.',
 'Nothing reads the printed output or the times.',
 [EC, BB, 'src/timer.c'], [('messages', 'src/ecos.c printProgress, checkExitConditions, ECOS_solve'), ('mixed-integer progress', 'ecos_bb/ecos_bb.c print_progress'), ('timer', 'src/timer.c tic, toc')],
 ['standard output', 'return code', 'statistics', 'tsetup, tsolve'],
 'PBT: captured output against returned values, interposed clock', 'Random search.')

prop('C34', 'Iterates stay strictly inside the cones, each step a damped Newton step',
 'Along every solve the iterates stay strictly inside every cone with tau and kappa positive. The solve starts at the least-squares start (projected into the cones; at the central point if there are exponential cones). While the problem is numerically well behaved, each new iterate is the previous one plus step length times the predictor-corrector direction of the homogeneous self-dual embedding: residuals shrink by 1 - step (1 - sigma), the centering sigma is (1 - affine step)^3, the step length is gamma times the distance to the boundary (at most 0.999), shortened with exponential cones only while the point tried leaves a cone, lets one cone run ahead or misses the centrality bound - and not further than needed.',
 ['histories', 'inputs', 'configurations'], 'All problems x histories (update or solve before) x gamma, bk_scale, refinement limits x all iterations of the solve.',
 'A wrong term in the direction or line search costs iterations or robustness on some problems but seldom changes an answer in the tests.',
 [EC, 'src/cone.c', 'src/expcone.c', 'src/kkt.c'], [('directions', 'src/ecos.c RHS_affine, RHS_combined, ECOS_solve'), ('step length', 'src/ecos.c lineSearch, expConeLineSearch'), ('start', 'src/ecos.c init, src/cone.c bring2cone, unitInitialization')],
 ['iterates x, y, s, z, tau, kappa', 'statistics sigma, step, step_aff'],
 'PBT: differential testing of every iteration against a dense long-double model', 'Iterates are observed at the call of updateScalings (interposed). Steps count while mu >= 1e-5 of its start and static regularization moves the direction by less than 1e-5; a single late step slightly off is tolerated as rounding.')

prop('C35', 'Branch-and-bound explores the tree its strategy settings prescribe',
 'A mixed-integer solve starts from the root box, branches a node at a time and solves exactly the relaxations its rules ask for: the node picked is the lower (dive lower) or upper (dive upper) half just created while that is still branchable, otherwise an open node of lowest bound below the incumbent; its children are its box with the split variable at most floor and at least ceil of its relaxation value (0 and 1 for booleans), lower half first; every branchable relaxation is followed by that of its rounding. The split variable is fractional and chosen by the branching rule: fraction nearest 1/2; any; largest product of pseudocost gains (averages of the objective changes per unit seen so far, class average or 1 if none); strong branching, largest product of gains over both sides of every candidate, sides that are infeasible or worse than the incumbent being cut off the node; reliability, the same until more than reliable_eta gains are known on both sides, pseudocosts after. A node closes only if it is infeasible, integral or worse than the incumbent. Incumbent, lower bound, branching count, stop and exit follow from the relaxations seen.',
 ['histories', 'configurations'], 'All relaxation answers (points, values, exit codes) x branching rules x node selections x gaps, tolerances, reliabilities, budgets x rand() states.',
 'Wrong bookkeeping in the search is masked by redundancy on small examples: it costs nodes, or loses an optimum only in deep trees.',
 [BB], [('node selection', 'ecos_bb/ecos_bb.c get_next_node, branch'), ('branching rules', 'ecos_bb/ecos_bb.c get_branch_var_*'), ('bounds and incumbent', 'ecos_bb/ecos_bb.c get_bounds, should_continue')],
 ['bounds, exit code and point of every relaxation (calls of ECOS_solve)', 'return code', 'global_U, global_L, iter, x'],
 'PBT: model-based testing of the search against a reference branch-and-bound, relaxations replaced by a generated oracle', 'Random search; choices the rules leave open are accepted whatever they are.')

prop('C36', 'Large sparse problems: solved in few iterations, sparse factor, no allocation',
 'A well-posed sparse problem with up to thousands of variables and rows - staged systems, networks, hub rows or columns, second-order cones of hundreds of rows, sums of hundreds of exponential cones, block structures, trees, in any order of rows and columns - is solved to a certified optimum in a few dozen iterations. The factored system (second-order cones included) stays about as sparse as an exact minimum-degree ordering allows, the memory held after setup stays proportional to the data plus the factor, ECOS_solve allocates no memory, and updating the data leaves the memory held unchanged.',
 ['inputs', 'histories'], 'All sparse well-posed problems of these structures, 20..2000 variables, natural or scrambled order, solved and updated.',
 'The largest test problems are a handful of fixed files judged by exit code; a lost ordering or a dense cone block only costs time and memory there.',
 ['src/preproc.c', 'src/kkt.c', 'external/amd/src/amd_2.c', 'external/ldl/src/ldl.c', EC], [('assembly with sparse cone blocks', 'src/preproc.c createKKT_U'), ('ordering and allocation of the factor', 'src/preproc.c ECOS_setup (AMD_order, LDL_symbolic2)'), ('fixed work space of a solve', 'src/kkt.c kkt_solve, src/ecos.c ECOS_solve')],
 ['return code, x, y, s, z, iterations', 'number of entries of the factor', 'allocations'],
 'PBT: sparse problems with known interior points, certificate checker, exact minimum-degree reference, counting allocator', 'Random search.')
