#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NLPF = ['src/Interfaces/BonTMINLP2TNLP.cpp', 'src/Interfaces/BonTMINLP2TNLP.hpp']
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, **kw))

prop('C01', 'NLP relaxations carry exactly the bounds and types last set',
 "After any sequence of operations that set bounds or types of variables (all at once, one side, or one variable), the continuous relaxation handed to the NLP solver reports for every variable exactly the bound or type last set for it, and every other variable, the constraint bounds and the originally given bounds are untouched. A relaxation freshly built from the user's problem carries exactly the user's bounds, variable types, starting point, sizes and index style.",
 ['inputs', 'histories'], 'every problem size, every index and value, every order of calls',
 'A wrong index, a swapped side or an aliased original-bounds vector only shows for particular sizes and call orders; the test solves one fixed model.',
 NLPF, [('bound setters and getters', 'TMINLP2TNLP::SetVariable*Bound*, SetVariableType, get_bounds_info, x_l/x_u/g_l/g_u/orig_x_* accessors'), ('construction', 'TMINLP2TNLP::TMINLP2TNLP(tminlp)')],
 'postcondition and frame of each bound/type operation and of the constructor; a history keeps the property because every operation re-establishes it')
prop('C02', 'Starting points reach the NLP solver exactly as they were set',
 "When the NLP solver asks for a starting point it gets, in the layout it expects (lower-bound, upper-bound and constraint multipliers), exactly the primal point and multipliers last set, or the user's point when none is set. A request for multipliers that are not available is refused, parts that were not requested are left alone, setting one part keeps the other, and forgetting the starting point forgets all of it.",
 ['inputs', 'histories'], 'every size, every stored-start state (none, primal, primal and dual) and every combination of requested parts',
 'Dual warm starts with partial requests and re-allocation between calls are not exercised by the test; an off-by-n in the layout silently degrades or corrupts warm starts.',
 NLPF, [('start storage', 'TMINLP2TNLP::setxInit, setDualsInit, resetStartingPoint, has_x_init, get_starting_point')],
 'representation invariant (duals stored right after the primals in live storage) plus postconditions, per stored-start state')
prop('C03', 'Stored NLP results are what the solver reported; rounding re-evaluates',
 "After an NLP solve the stored point, constraint activities, multipliers (in lower, upper, constraint order), status and objective are exactly those reported by the solver, except that for a locally infeasible problem the objective is the constraint violation when it is available. Verifying a solution rounds exactly the integer-constrained entries to the nearest integer, re-evaluates objective and constraints at the rounded point, stores those values and returns the largest constraint violation there.",
 ['inputs', 'histories'], 'every size, point, multiplier vector and status; any list of branching objects',
 'A transposed multiplier block, an entry not rounded or a stale activity only matters on models whose values differ in the affected entries.',
 NLPF, [('result storage', 'TMINLP2TNLP::finalize_solution, Set_x_sol, Set_dual_sol, x_sol/g_sol/duals_sol/obj_value'), ('solution check', 'TMINLP2TNLP::check_solution')],
 'postconditions with spec folds for repeated rounding and the running maximum, proved by induction')
prop('C04', 'Copies of an NLP relaxation are faithful and independent',
 "Copying, cloning or assigning an NLP relaxation yields one with the same problem, bounds, original bounds, types, starting point (primal and dual), results, status and settings, and the copy shares no modifiable storage with the original. Later changes to either therefore never show in the other.",
 ['inputs', 'histories'], 'every reachable state of the source (with or without starts and results) and every size',
 'Copies are made inside the tree search; a shared or stale buffer only shows after a particular later modification of one of the two.',
 NLPF, [('copying', 'TMINLP2TNLP copy constructor, operator= and clone')],
 'field-by-field equality, separation of every buffer, source unchanged, for each shape of the source')
prop('C05', "The NLP solver's evaluation requests are answered by the user's functions",
 "Every request of the NLP solver for objective, constraints, derivatives, their sparsity structure, scaling or linearity is passed to the user's problem once, with the same arguments and the same meaning, and the user's values and success flag come back unchanged and complete. Reported sizes and index style are those of the problem.",
 ['inputs'], 'every point, size, multiplier vector, structure-or-values mode',
 'The test evaluates one tiny model; mixed-up arguments (new-point flags, factors, structure calls) are invisible on most models.',
 NLPF, [('forwarding', 'TMINLP2TNLP::eval_*, get_nlp_info, get_scaling_parameters, get_*_linearity, evaluateUpperBoundingFunction')],
 'each call is checked to make exactly one user callback with equal arguments and to return its outputs; user callbacks are assumed to write only their documented outputs')

OSIF = ['src/Interfaces/BonOsiTMINLPInterface.cpp', 'src/Interfaces/BonOsiTMINLPInterface.hpp']
prop('C06', 'The solver interface shows branch-and-bound the current relaxation',
 "What branch-and-bound reads through the solver interface (bounds, types, row senses, right-hand sides and ranges, point, multipliers, activities, objective, limits) is that of the current NLP relaxation, with the documented conversions. Changing one bound or type changes exactly that entry, and any change of bounds, types or starting point makes the old solution no longer reported as current. Parameters the interface cannot honour are refused, others read back as set.",
 ['inputs', 'histories'], 'every size, index, value and order of modifications and solves',
 'Row-type corner cases (free, ranged, equal), stale solutions after a bound change and per-index updates need particular models and call orders.',
 OSIF + NLPF, [('modification', 'OsiTMINLPInterface::setColLower/Upper/setInteger/setContinuous/setColSolution/setRowPrice'), ('queries', 'getColSolution, getRowPrice, getRowSense, extractSenseRhsAndRange, is*, get/setDblParam')],
 'postcondition and frame of every query and modifier of the interface')
prop('C07', 'Outcomes of NLP solves are classified faithfully',
 "A relaxation is reported optimal, infeasible, unbounded or stopped exactly when the NLP solver's documented status says so; every other status is a failure, and unrecoverable failures are raised as errors rather than returned. A problem whose variables are all fixed is decided by evaluating it at the fixed point: solved if every constraint holds within tolerance, infeasible otherwise. Strong-branching solves do not disturb the remembered status, and an alternative objective is evaluated exactly at integer optimal points, keeping the best.",
 ['inputs', 'fault_sequences'], 'every solver status, every point and bounds, every size',
 'Rare solver statuses and near-tolerance fixed problems cannot be provoked by the single example; misclassifying one prunes good nodes or accepts bad ones.',
 OSIF + ['src/Interfaces/BonTNLPSolver.cpp', 'src/Interfaces/Ipopt/BonIpoptSolver.cpp'], [('status map', 'IpoptSolver::solverReturnStatus, OptimizeTNLP, ReOptimizeTNLP'), ('fixed problems', 'TNLPSolver::zeroDimension'), ('interface', 'solveAndCheckErrors, is* queries, mark/solveFrom/unmarkHotStart')],
 'postconditions on every path, with the external solver as an arbitrary status and result')
prop('C08', 'Retries of an NLP keep the best outcome and stop at the first success',
 "When a relaxation is re-solved to look for a better local optimum, the point, multipliers, objective and status kept all belong to the best solved outcome seen, including the original one. When it is re-solved because it failed, the first retry is from the original starting point, later ones from random points, none uses warm-start information, retries end at the first usable outcome, and only when every one failed is the node given up or an error raised, as configured. Random starting points lie within the variable bounds, and retries happen exactly when the outcome and the settings call for them.",
 ['inputs', 'histories', 'fault_sequences'], 'every number of retries, every sequence of solver outcomes, every bounds and random numbers in [0,1]',
 'The sequences of outcomes that matter (better, then worse, then failed; all failed) do not occur on the test model, and failures cannot be provoked on demand.',
 OSIF, [('best of several', 'OsiTMINLPInterface::resolveForCost'), ('failure', 'resolveForRobustness, randomStartingPoint'), ('policy', 'initialSolve, resolve')],
 'the kept outcome is proved equal to a specification fold over all outcomes by induction; solves inside are represented by the contract of C07')
prop('C09', 'Outer-approximation cuts are valid linearisations',
 "Asked for outer-approximation cuts at a point, the interface adds exactly one cut per nonlinear constraint, in constraint order, and, when wanted, one for the objective; linear constraints get none. Each cut is the linearisation at that point of its constraint (of the side the multiplier points to, if both sides are finite) or of the objective with the epigraph variable, up to negligible coefficients, whose removal is paid for with the variable bound that keeps the cut valid: every point within the variable bounds at which the linearised constraint holds satisfies the cut. Cuts are marked globally valid exactly when asked, and the sparsity structure used is 0-based whatever the user's index style.",
 ['inputs'], 'every size, sparsity pattern, constraint type pattern, bounds, point, derivative values, tolerance setting and output level',
 'Coefficient cleaning and two-sided rows depend on magnitudes and signs that the test model never produces; a cut that is wrong in one coefficient loses optimal solutions silently.',
 OSIF, [('cuts', 'OsiTMINLPInterface::getOuterApproximation, cleanNnz'), ('structure', 'initializeJacobianArrays')],
 'each cut is proved equal to a specification fold over the Jacobian entries; validity is an induction lemma over those folds')
prop('C10', 'The extracted linear relaxation contains every feasible point',
 "The linear program extracted for the MILP-based algorithms has one column per variable with its bounds and integrality, each linear constraint with its own coefficients and sides, and each nonlinear constraint linearised at the given point on the side the multiplier points to; only two-sided nonlinear constraints with zero multiplier are left out, and every row kept has its own sides. Coefficients removed as negligible are paid for in the row's sides so that every point within the bounds satisfying the linearised constraints satisfies the rows. A linear objective is copied with its constant; any other gets a free epigraph variable bounded below by the linearised objective.",
 ['inputs'], 'every size, sparsity pattern, mix of linear and nonlinear constraints, sides, multipliers, point and tolerance setting',
 'The test model has no two-sided nonlinear row, no negligible coefficient and no objective constant; an invalid relaxation silently loses solutions.',
 OSIF, [('rows', 'OsiTMINLPInterface::extractLinearRelaxation, cleanNnz'), ('objective', 'addObjectiveFunction')],
 'the arrays given to the LP solver are proved equal to specification folds; validity is an induction lemma over those folds')

prop('C11', 'The feasibility problem is the documented one and its derivatives match it',
 "The auxiliary NLP used by the feasibility pump and local branching heuristics minimises the documented combination of objective and distance to the given point, over the original constraints plus, exactly when asked for, a cutoff on the original objective and a bound on the distance. In every configuration its sizes, bounds, Jacobian and Hessian (structure and values) are those of that problem, and what the wrapped problem is told never mentions the extra constraints. The interface configures it afresh for each use, solves it and not the original, and returns to the original problem.",
 ['inputs', 'configurations', 'histories'], 'every problem size, point, norm, weight, combination of extra constraints, index style and order of use',
 'The test never runs these heuristics; a wrong Jacobian offset corrupts memory and a wrong cutoff row silently rejects improving solutions.',
 ['src/Interfaces/BonTNLP2FPNLP.cpp', 'src/Interfaces/BonTNLP2FPNLP.hpp'] + OSIF, [('functions and derivatives', 'TNLP2FPNLP::eval_*'), ('configuration', 'OsiTMINLPInterface::switchToFeasibilityProblem, solveFeasibilityProblem')],
 'postconditions on every evaluation method, per configuration')

prop('C12', 'Branch-and-bound reports exactly what the search established',
 "Whatever happens in a run (completed search, limit, interrupt, failed solve, no integer variables, no time left), the user's problem is told the outcome exactly once, with the solution and objective kept, and the outcome agrees with the status reported: optimality is claimed only with a solution and after a completed search, infeasibility only when the search completed without one, and a run stopped early claims no more than feasibility. A failed solve is told as an error without a solution and the error is raised again. The search runs on a copy of the relaxation solver, with the gaps, cutoff, tolerances, limits and failure policy set by the user and no more time than is left.",
 ['inputs', 'configurations', 'fault_sequences', 'histories'], 'every outcome of the search and of the solves, every setting, problems with and without integer variables, NLP-based and LP-based search, and every state left by an earlier run',
 'The test only sees one completed, successful search; limits, interrupts, failures and numerical difficulties take the other paths.',
 ['src/CbcBonmin/BonCbc.cpp', 'src/CbcBonmin/BonCbc.hpp', 'src/CbcBonmin/BonCbcNlpStrategy.cpp'], [('search and report', 'Bab::branchAndBound, Bab::bestBound')],
 'Cbc is represented by an arbitrary final state and by arbitrary UnsolvedError exceptions; the parameters it receives are obligations at the call of the search')

prop('C13', 'Infeasible and unsolved nodes are treated as configured',
 "A node reported infeasible or unsolved by the NLP solver is branched on while the number of consecutive such nodes on its branch (including itself) is within the configured limit; an unsolved node beyond the limit is fathomed, or stops the search with an error, as configured, and the failure is remembered; every other node is left to the normal rules. To branch on such a node every free integer variable is made fractional and the objective very low, to fathom it the objective is made very high, and nothing else changes. The counts kept with a node are one more than its parent's when its own relaxation failed (or was infeasible) and zero otherwise.",
 ['histories', 'inputs', 'fault_sequences', 'configurations'], 'every sequence of node outcomes, every limit and failure policy, every problem size and solution',
 'Consecutive failures and infeasible ancestors cannot be provoked on the test model; a wrong count prunes feasible subtrees or never stops.',
 ['src/CbcBonmin/BonCbcNlpStrategy.cpp', 'src/CbcBonmin/BonCbcNode.cpp', 'src/Interfaces/BonTMINLP2TNLP.cpp', 'src/Interfaces/BonOsiTMINLPInterface.hpp'], [('decision', 'CbcNlpStrategy::status'), ('counts', 'BonCbcPartialNodeInfo constructors'), ('branching point', 'OsiTMINLPInterface::forceBranchable, TMINLP2TNLP::force_fractionnal_sol')],
 'postconditions per kind of parent node; the solver reports are arbitrary')

prop('C14', 'Decomposition algorithms check integer points with the right NLP and cuts',
 "An LP point is taken as integer exactly when every integer variable is within tolerance of an integer; it is then checked by the NLP with exactly the integer variables fixed at the rounded point (bounds of the others untouched), the NLP solution is offered as incumbent exactly when it is solved and improves the cutoff, and it is offered unchanged with its objective. Cuts at that NLP solution are all added to the LP, in order and once, before it is solved again, the cutoff follows the incumbent, and a node is closed only when the LP optimum repeats the integer values of the NLP just solved or a proven bound reaches the cutoff. When the algorithm returns, the bounds of the NLP and the rows, bounds, cutoff and basis of the LP are those it found, and the bound transmitted is the one it returned.",
 ['inputs', 'histories', 'configurations', 'fault_sequences'], 'every problem size and pattern of integer variables, LP and NLP solution, status, number of cuts and passes, and option setting of the generators',
 'An integer point checked against the wrong fixing, a cut installed late or bounds left fixed lose the optimum silently on some other problem; the test runs one model to one answer.',
 ['src/Algorithms/BonSolverHelp.cpp', 'src/Algorithms/OaGenerators/BonOaDecBase.cpp', 'src/Algorithms/OaGenerators/BonOaFeasChecker.cpp', 'src/Algorithms/OaGenerators/BonOaNlpOptim.cpp', 'src/Algorithms/OaGenerators/BonOACutGenerator2.cpp', 'src/Algorithms/BonSubMipSolver.cpp'], [('integer points', 'integerFeasible, isDifferentOnIntegers, fixIntegers, relaxIntegers, installCuts'), ('driver', 'OaDecompositionBase::generateCuts, solverManip, post_nlp_solve'), ('algorithms', 'OaFeasibilityChecker::performOa, OaNlpOptim::generateCuts, OACutGenerator2::performOa'), ('MILP', 'SubMipSolver::setLpSolver, find_good_sol, optimize')],
 'postconditions on every helper and on the driver; the passes of the algorithms by loop invariants over the contracts of the helpers')

prop('C15', 'Options reach the parts they name',
 "The value of an option as set by the user (or its registered default) is the value used by the part the option names, for every option of the branch-and-bound (limits, tolerances, cutoffs, failure policy, node and variable selection, seed, diving), of the NLP interface (retries, random points, warm start, tiny elements, infinity, log levels), of the cut generators and decompositions (scope, tolerances, limits, rounds, depths; time and solution limits of a decomposition never exceed those of the search), of the MILP solver they use, and of the MILP cuts (used exactly when the frequency is not zero, with that frequency). When the search parameters are gathered, only two choices of variable_selection change other parameters: most-fractional sets the strong-branching counts to zero, reliability-branching sets the number before trust to ten; the algorithm chosen may preset options before they are read. In B-BB each heuristic is used, once, exactly when its option says so (by default the MIP fractional dive and, unless there are general integer variables, for which nothing is claimed, the feasibility pump), the variable selection is the one chosen (by default NLP strong branching), it gets the number of strong-branching candidates set (by default 1000), solutions found in strong branching are not trusted, nor is the optimum of its QP approximations as a bound.",
 ['inputs', 'configurations'], 'every combination of option values, set or defaulted, and every prefix of the setup',
 'There are over a hundred options of similar names and types; an option stored in the wrong place compiles and changes nothing on a run with defaults.',
 ['src/Algorithms/BonBabSetupBase.cpp', 'src/Interfaces/BonOsiTMINLPInterface.cpp', 'src/Algorithms/OaGenerators/BonOaDecBase.cpp', 'src/Algorithms/OaGenerators/BonOACutGenerator2.cpp', 'src/Algorithms/OaGenerators/BonFpForMinlp.cpp', 'src/Algorithms/OaGenerators/BonOaFeasChecker.cpp', 'src/Algorithms/OaGenerators/BonEcpCuts.cpp', 'src/Algorithms/OaGenerators/BonOaNlpOptim.cpp', 'src/Algorithms/BonSubMipSolver.cpp', 'src/Algorithms/BonCbcLpStrategy.cpp', 'src/Algorithms/BonBonminSetup.cpp', 'src/Algorithms/Branching/BonChooseVariable.cpp', 'src/CbcBonmin/BonDiver.cpp'], [('search', 'BabSetupBase::gatherParametersValues, BonChooseVariable constructor, CbcDiver/CbcProbedDiver/CbcDfsDiver::initialize'), ('NLP', 'OsiTMINLPInterface::extractInterfaceParams'), ('cuts', 'constructors of OaDecompositionBase, OaFeasibilityChecker, EcpCuts, OaNlpOptim, OACutGenerator2, MinlpFeasPump, SubMipSolver; CbcStrategyChooseCuts::setup; BonminSetup::addMilpCutGenerators'), ('B-BB', 'BonminSetup::initializeBBB')],
 'postconditions relating each field to the option of its name; the option list is a function of kind, prefix and name; texts of std::string tracked as ghost state')

NA = []
TECH = 'contract-based deductive verification: pre/postconditions, frames and inferred loop invariants on the real function bodies (LLVM IR compiled from /repo each run), obligations discharged by z3'

def main():
    try:
        import meta_more
    except ImportError: pass
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    checks = [dict(property=p['id'], quick_cmd='python3-vt /verif/check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique=TECH, level=p.get('level', 'proof'), level_note=p['note']) for p in P if not p.get('na')]
    m = dict(version=1, setup_cmd='python3-vt /verif/tools/selftest.py', checks=checks, not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p.get('na')],
        notes='Engine in engine/, contracts in contracts/, native replay and bounded stand-ins in harness/. No hooks in /repo.')
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1); open(HERE + '/MANIFEST.json', 'a').write('\n')
if __name__ == '__main__': main()
