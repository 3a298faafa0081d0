#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
F = {'pres': 'src/core/Presolver.c', 'post': 'src/core/Postsolver.c', 'core': 'src/core/CoreTransformation.c', 'mat': 'src/core/Matrix.c', 'act': 'src/core/Activity.c',
     'dton': 'src/explorers/DtonsEq.c', 'ston': 'src/explorers/StonCols.c', 'simp': 'src/explorers/SimpleReductions.c', 'prop': 'src/explorers/Primal_propagation.c',
     'pr': 'src/explorers/Parallel_rows.c', 'pc': 'src/explorers/Parallel_cols.c', 'df': 'src/explorers/Simple_dual_fix.c', 'cons': 'src/core/Constraints.c', 'prob': 'src/core/Problem.c',
     'state': 'src/core/State.c', 'locks': 'src/core/Locks.c', 'tags': 'src/core/Tags.c', 'work': 'src/core/Workspace.c', 'api': 'include/PSLP/PSLP_API.h', 'vec': 'include/data_structures/Vec_macros.h', 'dbg': 'src/core/Debugger.c'}
ALLRED = ['simp', 'df', 'ston', 'dton', 'prop', 'pr', 'pc', 'core']
TOL = ' (Up to the feasibility tolerance 1e-6 times a small multiple.)'
LP = 'every LP with finite data, lhs<=rhs, lb<=ub (missing sides and bounds infinite), no explicit zeros and sorted columns'
props = []
def P(id, title, statement, over, q, why, files, mech, obs=('new_presolver', 'run_presolver', 'postsolve'), state=()):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=[F[f] for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None)))
P('P01', 'Postsolve of a feasible reduced point is feasible for the original LP',
  'Whenever presolve ends with UNCHANGED or REDUCED, postsolve turns every feasible point of the reduced problem into a finite point of full dimension that satisfies all row sides and variable bounds of the original problem, up to the feasibility tolerance.',
  ['inputs', 'configurations'], LP + ', every combination of settings, every feasible point of the reduced problem',
  'The tests postsolve a handful of optimal solutions of fixed LPs; feasibility of the recovered point depends on the sides and bounds and on which reduced point is handed in, not only an optimal one.',
  ['post'] + ALLRED, [('retrieve_fix_col, retrieve_sub_col, retrieve_fix_col_inf, retrieve_parallel_col', F['post']), ('bounds transferred to sides and other columns when a column is substituted', F['ston'] + ', ' + F['dton'])])
P('P02', 'Reduced objective plus offset equals the original objective',
  'Whenever presolve ends with UNCHANGED or REDUCED, the cost of every feasible reduced point under the reduced costs plus the reported objective offset equals the original cost of the point postsolve returns for it (exactly in real arithmetic), and the offset is finite.',
  ['inputs', 'configurations'], LP + ', every combination of settings, every feasible reduced point',
  'Tests compare offsets for fixed LPs; the identity must hold for every cost vector, every sequence of substitutions and every reduced point.',
  ['pres', 'post', 'ston', 'dton', 'pc', 'simp', 'core'], [('objective offset updates when columns are fixed or substituted', F['core'] + ', ' + F['ston'] + ', ' + F['dton'] + ', ' + F['simp'])])
P('P03', 'An optimal reduced point is postsolved to an optimal original point',
  'Whenever presolve ends with UNCHANGED or REDUCED, no feasible point of the original problem has a lower cost than the point postsolve returns for an optimal primal-dual solution of the reduced problem.',
  ['inputs', 'configurations'], LP + ', every combination of settings, every optimal primal-dual pair of the reduced problem, every competing original point',
  'Reductions that cut off all optimal solutions (dual fixing, dominated columns, tightened bounds) can only be seen for sides and costs that make the cut point matter; tests sample a few.',
  ['df', 'ston', 'pc', 'prop', 'dton', 'pr'], [('dual fixing and dominated/parallel columns', F['df'] + ', ' + F['pc']), ('implied bounds', F['prop'])])
P('P04', 'Presolve does not lose feasibility or boundedness',
  'If the original problem has a feasible point and presolve ends with UNCHANGED or REDUCED, the reduced problem has a feasible point; if the original problem has an optimal solution, so has the reduced problem.',
  ['inputs', 'configurations'], LP + ', every combination of settings',
  'It quantifies over all original feasible points and has no witness in a test that only looks at the recovered solution of one solve.',
  ALLRED, [('tightening of bounds and sides', F['prop'] + ', ' + F['pr'] + ', ' + F['dton'] + ', ' + F['ston'])])
P('P05', 'Postsolved duals satisfy stationarity z = c - A\'y',
  'For every primal-dual solution (x,y,z) of the reduced problem satisfying its optimality conditions, the duals postsolve returns are finite and satisfy z = c - A\'y for the original cost vector and matrix.',
  ['inputs', 'configurations'], LP + ', every combination of settings, every KKT triple of the reduced problem',
  'Tests check stationarity for one solution per LP; the recovered duals depend on which optimal dual is given and on the branch each recovery rule takes.',
  ['post', 'ston', 'dton', 'pr', 'pc', 'prop', 'simp'], [('retrieve_* functions updating y and z', F['post']), ('save_retrieval_* called with the rows and coefficients at the time of the reduction', F['post'] + ' and the reductions')])
P('P06', 'Postsolved duals have the right signs and are complementary',
  'For every primal-dual solution of the reduced problem satisfying its optimality conditions, the postsolved triple satisfies the original ones: y_i>0 only if row i is at its left side, y_i<0 only at its right side, z_j>0 only if x_j is at its lower bound, z_j<0 only at its upper bound (activity judged up to tolerance); in particular no multiplier is supported by a missing side or bound.',
  ['inputs', 'configurations'], LP + ', every combination of settings, every KKT triple of the reduced problem',
  'Degenerate and tied cases (several bounds active, bound from a row versus original bound) are measure-zero and appear only for particular sides and duals.',
  ['post', 'prop', 'ston', 'dton', 'pr', 'pc'], [('retrieve_bound_change, retrieve_lhs_change, retrieve_rhs_change, retrieve_eq_to_ineq, retrieve_parallel_col', F['post'])])
P('P07', 'INFEASIBLE is reported only for infeasible problems',
  'If run_presolver returns INFEASIBLE, no point satisfies all row sides and variable bounds of the original problem (a feasible region thinner than the tolerances excepted).',
  ['inputs', 'configurations'], LP + ', every combination of settings, every candidate point',
  'A wrong comparison or a wrong side shows only when the data hits the boundary or a sign combination; tests sample a few infeasible LPs and cannot show absence of false claims.',
  ['simp', 'pr', 'prop', 'dton', 'ston', 'core', 'pres'], [('comparisons of sides, bounds and activities', F['simp'] + ', ' + F['pr'] + ', ' + F['prop'])])
P('P08', 'UNBNDORINFEAS is reported only without an optimal solution',
  'If run_presolver returns UNBNDORINFEAS, the original problem has no optimal solution, i.e. it is infeasible or unbounded; every status returned is one of UNCHANGED, REDUCED, INFEASIBLE, UNBNDORINFEAS.',
  ['inputs', 'configurations'], LP + ', every combination of settings',
  'Needs all primal feasible points and dual feasible points at once; tests only contain unbounded examples.',
  ['df', 'ston', 'pc', 'simp', 'pres'], [('columns whose cost drives them to a missing bound', F['df'] + ', ' + F['ston'] + ', ' + F['pc'] + ', ' + F['simp'])])
P('P09', 'The reduced problem is a well-formed LP',
  'Whenever presolve ends with UNCHANGED or REDUCED, the reduced problem is a valid CSR problem no larger than the original in rows and columns: row pointers start at 0, are nondecreasing and end at the nonzero count, column indices are in range and strictly increasing in each row, coefficients are finite and nonzero, costs and offset finite, no NaN, lhs<=rhs and lb<=ub, infinities only in the harmless direction.',
  ['inputs', 'configurations'], LP + ', every combination of settings',
  'Whether an entry cancels, a row is emptied or a pointer is shifted depends on the data and on the order of the reductions.',
  ['mat', 'prob', 'cons', 'pres', 'dton'], [('remove_extra_space, shift_row, insert_or_update_coeff', F['mat']), ('populate_presolved_problem', F['pres'])], ('run_presolver', 'reduced_prob'))
P('P10', 'Memory safety and no leaks over the life cycle',
  'Creating, running, postsolving (repeatedly) and freeing a presolver in any documented order never reads or writes outside allocated memory, never uses freed or uninitialised structure, and after free_presolver and free_settings nothing remains allocated.',
  ['inputs', 'histories', 'configurations'], LP + ', every combination of settings, life cycles of up to two postsolves',
  'An overrun depends on row lengths, fill-in and how many entries a reduction appends; the sanitizer has to see the one input that does it.',
  ['mat', 'vec', 'state', 'work', 'pres', 'post', 'dton', 'pr'], [('row extra space and shifts', F['mat']), ('vector growth', F['vec']), ('ownership of allocated blocks', F['pres'])])
P('P11', 'Inputs are deep-copied and never modified',
  'No API call modifies the arrays or the settings given by the caller, and results do not change when the problem arrays are overwritten or freed after new_presolver has returned.',
  ['inputs', 'histories'], LP + ', every combination of settings, arrays overwritten after creation',
  'Aliasing shows only if an array is changed between creation and use; tests keep their arrays alive and unchanged.',
  ['pres', 'mat', 'prob', 'cons'], [('copies in new_presolver', F['pres'])])
P('P12', 'Settings are honoured',
  'default_settings gives the documented defaults and set_settings_true/false change exactly the reduction switches and verbose; a reduction whose switch is off is not performed (with all switches off only the trivial ones are), one whose switch is on is performed on problems made for it, relax_bounds alone changes nothing but bounds, verbose does not change results, and nothing is printed when it is off.',
  ['configurations', 'inputs'], 'all switch combinations used by the skeletons, over ' + LP,
  'Tests use fixed switch sets per reduction; a reduction running under a wrong switch still gives correct solutions.',
  ['pres', 'api'], [('run_fast_explorers, run_medium_explorers, run_trivial_explorers', F['pres'])], ('default_settings', 'set_settings_true', 'set_settings_false', 'run_presolver'))
P('P13', 'Presolve and postsolve are deterministic and isolated',
  'Presolving the same problem with the same settings and postsolving the same solution gives identical status, reduced problem and solution every time, independently of the contents of fresh memory and of other presolvers created, run or freed in between.',
  ['histories', 'inputs'], LP + ', interleaved with other presolver objects, memory filled differently',
  'Uninitialised reads and leftovers in static data are invisible in single runs on fresh memory.',
  ['pr', 'pc', 'state', 'work', 'pres', 'mat'], [('initialisation of work arrays and static sort keys', F['pr'] + ', ' + F['work'] + ', ' + F['state'])])
P('P14', 'Postsolve is repeatable and does not disturb the presolver',
  'postsolve does not modify its input vectors or the reduced problem, can be called any number of times with different vectors, gives the same result for the same vectors each time, and always leaves finite values in all entries of x, y and z for finite inputs.',
  ['histories', 'inputs'], LP + ', every combination of settings, all real input vectors, three calls',
  'Tests call postsolve once per presolver.',
  ['post', 'pres'], [('copy_reduced_sol_to_orginal, postsolver_run', F['post'])], ('postsolve', 'sol'))
P('P15', 'Initialisation is free of data races and schedule-independent',
  'The two threads of new_presolver never access the same memory without synchronisation when one of them writes, and the resulting presolver, reduced problem and postsolved solution do not depend on which thread runs first.',
  ['schedules', 'inputs'], 'all orders of the two initialisation threads, ' + LP,
  'Races of this length almost never show in a test run; the tests do not control the schedule.',
  ['pres', 'mat', 'locks', 'act'], [('init_thread_func against transpose and count_rows in new_presolver', F['pres'])], ('new_presolver',))
P('P16', 'Allocation or thread failure in setup is reported cleanly',
  'If any single allocation or the thread creation fails inside default_settings or new_presolver, the call either returns NULL having freed everything it allocated, or (thread creation only) still succeeds with the usual result; it never crashes, leaks or returns a broken presolver, and free_presolver(NULL) is harmless.',
  ['fault_sequences', 'inputs'], 'every single allocation of default_settings and new_presolver failing, thread creation failing, ' + LP,
  'The tests never make malloc fail.',
  ['pres', 'state', 'work', 'mat', 'post', 'vec'], [('presolver_clean_up and NULL checks after allocations', F['pres'])], ('default_settings', 'new_presolver', 'free_presolver'))
P('P17', 'Stopping at the time limit leaves a correct result',
  'If the time limit is found to have expired at any reading of the clock, presolve stops soon after and its result is as valid as a full one: recovered points are feasible, objectives agree with the offset, duals are stationary, and nothing is printed without verbose.',
  ['crash_points', 'inputs', 'configurations'], 'expiry at every single clock reading of run_presolver, any max_shift, ' + LP,
  'The tests never reach the time limit.',
  ['pres', 'dton', 'pr', 'pc', 'prop'], [('time checks between phases and inside reductions', F['pres'])], ('run_presolver', 'postsolve'))
P('P18', 'Presolve and postsolve terminate',
  'For every valid problem and all settings, run_presolver and postsolve return, within a number of internal steps that is small for small problems (also without the help of the time limit).',
  ['inputs', 'configurations'], LP + ', every combination of settings, clock standing still',
  'Cyclic bound tightening or endless phases need particular data.',
  ['pres', 'prop', 'dton', 'ston', 'pr'], [('termination rule and phase progression', F['pres']), ('worklists', F['state'])], ('run_presolver', 'postsolve'))
P('P19', 'The debug build never aborts on valid input',
  'Built with assertions enabled, no assertion and no internal consistency check of the library fails during creation, presolve or postsolve of optimal reduced solutions (assertions that compare with a numerical tolerance excepted).',
  ['inputs', 'configurations'], LP + ', numbers below 1e6 in magnitude, every combination of settings, every KKT triple of the reduced problem',
  'The existing tests run with assertions on, but only on their own LPs.',
  ['dbg', 'state', 'act', 'locks', 'post', 'core'], [('assertions and run_debugger', F['dbg'])])
P('P20', 'Trivial reductions are carried out exhaustively',
  'Whenever presolve ends with UNCHANGED or REDUCED before the time limit, the reduced problem has no empty row, no row with a single entry, no empty column and no column whose bounds coincide; a row without a finite side is left only if the original problem has such a row.',
  ['inputs', 'configurations'], LP + ', every combination of settings',
  'Later reductions create new singletons and fixed columns; whether they are picked up depends on the order in which that happens.',
  ['simp', 'pres', 'state', 'core'], [('worklists of empty and singleton rows and columns', F['state']), ('run_trivial_explorers', F['pres'])], ('run_presolver', 'reduced_prob'))
P('P21', 'Status and statistics agree with the reduced problem',
  'The status is UNCHANGED exactly when rows, columns and nonzeros all kept their number (then matrix and costs are the original ones and the offset is zero) and REDUCED otherwise; the reported original and reduced sizes are those of the two problems and the counts of removed nonzeros add up to their difference.',
  ['inputs', 'configurations'], LP + ', every combination of settings',
  'Tests compare statistics for a few LPs only.',
  ['pres', 'prob'], [('final_status, statistics updates in run_presolver', F['pres'])], ('run_presolver', 'stats'))
P('P22', 'Presolvers are independent of each other',
  'Presolvers of one process do not influence each other: no static variable that one of them writes is used by another one (so they may run in different threads), and however the calls for two presolvers are interleaved, each gives the result it gives alone.',
  ['inputs', 'interleavings'], LP + ', every combination of settings, every second presolver (data races) and a fixed second problem in six interleavings of the calls (results)',
  'The tests use one presolver at a time; state shared between presolvers shows when a second one runs at the wrong moment.',
  ['pr', 'prop', 'pres', 'work'], [('callbacks of qsort get their data through static variables', F['pr'] + ', ' + F['prop'])])
TECH = 'symbolic execution of the LLVM IR of the code (re-generated each run) with Z3 deciding every branch and the property at the end of every path; counterexamples replayed natively'
NOTE = {
 'P10': 'As above, with the symbolic build instrumented by AddressSanitizer: inputs are symbolic, the memory model is the real heap of exact-size blocks.',
 'P15': 'Both orders of the two threads are environment choices of the symbolic run; every shadowed access of the two threads is compared for conflicts.',
 'P22': 'Every access of instrumented code to static storage is recorded over the whole life of both presolvers; the interleaving is a choice of the symbolic executor.',
 'P16': 'The index of the failing allocation and the failure of the thread are environment choices enumerated by the symbolic executor on every path.',
 'P17': 'The clock reading at which the limit has expired is an environment choice of the symbolic executor.',
}
LEVELNOTE = 'Bounded: skeletons with concrete sparsity and dyadic coefficients, symbolic integer sides/bounds/costs and symbolic real solutions; each skeleton is decided for all values of its symbols up to the stated path bound. Exact real arithmetic in place of IEEE rounding (each path compared with a native run). '
if __name__ == '__main__':
    with open('properties.jsonl', 'w') as f:
        for p in props: f.write(json.dumps(p) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': [], 'not_applicable': [],
           'hooks': {'guard': 'PSLP_VERIF_SMALL', 'enable': 'engine/build.py passes -DPSLP_VERIF_SMALL to every source for half of the skeletons (names ending in _s): spare space and initial vectors of size one', 'source_commits': ['26bb704bc90165f5da802329f9f12ebcac5d9f79']},
           'notes': 'The checks rewrite the LLVM IR of the sources; the only hook shrinks four constants. Otherwise /repo carries "fix:" commits; see DESIGN.md and known_findings.txt.'}
    for p in props:
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                              'technique': TECH, 'level': 'model_checking', 'level_note': LEVELNOTE + NOTE.get(p['id'], '')})
    json.dump(man, open('MANIFEST.json', 'w'), indent=1)
