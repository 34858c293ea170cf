"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MF = 'beluga/symbolic/data_classes/mapping_functions.py'
CS = 'beluga/symbolic/data_classes/components_structures.py'
SP = 'beluga/symbolic/data_classes/symbolic_problem.py'
NP = 'beluga/numeric/data_classes/NumericProblem.py'
TM = 'beluga/numeric/data_classes/trajectory_mappers.py'
TR = 'beluga/numeric/data_classes/Trajectory.py'
CO = 'beluga/continuation/continuation.py'
GG = 'beluga/continuation/guess_generators.py'
SH = 'beluga/numeric/bvp_solvers/Shooting.py'
SB = 'beluga/numeric/bvp_solvers/SPBVP.py'
IV = 'beluga/numeric/ivp_solvers/ivpsol.py'
CC = 'beluga/numeric/compilation/component_compilation.py'
ND = 'beluga/numeric/numerical_derivatives/'
DG = 'beluga/symbolic/differential_geometry/differential_geometry.py'
TB = 'beluga/symbolic/special_functions/tables.py'
CF = 'beluga/symbolic/special_functions/custom_functions.py'
BE = 'beluga/beluga.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Indirect formulation is exactly the first-order necessary conditions',
     'For every optimal control problem (states, controls, parameters, boundary and path costs, equality constraints) the boundary value '
     'problem produced by the indirect method has the user\'s dynamics, costate and parameter-adjoint rates equal to minus the gradient of '
     'the Hamiltonian, all on normalised time, and boundary residuals consisting of exactly the user\'s constraints, the initial and '
     'terminal transversality conditions with one multiplier per constraint, the terminal free-time Hamiltonian condition and (for '
     'differential control) the terminal stationarity conditions. With normalised time the number of residuals equals the number of unknowns.',
     ['programs', 'inputs'], 'any problem and any point (state, costate, control, parameter, constant, multiplier values)',
     'the examples only check that a few hand-picked problems converge to known values; a wrong term that vanishes on them goes unseen',
     [MF, NP], [('adjoining, Hamiltonian, costate rates and transversality', MF + ' Dualize'), ('time scaling', MF + ' NormalizeTime'),
                ('compilation of rates and residuals', NP + ' compile_deriv_func, compile_bc')],
     ['compiled derivative, quadrature and boundary-condition functions of the problem returned by the indirect method'])
prop('C02', 'Differential control law keeps the Hamiltonian stationary',
     'With the differential control option, the rate given to every control makes the gradient of the Hamiltonian with respect to each '
     'control constant along the generated flow, so that stationarity imposed at the final time holds along the whole trajectory; with the '
     'geometric derivation this holds on the stationary set and the control momenta stay zero there.',
     ['programs', 'inputs'], 'any problem with one or two controls and any point where the Hamiltonian Hessian in the controls is invertible',
     'tests see only converged end values for a few one-control problems', [MF], [('control rate from implicit differentiation', MF + ' DifferentialControlLaw')],
     ['compiled derivative function'])
prop('C03', 'Algebraic control law is stationary and picks the Hamiltonian minimiser',
     'With the algebraic control option the control computed at any point satisfies the stationarity equations of the Hamiltonian and, when '
     'several stationary candidates exist, is the candidate with the smallest Hamiltonian. The control written into a mapped-back solution at each '
     'node is the same as the one the compiled problem uses at that node.',
     ['programs', 'inputs'], 'any problem whose stationarity equations are solvable in closed form, any point, any set of candidate laws',
     'the choice among candidates depends on the point; tests exercise few points', [MF, CC, TM],
     [('candidates', MF + ' AlgebraicControlLaw'), ('selection', CC + ' compile_control'), ('selection when mapping back', TM + ' AlgebraicControlMapper')],
     ['compiled control function', 'controls of mapped-back solutions'])
prop('C04', 'Geometric and traditional derivations give the same extremals',
     'On the stationary set the geometric (symplectic) derivation yields the same state, costate, time and control rates and the same boundary '
     'conditions as the traditional one, apart from control momenta that start at zero and stay zero. With time as a coordinate (the default) the vector field it uses is the Hamiltonian '
     'vector field of the problem for an antisymmetric non-degenerate two-form.',
     ['programs', 'inputs', 'configurations'], 'any problem, both derivation options, any point', 'examples are run with one derivation each and never compared pointwise',
     [MF, DG], [('Hamiltonian vector field', DG), ('control-extended form', MF + ' DifferentialControlLaw diffyg branch')], ['compiled functions of both formulations'])
prop('C05', 'Symmetries give true constants of motion and a consistent reduction',
     'Every constant of motion recorded by the geometric derivation for a user-declared or automatically detected symmetry is constant along the generated '
     'dynamics. Using reduction, the reduced rates, boundary conditions and quadrature agree with the unreduced problem at corresponding points, and the '
     'solution map into and out of the reduced coordinates are inverse to each other.',
     ['programs', 'inputs'], 'any problem invariant under the declared translation symmetries, any point', 'only one example uses reduction and only end values are compared',
     [MF, DG, TM], [('Noether map', DG + ' noether'), ('reduction', MF + ' MishchenkoFomenko'), ('map', TM + ' MF')], ['constants of motion, compiled functions, mapped trajectories'])
prop('C06', 'Penalty transformations of inequality constraints mean what they say',
     'A two-sided constraint handled with the secant penalty adds to the matching (initial, path or terminal) cost the activator times (secant - 1) of an angle running from -pi/2 at the lower to pi/2 at the upper bound, '
     'so it is non-negative strictly inside, and removes that constraint and nothing else. A control bound handled with the trigonometric substitution replaces that control everywhere by midpoint plus half-range times the sine of a new control, so it stays within the bounds, '
     'subtracts the activator times its cosine from the path cost, and leaves every other part of the problem unchanged; a constraint with only one bound is refused, not dropped or taken for an equality.',
     ['programs', 'inputs'], 'any number and placement of such constraints, any bound expressions, activator values and evaluation points',
     'examples cover one path constraint at a time and cannot see a wrong bound or a dropped second constraint', [MF], [('secant penalty', MF + ' UTM'), ('sine substitution', MF + ' EpsTrig')],
     ['cost and constraint expressions of the transformed problem', 'compiled functions'])
prop('C07', 'Named quantities are macros, whatever the order of definition',
     'Replacing a named quantity by its defining expression by hand gives the same compiled problem as declaring it, wherever it is used (dynamics, costs, constraints and their '
     'bounds, other quantities, switches, scale factors) and in whatever order quantities that refer to each other were declared.',
     ['programs', 'inputs'], 'any acyclic set of quantity definitions in any order', 'examples use one order of definition each', [MF, SP, CS],
     [('substitution', MF + ' ApplyQuantities'), ('substitution over all parts', SP + ' subs_all')], ['compiled functions and cost expressions'])
prop('C08', 'Smoothed switches weight each piece by its own conditions',
     'A switch behaves as the sum over its pieces of the piece times the sum of logistic weights of that piece\'s own conditions divided by the activator: a weight is one half where a '
     'condition is zero, above one half where it is negative, and complementary for opposite conditions. It may be used in dynamics, costs and constraints and in combination with quantities.',
     ['programs', 'inputs'], 'any number of pieces and conditions, any activator value, any point', 'one example uses a switch, near convergence only', [CS, MF],
     [('weights', CS + ' SwitchStruct'), ('substitution', MF + ' RASHS')], ['compiled functions'])
prop('C09', 'Autoscaling is an exact, invertible change of units',
     'Scaling a trajectory and scaling it back returns every component unchanged, scaling never modifies the trajectory given, and with dimensionally consistent definitions the scaled trajectory '
     'satisfies the same dynamics, boundary conditions and quadratures as the original in the new units. Unit factors are computed from the magnitudes the user\'s scale expressions name, taking for each state the largest magnitude over the trajectory.',
     ['programs', 'inputs'], 'any unit system and scale expressions, any trajectory', 'the examples run with whatever factors occur; an inconsistent factor only slows convergence', [NP, CS],
     [('factors and scaling', NP + ' compile_scaling'), ('units of generated variables', MF)], ['scaled and unscaled trajectories', 'compiled functions'])
prop('C10', 'Solution maps round-trip between the user\'s problem and the solved problem',
     'Mapping a trajectory of the user\'s problem into the formulated boundary value problem and back returns the same time, states, quadratures, controls, costates, parameters and constants, for every combination of '
     'formulation options; the mapped trajectory has one column per variable of the formulated problem, in its order. Neither direction alters the trajectory object it was given.',
     ['programs', 'inputs', 'configurations'], 'any trajectory with at least two nodes, all formulation options', 'tests never map user trajectories forward except through guesses', [TM, SP],
     [('map chain', SP + ' map_sol'), ('mappers', TM)], ['trajectory returned by the forward and inverse map'])
prop('C11', 'Trajectory evaluation interpolates the stored data',
     'Evaluating a trajectory at one of its times returns the stored states, quadratures and controls, evaluating between two times returns their linear interpolation componentwise, shapes are consistent for scalar and vector times '
     'and for one or several components, and times outside the range are rejected.',
     ['inputs'], 'any strictly increasing times, any data, any query time, 1-3 components', 'tests use two fixed trajectories', [TR], [('interpolation', TR + ' __call__')], ['values returned by calling or indexing a trajectory'])
prop('C12', 'Quadratures are the integral of their rates along the trajectory',
     'Propagating with quadratures yields quadrature values that start at the given initial value and accumulate the composite Simpson integral of the rate evaluated along the propagated trajectory, node by node, and the terminal-only routine '
     'agrees with the full reconstruction; no argument is modified and intervals outside the trajectory are rejected.',
     ['inputs'], 'any trajectory grid, any rates, any initial value, any sub-interval', 'tests use constant or linear rates on a fixed grid', [IV], [('reconstruction', IV + ' reconstruct'), ('terminal value', IV + ' integrate_quads')], ['quadrature columns of propagated trajectories'])
prop('C13', 'Continuation schedules go from the current values to the targets',
     'A continuation step with two or more cases visits exactly the requested number; the first case has the current constants, the last has every target, values in between are evenly spaced (or geometrically when logarithmic spacing is asked), a product step visits every '
     'combination and a sparse product step visits its lattice of major and minor points. Constants that are not continued never change and reusing a step object restarts it.',
     ['inputs', 'configurations'], 'any starting values and targets, any number of cases, one to three continued constants, any strategy', 'tests fix one schedule per strategy', [CO],
     [('schedules', CO + ' ManualStrategy, ProductStrategy, SparseProductStrategy')], ['sequence of guesses produced by a continuation step'])
prop('C14', 'Continuation only ever builds on converged solutions',
     'Under any sequence of solver successes and failures, each guess handed to the solver is the converged solution with the closest constants (or the initial guess before any converged), a bisection step subdivides the failed interval, never skips the targets, '
     'gives up with an error once more than the allowed number of consecutive subdivisions have failed or when the first case fails. A manual step stops with an error at the first failure, while product steps pass over later failures.',
     ['schedules', 'fault_sequences', 'inputs'], 'every success/failure history up to the bound, any constants', 'tests script one failure pattern', [CO], [('choice of guess', CO + ' get_closest_gamma'), ('subdivision', CO + ' BisectionStrategy.next')],
     ['sequence of guesses and errors'])
prop('C15', 'The driver returns one faithful solution per solved case',
     'Running a list of continuation steps returns, for each step, one stored solution per solver call, in order, each being what the solver returned mapped back to the user\'s units and variables; the next step starts from the last solution of the previous '
     'one, the solver is given the scaled guess and the functions of the formulated problem, and without steps exactly one solution is returned. The user\'s problem and guess are left unchanged.',
     ['inputs', 'histories', 'configurations'], 'any solver behaviour (values and success flags), any steps, with and without autoscaling', 'tests only look at the final solution of converging runs', [CO, BE],
     [('driver', CO + ' run_continuation_set'), ('post-processing', BE + ' solve, postprocess_continuations')], ['solver inputs and returned solution sets'])
prop('C16', 'Shooting reports convergence only for solutions that satisfy the problem',
     'When shooting reports success, the returned trajectory is the propagation of the solver\'s final unknowns over all arcs in order, arcs join continuously and the boundary residual norm is within the tolerance; when the residual stays above it, success is not reported. '
     'Minimisers and fsolve compare the squared residual norm with the tolerance. Packing and unpacking the unknowns are inverse to each other, the guess is kept, a solver object used again on another problem gives what a fresh one would, and a process pool gives the same trajectories as running serially.',
     ['inputs', 'configurations'], 'any linear or nonlinear residual behaviour of the problem, one to three arcs, with and without quadratures and parameters, every supported algorithm', 'tests run a fixed set of converging problems', [SH],
     [('iteration and convergence test', SH + ' solve'), ('multi-arc residual', SH + ' _bc_func_multiple_shooting'), ('unknown vector', SH + ' _wrap_y0, _unwrap_y0')], ['solver result'])
prop('C17', 'Collocation adapter hands the solver the user\'s problem and returns its answer',
     'The functions given to the collocation solver evaluate the problem\'s rates, quadrature rates, boundary residuals and their Jacobians at exactly the states, quadratures and parameters of each node, and the returned trajectory contains the solver\'s mesh, states, '
     'quadratures and parameters and reports convergence exactly when the solver did, without altering the guess or depending on what the solver object was used for before.',
     ['inputs', 'configurations'], 'any mesh, states, parameters and constants, with and without quadratures, parameters and Jacobians', 'tests use problems where a misplaced entry still lets the solver converge', [SB], [('adapter', SB + ' solve')], ['arguments and result of the collocation call'])
prop('C18', 'Analytical Jacobians are the derivatives of the functions they accompany',
     'When analytical Jacobians are requested, the compiled Jacobians of the rates and of the boundary residuals equal the partial derivatives of the compiled rate and residual functions with respect to states, quadratures, parameters and multipliers, in the same ordering and shape.',
     ['programs', 'inputs'], 'any problem and any point', 'a wrong Jacobian only slows convergence, which tests do not notice', [MF, NP], [('symbolic Jacobians', MF + ' ComputeAnalyticalJacobians'), ('compilation', NP + ' compile_deriv_jac_func, compile_bc_jac_func')], ['compiled Jacobian functions'])
prop('C19', 'Custom functions and their numerical derivatives',
     'A user function used in a problem is evaluated with the arguments written in the expression, and its generated derivatives approximate the partial derivative with respect to the right argument: exact up to rounding for the complex step on polynomials up to second order, and exact for '
     'central differences on polynomials up to second degree, to any supported order.',
     ['inputs', 'programs'], 'any function values and arguments, one to three arguments, any argument position', 'tests cover a few fixed functions', [ND + 'complex_step.py', ND + 'finite_diff.py', CF], [('derivative generation', ND), ('symbolic function', CF)], ['values of generated derivative functions'])
prop('C20', 'Lookup tables interpolate their data with consistent derivatives',
     'A one-dimensional table used in a problem passes through its data points, including the first and last, is twice continuously differentiable on the range of the data, and its symbolic derivatives, of any order and under any later substitution, are the derivatives of the interpolant.',
     ['inputs'], 'any strictly increasing abscissae, any data, any argument in range', 'tests use one table', [TB, CS], [('spline evaluation', TB)], ['values of the compiled table and its derivative'])
prop('C21', 'Transformations compose associatively, in the order written',
     'Composing problem transformations applies the right operand first and the left operand last, binding applies them left to right, composition is associative with the identity as unit, integer powers repeat the transformation, and composing never changes the operands.',
     ['programs', 'histories'], 'any composition tree of up to five transformations', 'tests do not compose custom transformations', [MF], [('composition operators', MF + ' GenericFunctor')], ['result of applying composed transformations'])
prop('C22', 'Reported cost is the user\'s cost of the returned trajectory',
     'The cost attached to a solution mapped back to the user\'s problem equals the initial cost at the first node plus the terminal cost at the last node plus the composite Simpson integral of the path cost over the nodes (costs including the penalties that regularise inequality constraints), evaluated with that solution\'s states, quadratures, controls, parameters and constants.',
     ['inputs', 'programs'], 'any trajectory and any cost functionals', 'tests compare cost for few converged problems', [CC, TM], [('cost evaluation', CC + ' compile_cost'), ('attachment', TM + ' DualizeMapper')], ['cost of mapped-back solutions'])
prop('C23', 'Initial guesses respect the user\'s specification',
     'The automatic guess starts from the given states, costates, controls, quadratures and constants and is the propagation of the formulated problem over the requested time in the requested direction; the constant guess repeats the given values; a static guess is the mapped given trajectory. '
     'The boundary-matching helper sets exactly the constants named after a state or time with the initial or terminal suffix to the trajectory\'s end values and leaves all others.',
     ['inputs', 'configurations'], 'any start values, any guess mode and direction, any trajectory', 'tests only use guesses that lead to convergence', [GG, BE], [('guess generation', GG), ('helper', GG + ' match_constants_to_states')], ['guess handed to the solver'])
prop('C24', 'A name can be defined only once',
     'Declaring a state, control, parameter, constant, quantity, function, table, switch, quadrature, conserved quantity, scale or independent variable with a name already in use is rejected, and a rejected declaration leaves the problem exactly as it was.',
     ['histories', 'programs'], 'any sequence of declarations', 'tests do not try clashes', [SP], [('duplicate check', SP + ' check_for_duplicate')], ['error raised and problem contents'])
prop('C25', 'Exterior calculus routines obey their defining identities',
     'The exterior derivative of a function is its gradient, of a one-form its antisymmetrised Jacobian, and applying it twice gives zero; the standard symplectic form pairs each state with its costate; the Hamiltonian vector field satisfies Hamilton\'s equations and conserves the Hamiltonian; a form is accepted as symplectic only if '
     'it is square, even-dimensional and antisymmetric.',
     ['inputs', 'programs'], 'any smooth function, one-form or two-form in up to three pairs of coordinates', 'tests use fixed small cases', [DG], [('definitions', DG)], ['returned expressions, evaluated'])
prop('C26', 'Direct formulation preserves dynamics, constraints and cost',
     'With the direct method the compiled rates, boundary residuals, quadrature rates and cost functions are those the user wrote, with inequality constraints replaced by their penalties and rates and path cost multiplied by the elapsed time when time is normalised.',
     ['programs', 'inputs', 'configurations'], 'any problem and point, all direct options', 'the direct method has almost no tests', [MF, NP], [('pipeline', MF + ' make_direct_method'), ('compilation', NP)], ['compiled functions'])
prop('C27', 'Saved problems and solutions come back as they were',
     'Loading a file written by save gives exactly the parts that were saved: every solution with the same numbers, and problems whose compiled functions and solution maps give the same values as before, also in another process and for problems with custom functions and tables. '
     'A run writes such a file, holding what it returns, if and only if asked to, under the name asked for.',
     ['inputs', 'programs', 'configurations'], 'any solutions and problems, every subset of parts', 'no test loads a saved file', ['beluga/utils/storage.py', 'beluga/beluga.py', 'beluga/symbolic/special_functions/custom_functions.py', 'beluga/symbolic/special_functions/tables.py'],
     [('storage', 'beluga/utils/storage.py'), ('pickling of symbolic functions', 'beluga/symbolic/special_functions')], ['loaded parts', 'files written'])

CHECK_TECH = ('dynamic symbolic execution of the real code from /repo (symbolic reals through beluga, generated/lambdified functions and numpy), '
              'assertions decided by z3 over exact reals; counterexamples replayed on the unpatched JIT-compiled code')
NA = {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')) and i not in NA:
            import importlib
            import sys
            sys.path.insert(0, HERE)
            mod = importlib.import_module('checks.' + i.lower())
            checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python bsym/runner.py %s --tier quick' % i,
                               thorough_cmd='/opt/venv/bin/python bsym/runner.py %s --tier thorough' % i,
                               technique=CHECK_TECH, level='model_checking',
                               level_note='bounded: ' + mod.BOUNDS))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python bsym/selftest.py', checks=checks, not_applicable=na,
                   notes='One engine (bsym/), one harness file per property (checks/cNN.py). See DESIGN.md.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
