#!/usr/bin/env python3
"""Regenerates properties.jsonl (the text lives here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SQP, CSQP, PROX, DDP = "src/sqp.cpp", "src/csqp.cpp", "src/csqp_proxqp.cpp", "src/ddp.cpp"
H = lambda n: "include/mim_solvers/%s.hpp" % n

prop("S01", "A reported success is a real KKT point of the optimal control problem",
 "Whenever a solve with SQP, CSQP or the ProxQP-based solver reports success, every returned number is finite, the trajectory starts exactly at the problem's initial state, and the first-order optimality residual of the problem, recomputed from scratch at the returned trajectory with the multipliers the solver returns (stationarity in states and controls, dynamics gaps, violation of running and terminal inequality constraints), does not exceed the termination tolerance. The returned constraint multipliers push only towards bounds that exist: none for a two-sided infinite bound, and the right sign for a one-sided bound.",
 ["inputs", "configurations"],
 "every shooting problem (any horizon, varying control and constraint dimensions including zero, terminal constraints, equality, one-sided and infinite bounds, manifold states), any initial guess, any tolerance and solver settings",
 "The tests solve a handful of fixed problems whose KKT value is read back from the solver itself; nothing recomputes the residual independently, and a dropped residual component (terminal constraint, control stationarity, a gap) leaves every tested problem converging to the same point.",
 [SQP, CSQP, PROX, H("sqp"), H("csqp"), H("csqp_proxqp")],
 ["KKT residual assembly and termination test in solve()", "forcing the first state to the problem's x0", "ADMM projection and dual update that keep multiplier signs"],
 [("KKT residual", "max of stationarity, gaps and constraint violation"), ("lag_mul, y", "multipliers of dynamics and inequality constraints")],
 ["return value of solve()", "returned xs, us, multipliers"])

prop("S02", "Reported diagnostics describe the current iterate",
 "At every callback of SQP and CSQP, and on return from a successful solve (also of the ProxQP-based solver), the cost, dynamics gaps and their norm, constraint violation, merit value, KKT residual and step-norm figures the solver reports equal the values obtained by evaluating the problem afresh at the trajectory, search direction and multipliers the solver exposes at that moment. The iteration counter, the last accepted step length and the number of QP iterations likewise describe what was actually executed.",
 ["inputs", "configurations", "histories"],
 "every problem, configuration (filter or merit line search, extra final iteration, dynamic merit weights) and every history of accepted, shortened and fully rejected steps, over repeated solves",
 "Tests read a few of these figures on problems that converge in one full step, so values that are stale (from the previous iterate or from the last rejected trial) or computed from the wrong node are never observed.",
 [SQP, CSQP, PROX, H("sqp"), H("csqp"), DDP],
 ["calc/calcDiff refresh of cost, gaps and constraint norms", "merit computation", "checkKKTConditions and gradient norms", "step length bookkeeping in the line search"],
 [("cost/gap/constraint/merit/KKT", "figures reported through accessors, callbacks and the logger")],
 ["callback invocation", "return of solve()"])

prop("S03", "The SQP search direction is the exact regularized Newton step",
 "At every SQP iteration the search direction and the returned multipliers are the exact primal-dual solution of the equality-constrained quadratic subproblem at the current iterate: the linearized dynamics with gaps are satisfied exactly with zero initial-state step, and cost gradients, Hessian (plus the reported state and control regularization) and multipliers satisfy the subproblem's stationarity conditions to rounding accuracy. The feedback gains and value-function terms that are exposed belong to that same subproblem.",
 ["inputs", "configurations", "histories"],
 "every problem with positive definite reduced Hessian after regularization: any horizon from one node up, control dimension varying along the horizon including zero, cross terms, manifold states, non-zero gaps, any regularization",
 "Existing tests only use point-mass problems with constant control dimension and no regularization and compare final trajectories, so errors that merely slow convergence (wrong gap propagation, missing cross or regularization term at one node) pass.",
 [SQP, DDP, H("ddp"), H("sqp")],
 ["Riccati backward pass", "forward pass of the linearized dynamics and multipliers", "gain computation"],
 [("dx, du", "search direction"), ("lag_mul", "dynamics multipliers"), ("K, k, Vx, Vxx", "feedback and value function")],
 ["callback invocation"])

prop("S04", "CSQP's inner QP solver returns a certified solution of the QP subproblem",
 "After the QP of a CSQP iteration, the returned direction satisfies the linearized dynamics exactly, the auxiliary constraint variables lie inside the shifted bounds with multipliers that are non-zero only towards an active bound, and the reported primal and dual residuals are those of the returned iterate and satisfy the reported tolerances whenever the QP stopped before its iteration limit. The QP never executes more than the configured number of iterations, penalties stay strictly positive within their configured limits (equality constraints a thousand times stiffer), and, when it reports convergence at tight tolerances on a strictly convex QP, direction and multipliers agree with an independently computed solution.",
 ["inputs", "configurations"],
 "every convex QP subproblem: one-sided, two-sided, equality and infinite bounds, running and terminal constraints, varying dimensions, any relaxation, penalty-update interval, residual heuristics, warm-started or reset multipliers",
 "The tests run a few constrained point-mass and arm problems to convergence of the outer loop, which hides a wrong residual, an asymmetric projection, a penalty that is mis-scaled at one node, or an off-by-one in the iteration limit.",
 [CSQP, H("csqp"), "python/qp_solvers/stagewise_qp.py"],
 ["ADMM loop in computeDirection", "backward/forward passes with and without penalty update", "update_lagrangian_parameters", "penalty update and classification of bounds"],
 [("dxtilde/dutilde", "QP iterate"), ("z, y, rho", "ADMM variables"), ("norm_primal/norm_dual", "residuals and tolerances")],
 ["callback invocation"])

prop("S05", "The line search accepts exactly the first acceptable step",
 "In every iteration of SQP, CSQP and the ProxQP-based solver the next iterate is the current one moved along the reported direction by the first step length of the configured list whose trial trajectory can be evaluated and is acceptable: with the filter, no remembered iterate of the last filter-size ones (of the current solve) is at least as good in cost, gaps and constraint violation at once; with the merit function, a strict decrease of the configured merit. If no step length is acceptable the iterate is left unchanged.",
 ["inputs", "configurations", "histories"],
 "every nonlinear problem and current iterate, any list of step lengths, both line-search modes, any filter size and changes of it between solves, any merit weights including the multiplier-based ones, trial points where the model fails",
 "Almost all tests accept the full step at once; the memory of the filter, the shortened steps, the fully rejected line search and the interplay with re-used solver objects are never exercised.",
 [SQP, CSQP, PROX, H("sqp"), H("csqp"), H("csqp_proxqp")],
 ["tryStep", "filter test over the remembered costs, gaps and constraint norms", "merit test", "set_filter_size"],
 [("filter memory", "costs/gaps/constraint norms of the last iterates"), ("xs, us", "accepted trajectory")],
 ["consecutive callbacks", "return of solve()"])

prop("S06", "All solvers find the same optimum on convex problems",
 "On a strictly convex problem with linear dynamics, the trajectory with which SQP, DDP, FDDP or the KKT solver (no constraints), CSQP or the ProxQP-based solver (linear inequality constraints) reports success is the unique (constrained) minimizer, with its cost, in agreement with an independent dense reference. When the cost is quadratic the unconstrained solvers are at the minimizer after one iteration from any guess (DDP: any feasible guess) and report success in the next, and the constrained ones come to rest at it once their inner QP is solved to tolerance. CSQP on a problem without constraints walks through the same iterates, directions, costs and gaps as SQP.",
 ["inputs", "configurations"],
 "every strictly convex problem in the generated family: horizon, dimensions, active sets, cost conditioning, initial guesses (feasible or not)",
 "The tests compare solvers on two point-mass problems whose constraints and dimensions are fixed; a wrong treatment of varying control dimension, of cross terms or of one-sided bounds does not show there.",
 [SQP, CSQP, PROX, DDP, "src/fddp.cpp", "src/kkt.cpp"],
 ["each solver's direction computation, line search and termination"],
 None, ["returned trajectories, costs and iteration counts"])

prop("S07", "Solving is deterministic and independent of unrelated history",
 "Solving the same problem from the same guess with the same settings gives bit-identical results in a fresh solver, in a second fresh solver, and in a solver object that has already solved other problems instances (other initial state, references, guesses, settings since restored, failed or timed-out solves), provided warm-starting is switched off (multipliers reset and the QP started from the equality-constrained solution); with it on, only the retained multipliers and direction may differ as starting values (SolverPROXQP always keeps the multipliers of its last QP for the first convergence test). Restarting SolverSQP or SolverCSQP from the solution it returned converges immediately to the same solution.",
 ["histories", "configurations", "inputs"],
 "every sequence of solves on one solver object (model-predictive-control use), including changes of initial state, targets, filter size, penalties, iteration limits, model faults and timeouts between solves",
 "Tests construct a fresh solver per case or solve once; leakage of filter memory, penalties, regularization, step length, gaps or directions from an earlier solve cannot appear.",
 [SQP, CSQP, PROX, DDP, H("csqp")],
 ["per-solve initialisation in solve()", "reset_params/reset_rho_vec", "setCandidate", "filter memories and cached directions"],
 None, ["results of repeated solves"])

prop("S08", "Multi-threaded CSQP equals the sequential one and is race-free",
 "Built with multithreading, CSQP produces for every thread count and thread schedule the same iterates, multipliers, residuals and return values as the sequential build up to rounding of reductions, and no two threads access the same memory without synchronization, one of them writing. A trial point at which a model yields NaN is treated as in the sequential build rather than ending the process.",
 ["schedules", "inputs", "configurations"],
 "every number of threads from one to more than the horizon, every interleaving of worker threads, every problem shape, penalty-update interval and NaN-producing trial points",
 "The default build has multithreading off, so no test runs the parallel loops at all, and a data race or a wrong reduction would be schedule dependent.",
 [CSQP, "CMakeLists.txt"],
 ["OpenMP parallel loops in the backward passes, update_lagrangian_parameters and tryStep", "reductions over residuals, cost and norms", "shared temporaries"],
 None, ["ThreadSanitizer reports", "iterates compared with a sequential run"])

prop("S09", "No memory error or undefined behaviour for any well-formed problem",
 "For every well-formed problem and any sequence of public solver calls, no solver reads or writes out of bounds, uses freed or uninitialized memory, violates an Eigen size or aliasing assertion, or executes undefined behaviour; results do not depend on the contents of uninitialized memory. This includes replacing or rotating the problem's models between solves within dimensions the problem accepts, and destroying solvers, problems and callbacks in any order.",
 ["inputs", "histories", "configurations"],
 "every dimension pattern (horizon one, zero controls, zero constraints at some nodes, constraint counts growing or shrinking along the horizon, states on manifolds), every call order over the public interface",
 "Release tests run with assertions off and without sanitizers on two fixed shapes; an out-of-bounds segment or an uninitialized read gives the right answer by luck.",
 [SQP, CSQP, PROX, DDP, "src/fddp.cpp", "src/kkt.cpp", "src/utils/callbacks.cpp"],
 ["allocation of per-node data in constructors", "resizeData", "index arithmetic of stacked vectors and sparse QP matrices", "circular filter buffers"],
 None, ["AddressSanitizer/UBSan/Eigen assertions", "comparison of runs with poisoned heap and poisoned Eigen storage"])

prop("S10", "The CSQP time budget is honoured at every deadline",
 "Given a maximum solve time, CSQP starts no new outer iteration and no new QP iteration once the elapsed time has reached the budget, then returns promptly with failure (unless the iterate already satisfied the tolerance) and a finite trajectory that is either the last iterate or that iterate moved along the partially solved direction, and reports that the limit was hit. If the budget is not reached, results are identical to those without a budget and no time-out is reported; a time-out never affects the next solve.",
 ["crash_points", "schedules", "configurations"],
 "every instant at which the clock can pass the deadline (before the first iteration, between any two QP iterations, between outer iterations, never), every problem and setting",
 "Wall-clock deadlines cannot be placed at a chosen point by a test; the existing timing test only checks one generous and one tiny budget.",
 [CSQP, H("csqp")],
 ["clock checks before each outer iteration and each QP iteration", "QP iteration count correction at time-out", "suppression of the extra iteration"],
 [("max_solve_time_reached", "time-out flag"), ("qp_iters", "QP iterations executed")],
 ["interposed clock reads", "return of solve()"])

prop("S11", "Model failures are contained",
 "If a model evaluation throws or produces NaN during a solve with SQP, CSQP or the ProxQP-based solver, the call returns (or lets that exception out) after finitely many further evaluations; it never reports success with a non-finite trajectory, cost, residual or multiplier, and failures confined to trial points only make the line search shorten the step, and (exceptions derived from std::exception) failures during a direction computation only raise the regularization. Afterwards the same solver object solves the healthy problem exactly as a fresh one does.",
 ["fault_sequences", "crash_points", "inputs"],
 "every model call (evaluation or derivative, any node, any iteration) as the failing one, once or persistently, by exception or by NaN in cost, dynamics, constraint or derivatives, on any problem",
 "No test injects a failing model; the exception handlers and NaN guards in the solvers are dead code for the test-suite.",
 [SQP, CSQP, PROX, DDP],
 ["exception handlers around direction computation and trial steps", "NaN guards", "regularization escalation"],
 None, ["instrumented models", "return of solve() and following solves"])

prop("S12", "Regularization follows its rules and every solve terminates",
 "The state and control regularization start at the given or minimal value, are multiplied by the increase factor after a failed direction computation or a step length at or below the increase threshold, divided by the decrease factor after a step length above the decrease threshold, stay within the configured minimum and maximum, and reaching the maximum ends the solve with failure. Every solve performs at most the requested number of iterations (plus one if the final KKT evaluation is requested) and terminates, whatever the curvature of the problem and the regularization settings; with regularization removed, CSQP uses none.",
 ["inputs", "configurations", "histories"],
 "every problem including indefinite and rank-deficient Hessians, every admissible setting of initial, minimal and maximal regularization, factors and thresholds, every sequence of step lengths",
 "The point-mass tests are convex and take full steps with the default settings, so neither escalation, nor thresholds, nor the upper limit are ever reached.",
 [SQP, CSQP, PROX, DDP],
 ["increaseRegularization/decreaseRegularization", "retry loop around direction computation", "threshold tests after the line search"],
 [("preg, dreg", "state and control regularization")],
 ["callbacks", "count of model evaluations", "return of solve()"])

prop("S13", "Callbacks are invoked faithfully and change nothing",
 "All registered callbacks run once per iteration of SQP and CSQP, in registration order, after the direction and KKT residual of that iteration are available and before the step is taken, including the converging iteration and the extra final one, and with the name of the solver. Observing (a user callback, the verbose printer or QP printing) changes no result, the verbose printer shows the figures the solver reports at that moment, and the logger records exactly one entry per iteration of each quantity.",
 ["configurations", "inputs", "histories"],
 "every problem, iteration count, number and kind of callbacks, print precision, solver reuse with changed callback lists",
 "Tests attach the printer at most to look at its output; no test compares the printed or logged figures with the solver's state or runs with and without callbacks.",
 [SQP, CSQP, "src/utils/callbacks.cpp", "include/mim_solvers/utils/callbacks.hpp", "bindings/mim_solvers/__init__.py"],
 ["callback loops in solve()", "CallbackVerbose formatting", "Python CallbackLogger"],
 None, ["recording callbacks", "captured standard output", "logger lists"])

prop("S14", "Invalid parameters and inputs are rejected without side effects",
 "Every documented restriction of a public setter (positive or bounded values, factors above one, decreasing positive step lengths) is enforced by an exception that leaves the previous value in force, and every value within the restriction is accepted, stored exactly and used by the next solve. Problems with equality constraints of the unsupported kind, and initial guesses with the wrong number or size of elements, are rejected by an exception, after which the solver remains usable.",
 ["inputs", "configurations", "histories"],
 "every value (boundary, infinite, out of range) of every parameter, every wrong-length guess, in any order before, between and after solves",
 "Tests set a few valid values; rejection paths, atomicity and the effect of a setter on the next solve are not covered.",
 [DDP, "src/kkt.cpp", "src/fddp.cpp", CSQP, PROX, H("csqp"), H("sqp")],
 ["validating setters", "constructors' check of nh", "setCandidate validation of guesses"],
 None, ["setters, getters and solve()"])

prop("S15", "The ProxQP-based solver assembles and solves the exact QP",
 "At every iteration of the ProxQP-based solver the exposed Hessian, gradient, equality and inequality matrices and bounds are exactly the stagewise cost, dynamics and constraint blocks of the problem at that iterate, each in the row and column of its node and zero elsewhere, for any pattern of dimensions. Unless that iterate is already certified as a solution (then it is kept, with its multipliers), the search direction and multipliers are the solution of that QP to the requested accuracy, mapped to the right nodes.",
 ["inputs", "configurations", "histories"],
 "every vector-state problem: any horizon, control and constraint dimensions varying along the horizon including zero, terminal constraints, infinite bounds, any current iterate and repeated solves",
 "The tests use problems whose control dimension is constant, for which wrong column offsets coincide with the right ones, and compare only final trajectories.",
 [PROX, H("csqp_proxqp")],
 ["block assembly in calc()", "scatter of the QP solution into directions and multipliers"],
 [("P, q, A, b, C, l, u", "assembled QP")],
 ["exposed matrices after solve()"])

prop("S16", "The Python bindings are a faithful view of the C++ solvers",
 "Every property of the Python solver classes reads the quantity it is named after and, where writable, changes exactly that setting, so that setting and reading back round-trips and no other property changes. Constructing, configuring and solving through Python gives bit-identical results to the same calls in C++, callbacks written in Python see the live solver, and the objects involved stay alive as long as they are needed.",
 ["programs", "configurations", "inputs"],
 "every property of every bound class, every admissible value, every problem and settings combination expressible on both sides, any lifetime order of solver, problem and callbacks",
 "The Python tests use a few properties each and never compare with C++; a property bound to the wrong member is not noticed.",
 ["bindings/sqp.cpp", "bindings/csqp.cpp", "bindings/csqp_proxqp.cpp", "bindings/ddp.cpp", "bindings/fddp.cpp", "bindings/utils/callbacks.cpp", "bindings/utils/callback-base.cpp", "bindings/mim_solvers/__init__.py"],
 ["Boost.Python property and method tables", "call policies", "callback wrapper"],
 None, ["Python attribute access and solve results"])

prop("S17", "The C++ solvers agree with the Python reference implementation",
 "On the same problem, guess and settings, the C++ CSQP and the Python reference implementation of the stagewise QP method produce, iteration by iteration, the same search directions, multipliers, residuals, penalties, QP iteration counts and final trajectories up to rounding, and C++ SQP agrees likewise with the Python SQP reference.",
 ["programs", "inputs", "configurations"],
 "every problem in the generated family that both implementations support, every penalty-update interval, relaxation and iteration limit",
 "The cross-checks in the test-suite cover three fixed problems with one setting each.",
 [CSQP, SQP, "python/csqp.py", "python/sqp.py", "python/sqp_cpp.py", "python/qp_solvers/stagewise_qp.py"],
 ["ADMM recursion and penalty update in both implementations"],
 None, ["attributes of both solvers after each solve"])

prop("S18", "Solvers respect the problem and the model evaluation protocol",
 "Solving never modifies the problem definition, the models, their bounds or the caller's initial guess. Model derivatives used in an iteration are always requested right after an evaluation of the same model and data at the same point, trial points are evaluated at exactly the trajectory they are judged by (SQP, CSQP and the ProxQP-based solver evaluate running nodes as running nodes, also those without controls), and the number of model evaluations per iteration stays within one derivative pass plus one evaluation per trial step (and one re-evaluation of the iterate after a fully rejected line search).",
 ["inputs", "histories", "configurations"],
 "every problem and every history of accepted, shortened and rejected steps, failed directions and repeated solves",
 "Library models recompute everything in their derivative call, so tests cannot see a derivative taken from data evaluated at a rejected trial point; models that cache (as the robot-dynamics models do) would get wrong derivatives.",
 [SQP, CSQP, PROX, DDP, "src/fddp.cpp", "src/kkt.cpp"],
 ["calc/calcDiff ordering", "tryStep evaluations", "refresh after a rejected line search"],
 None, ["instrumented models logging each evaluation"])

prop("S19", "DDP, FDDP and the KKT solver take genuine steps and report genuine results",
 "In the development solvers SolverDDP, SolverFDDP and SolverKKT every direction is the exact solution of the local quadratic problem at the current iterate (Riccati recursion or full KKT system), every trial trajectory is the rollout or step that the solver announces for its step length (including FDDP's contraction of the gaps), and a trial is accepted exactly when the solver's acceptance rule holds for cost and gaps recomputed at that trial; the accepted trial is the next iterate, and without one the iterate is unchanged. A trial whose cost or dynamics are not finite is rejected. The stopping figure and the KKT residual equal their recomputation with the multipliers in hand, success is reported only when the termination test holds for them, never with a NaN or infinite cost or residual, and a solve leaves nothing behind that changes the next one.",
 ["inputs", "configurations", "histories"],
 "every shooting problem without constraints, every guess, step list, tolerance and line-search setting of the three solvers, every history of solves and every model call that throws or yields NaN or infinity",
 "The tests run these solvers on a few convergent problems and compare the end point with that of another solver, so a wrong gap contraction, sign or stale multiplier that only costs iterations passes, and no test feeds them a model that fails.",
 [DDP, "src/fddp.cpp", "src/kkt.cpp", H("ddp"), H("fddp"), H("kkt")],
 ["backwardPass, forwardPass, computePrimalDual", "filter and cost-decrease acceptance in solve()", "checkKKTConditions, stoppingCriteria and the success test"],
 None, ["return of solve()", "virtual steps computeDirection, tryStep", "callbacks of SolverKKT"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
