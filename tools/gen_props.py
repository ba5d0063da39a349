#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wrapping is readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
                     mechanism=[dict(zip(("name","where"), m)) for m in mechanism],
                     observe_at=list(observe), hook_needed=None)))

SQP, CSQP, PROX, DDP, FDDP, KKT = ("src/sqp.cpp","src/csqp.cpp","src/csqp_proxqp.cpp","src/ddp.cpp","src/fddp.cpp","src/kkt.cpp")
p("C01","solve() returning true certifies a KKT point of the user's problem",
  "Whenever solve() of SolverSQP, SolverCSQP or SolverPROXQP returns true, the returned trajectory starts at x0, contains only finite numbers, has dynamics gaps and constraint violation at every node (running and terminal, lower and upper side) within the termination tolerance, and is stationary for the problem within that tolerance. This holds for every problem, initial guess, option set, iteration limit and extra final KKT iteration, including after rejected line searches, non-finite derivatives and earlier solves. Conversely solve() returns true in the first iteration whose reported KKT residual is at or below the tolerance, and never after one that is above it.",
  ["inputs","configurations","histories","fault_sequences"],
  "every bounded problem of the enumerated family (horizon, dimensions, constraint classes, nonlinearity, manifolds), every guess, option set and every pattern of accepted, rejected and NaN trial steps up to the stated depth",
  "The tests solve a few LQ problems with T=25 that converge in one iteration from one guess; none rejects a step, produces a NaN, or recomputes the residual independently of the solver.",
  [SQP,CSQP,PROX,DDP], [("checkKKTConditions","%s, %s, %s"%(SQP,CSQP,PROX)),("termination test in solve",SQP)],
  [("KKT","reported first-order residual","get_KKT")], ["solve() result, xs, us, fs, KKT"])
p("C02","SQP search direction and multipliers solve the regularised LQ subproblem",
  "At every SolverSQP iteration the direction (dx, du) and the dynamics multipliers are the unique solution of the linear-quadratic subproblem built from the current derivatives, gaps and regularisation, starting from dx[0]=0. This holds for every horizon, control dimension that varies along the horizon (including zero), indefinite blocks repaired by regularisation, and open gaps.",
  ["inputs","configurations"],
  "all problems of the enumerated family (horizon 1..5, nx 1..3, nu 0..2 per node in all patterns, derivative alphabets, gaps, regularisation)",
  "The tests only look at the converged result of well conditioned LQ problems with constant nu and never compare a direction with an independent dense solution.",
  [SQP,DDP],[("backwardPass/computeGains",DDP),("forwardPass",SQP)],(),["get_dx, get_du, lag_mul"])
p("C03","CSQP's inner QP solver stops early only at a solution of the QP",
  "When SolverCSQP's QP loop ends before its iteration budget, the direction satisfies the linearised dynamics exactly, and together with the constraint multipliers it solves the stagewise QP within the configured absolute and relative tolerances: primal and dual residuals below tolerance, multipliers of inactive rows zero, multipliers non-negative at upper and non-positive at lower bounds. The result does not depend on how rows are classified (equality, one-sided, two-sided, unbounded) or on which node, running or terminal, carries them.",
  ["inputs","configurations"],
  "all bounded stagewise QPs of the family: every assignment of row classes to nodes, bound patterns, dimensions, and QP settings (tolerances, relaxation, proximal term, update interval, warm start)",
  "The tests compare converged trajectories on a few point-mass problems with one constraint layout each; residuals and multipliers are never recomputed.",
  [CSQP],[("computeDirection, update_lagrangian_parameters, backwardPass*, forwardPass*",CSQP)],
  [("y, z","multipliers and projected rows","get_y, get_z")],["get_dx_tilde, get_du_tilde, get_y, get_z, get_qp_iters"])
p("C04","CSQP penalty (rho) policy per constraint row",
  "In SolverCSQP the penalty of a two-sided or one-sided inequality row equals the current sparse penalty, of an equality row (bounds closer than 1e-6) 1e3 times it, and of an unbounded row the minimum penalty, at every node including the terminal one. The sparse penalty starts each solve (and, with reset_rho, each QP) at its base value, is re-estimated from the residual ratio only at multiples of the update interval, changes only when the estimate differs by more than the adaptive tolerance factor, and always stays within [rho_min, rho_max].",
  ["inputs","configurations","histories"],
  "every row-class layout over running and terminal nodes, every update interval 1..6 and adaptation factor of the alphabet, every prefix of the QP iterations up to the bound, repeated QPs and solves",
  "No test reads the penalties; the test problems never adapt them at other than the default interval.",
  [CSQP],[("update_rho_vec, reset_rho_vec, apply_rho_update",CSQP)],[("rho_sparse","current penalty","get_rho_sparse, get_rho_vec")],["get_rho_vec, get_rho_sparse"])
p("C05","PROXQP assembles and solves the same QP for every problem layout",
  "SolverPROXQP's search direction and multipliers solve exactly the stagewise QP linearised at the current iterate, for every horizon, per-node control dimension (the code states nu may change over time), per-node number of constraint rows, and constraint class. The exposed matrices P, A, C and vectors q, b, l, u describe that QP, so the direction is feasible for the linearised dynamics and constraints and optimal within the QP tolerances.",
  ["inputs","configurations"],
  "all layouts of the enumerated family: horizon 1..4, nu pattern per node, ng pattern per node, row classes, linearisation points along a solve",
  "The tests run PROXQP on problems whose nodes all have the same nu and compare only the final trajectory.",
  [PROX],[("calc, computeDirection",PROX)],(),["get_P, get_A, get_C, get_q, get_b, get_l, get_u, get_dx, get_du"])
p("C06","Filter line search accepts exactly the first non-dominated step",
  "With the filter line search, each iteration of SolverSQP, SolverCSQP and SolverPROXQP tries the step lengths in the configured order and takes the first one whose trial point is finite and not dominated (cost, gap norm and, for the constrained solvers, constraint norm all at least as large) by any of the min(filter_size, k+1) most recent iterates of this solve, the current one included. Dominated or NaN trials are skipped; filter entries of earlier solves or from before a change of the filter size never matter.",
  ["inputs","histories","configurations","fault_sequences"],
  "all sequences of trial outcomes (cost, gap, constraint level in a finite alphabet, NaN) over up to three iterations and three step lengths, all filter sizes 0..4 and changes of it between solves, repeated solves",
  "The tests' LQ problems accept the full step in the first iteration, so neither rejection, memory beyond one entry nor NaN handling is executed.",
  [SQP,CSQP,PROX],[("line search loop in solve, tryStep","%s, %s, %s"%(SQP,CSQP,PROX)),("set_filter_size","include/mim_solvers/sqp.hpp")],
  [("cost_list_, gap_list_, constraint_list_","filter memory","solvers")],["iterate sequence seen by callbacks and by the action models"])
p("C07","Merit line search accepts exactly the first step that lowers the merit",
  "With the filter disabled, each iteration takes the first step length, in the configured order, whose trial merit (cost plus weighted gap and constraint norms, with the dynamic weight derived from the multipliers when a weight is negative in SolverCSQP) is strictly below the merit of the current iterate, and skips NaN trials. The weights in force are the ones the user set, and both merits are evaluated with the same weights.",
  ["inputs","configurations","fault_sequences"],
  "all sequences of trial outcomes over the finite alphabet up to three iterations and three step lengths, all weight settings of the alphabet including zero and negative ones",
  "No test disables the filter on a problem where the full step is rejected.",
  [SQP,CSQP,PROX],[("merit computation in computeDirection/solve and tryStep","%s, %s, %s"%(SQP,CSQP,PROX))],(),["iterate sequence, get_merit"])
p("C08","Rejected or failed trial steps leave no trace in the iterate",
  "At every callback and on return, xs[0] equals the problem's x0, xs/us have the problem's sizes, and the iterate is either the initial guess or the previous iterate plus exactly one accepted step length times the last direction. If every trial of an iteration is rejected or non-finite, the iterate is unchanged and everything computed afterwards (cost, gaps, residual, direction) is that of the unchanged iterate, not of the last trial.",
  ["inputs","histories","fault_sequences"],
  "all patterns of accepted/rejected/NaN trials up to the bound, for SQP, CSQP and PROXQP, filter and merit mode",
  "No test makes a line search fail; the stale-data path after rejection is never executed.",
  [SQP,CSQP,PROX,DDP],[("setCandidate after acceptance, calc before derivatives","%s, %s"%(SQP,DDP))],(),["xs, us, cost, gap norm, KKT at callbacks and on return"])
p("C09","Metrics reported at a callback describe the iterate shown with them",
  "At each iteration callback of SolverSQP and SolverCSQP, the cost, gap norm, constraint norm, KKT residual, merit, direction norms and gap vectors equal those recomputed from the trajectory, multipliers and direction exposed at that moment; the step length is the one accepted in the previous iteration; and the QP iteration count is the number of QP iterations actually executed. SolverPROXQP's and SolverSQP's and SolverCSQP's getters also agree, after solve() returned true, with the returned trajectory, whichever class the getter is called through.",
  ["inputs","histories","configurations"],
  "all enumerated problems and trial-outcome histories, all solvers, filter/merit mode and weight settings",
  "Tests check only cost ordering and final feasibility; none recomputes the logged metrics.",
  [SQP,CSQP,PROX,"include/mim_solvers/csqp_proxqp.hpp"],[("computeDirection, calc, checkKKTConditions","%s, %s, %s"%(SQP,CSQP,PROX))],(),["getters inside callbacks"])
p("C10","Regularisation stays in bounds and follows the step-length policy",
  "The regularisation starts at the minimum (or at the value given to solve), stays within [reg_min, reg_max] whenever it started there, is divided by the decrease factor after a step length above th_stepdec, multiplied by the increase factor after one at or below th_stepinc (SolverSQP, SolverPROXQP, SolverDDP, SolverFDDP) or not above th_stepdec (SolverCSQP), and multiplied whenever a factorisation fails, retrying without moving the iterate. Reaching reg_max ends solve() with false; with remove_reg it is zero throughout in SolverCSQP.",
  ["inputs","histories","configurations","fault_sequences"],
  "all sequences of factorisation failures and accepted step lengths up to the bound, all factors, bounds and thresholds of the alphabet, all solvers",
  "Test problems are strictly convex: no factorisation fails and no reduced step is accepted.",
  [SQP,CSQP,PROX,DDP,FDDP],[("increaseRegularization, decreaseRegularization",DDP),("regularisation logic in solve","%s, %s"%(SQP,CSQP))],[("preg, dreg","regularisation","get_preg")],["get_preg at callbacks and on return, solve result"])
p("C11","Iteration budgets are respected and callbacks fire once per iteration",
  "solve(maxiter) evaluates at most maxiter search directions plus one when the extra KKT iteration is enabled, moves the iterate at most maxiter times, and with maxiter 0 and no extra iteration returns false leaving the guess in place. Every registered callback of SolverSQP and SolverCSQP is invoked exactly once per computed direction, in registration order, with the iteration number. An exception thrown by a callback, or by a model while the current iterate is evaluated, reaches the caller and leaves the solver usable; one thrown in a trial step only rejects that trial. The QP loop runs at most max_qp_iters iterations and reports the number it ran.",
  ["inputs","histories","configurations","fault_sequences"],
  "maxiter 0..4, extra iteration on/off, 0..2 callbacks, throwing at every point, max_qp_iters 0..30 against every update interval, all trial outcome patterns",
  "Tests run with one maxiter and no callbacks or a plain verbose one.",
  [SQP,CSQP,PROX],[("main loops of solve and computeDirection","%s, %s"%(SQP,CSQP))],(),["callback log, get_iter, get_qp_iters, model call log"])
p("C12","CSQP's time limit stops the solver at the first clock reading past it",
  "With max_solve_time set, SolverCSQP stops at the first point of its outer or QP loop at which the clock shows that the limit has elapsed since solve() began: no further QP iteration is started, the time-out flag is raised exactly then, no final extra iteration is run, and the trajectory returned is a legitimate iterate. Without elapsed limit the flag is false and the result is the same as with no limit; a later solve() starts with a fresh clock and flag.",
  ["schedules","histories","configurations"],
  "every position of the deadline among the clock readings of a solve, for every configuration of the family, with and without extra iteration, factorisation failure and second solve",
  "No test sets a time limit; wall-clock tests could only hit one arbitrary position.",
  [CSQP],[("take_time checks in solve and computeDirection",CSQP)],[("max_solve_time_reached","time-out flag","get_max_solve_time_reached")],["clock readings, qp_iters, flag, result"])
p("C13","A solve depends only on the problem, the guess and the options",
  "Calling solve() with a given problem, guess and options gives the same return value, trajectory, iteration count and reported metrics whatever solves, option changes since reverted, or failed or aborted solves were made on that solver object before (for SolverCSQP with reset_y set, which declares the multiplier warm start). Passing empty guesses restarts from zero states and controls, and passing the same options again is idempotent.",
  ["histories","configurations","inputs"],
  "all operation sequences (solve from several guesses, change x0 and back, change each option and back, aborted solve, time-out, NaN problem) up to depth 3 before the observed solve, for every solver",
  "Each test constructs a fresh solver and solves once or twice.",
  [SQP,CSQP,PROX,DDP],[("reinitialisation at the start of solve","%s, %s, %s"%(SQP,CSQP,PROX))],(),["solve result and getters"])
p("C14","Updating the problem between solves equals building a fresh solver",
  "After changing x0, constraint bounds, model parameters, replacing running or terminal models (same or different control dimension and number of constraint rows) or shifting the horizon through the shooting problem, with or without solves in between, the next solve() of SolverSQP, SolverCSQP (with multipliers reset), SolverPROXQP, SolverDDP or SolverFDDP gives the result a newly constructed solver gives on the updated problem.",
  ["histories","inputs"],
  "all sequences of up to two updates from the alphabet between solves, over the enumerated problem family",
  "No test updates a problem between solves.",
  [SQP,CSQP,PROX,DDP,FDDP],[("resizeData","%s, %s, %s"%(DDP,CSQP,PROX))],(),["solve result and getters vs fresh solver"])
p("C15","The solvers agree with each other and with the exact optimum",
  "On a problem with linear dynamics, convex quadratic cost and affine constraints SolverSQP (if unconstrained), SolverCSQP and SolverPROXQP return the exact minimiser whenever they report convergence, whatever the guess and the options, and SolverSQP does so within a few iterations; without constraints every solver (SolverSQP, SolverCSQP, SolverPROXQP, SolverDDP, SolverFDDP, SolverKKT) reaches it with the first full step it takes. On nonlinear problems without constraints SolverSQP and SolverCSQP follow the same sequence of iterates when their regularisation thresholds agree.",
  ["inputs","configurations"],
  "all LQ and box/affine constrained problems of the enumerated family with the reference optimum found by exhaustive active-set enumeration",
  "Tests compare solvers on four point-mass problems with one constraint layout each.",
  [SQP,CSQP,PROX,DDP,FDDP,KKT],[("solve","all solvers")],(),["xs, us, result"])
p("C16","Unsupported problems and invalid options are rejected, valid ones stored",
  "Constructing SolverCSQP or SolverPROXQP on a problem in which any node, running or terminal, has equality constraints of Crocoddyl's native API throws, and otherwise succeeds. Each validated option setter (regularisation factors and bounds, step-length list, step thresholds, gradient threshold, step length of a trial) throws on exactly the documented invalid values and then leaves the old value in force; every accepted value is returned unchanged by its getter and takes effect.",
  ["inputs","configurations","programs"],
  "all placements of native equality constraints over nodes, all setters with all values of a boundary alphabet, all pairs of setter calls",
  "Tests construct valid solvers only and set one or two options.",
  [CSQP,PROX,DDP,FDDP],[("constructor checks","%s, %s"%(CSQP,PROX)),("set_*",DDP)],(),["exceptions, getters"])
p("C17","No memory error for any problem shape, option or operation order",
  "Constructing, configuring, solving, re-solving and querying any solver never reads or writes outside its storage, uses uninitialised or mismatched-size data, or has undefined behaviour, for every horizon from one, every per-node control dimension including zero, every per-node number of constraint rows including zero, state manifolds where nx differs from ndx, and any order of public calls.",
  ["inputs","programs","configurations"],
  "all shapes within the bound and all public operation sequences up to depth 3, executed with address and undefined-behaviour instrumentation and matrix-size assertions",
  "Tests build without sanitizers or size assertions and use constant shapes.",
  [SQP,CSQP,PROX,DDP,FDDP,KKT],[("allocation in constructors, resizeData","all solvers")],(),["sanitizer reports, assertions"])
p("C18","The multithreaded build computes the same results for every schedule",
  "Compiled with multithreading, SolverCSQP and SolverSQP give, for every number of threads and every interleaving of the worker threads, the same result as single-threaded execution up to floating-point summation order, without data races, and trial steps that become NaN are skipped in the same way.",
  ["schedules","inputs","configurations"],
  "every assignment and order of worker chunks for 1..4 threads over the enumerated problem shapes, plus race detection on every parallel region",
  "The test build has multithreading off; a threaded test would sample one schedule.",
  [CSQP,SQP],[("omp parallel regions: backwardPass_mt, backwardPass_without_rho_update_mt, update_lagrangian_parameters, tryStep",CSQP)],(),["results under a controlled OpenMP runtime"])
p("C19","Verbose callback prints one faithful row per iteration",
  "CallbackVerbose prints, for SolverSQP and SolverCSQP, exactly one row per iteration (with a header every ten iterations) whose fields are the iteration number and the solver's current metrics (for SolverDDP and SolverFDDP: cost, step length and KKT residual) at the configured precision, with dashes in place of step, direction norm and QP iterations once the KKT residual is below the tolerance, and for any other solver it prints its row or fails cleanly without touching unrelated memory. Printing never changes the course or the result of the solve.",
  ["inputs","configurations","histories"],
  "all solvers, precisions 0..6, iteration counts across the header period, converged and unconverged rows",
  "The tests never parse the output.",
  ["src/utils/callbacks.cpp",DDP,FDDP],[("CallbackVerbose::operator()","src/utils/callbacks.cpp")],(),["captured standard output"])
p("C20","Python bindings expose the C++ solvers faithfully",
  "Every option set from Python is the option in force in the C++ solver and reads back unchanged, every exposed quantity equals the C++ one, solve() from Python returns what the C++ solve() returns, and C++ exceptions become Python exceptions leaving the solver usable. CallbackLogger records, per iteration, exactly the values the solver reports at that iteration, and Python-implemented callbacks and action models are invoked at the same points as C++ ones.",
  ["inputs","programs","histories","configurations"],
  "every exposed property and method with boundary values, all pairs of option settings of the alphabet, all trial outcome patterns up to the bound",
  "The Python tests only run whole solves and compare final trajectories.",
  ["bindings/sqp.cpp","bindings/csqp.cpp","bindings/csqp_proxqp.cpp","bindings/ddp.cpp","bindings/fddp.cpp","bindings/mim_solvers/__init__.py"],
  [("Boost.Python class declarations","bindings/*.cpp"),("CallbackLogger","bindings/mim_solvers/__init__.py")],(),["Python attribute values, logs"])
p("C21","The pure-Python reference solvers agree with the C++ solvers",
  "The Python implementations of SQP and CSQP (with each supported QP backend) compute, for the same problem and guess, the same search direction, multipliers, metrics (cost, gap and constraint norms, merit, KKT residual) and convergence verdict as the C++ solvers: each iteration solves the QP of the current iterate, accepts the first of the ten step lengths 1, 1/2, ... that the filter (of the chosen size) or the merit function does not reject, and reports convergence exactly when the KKT residual of the iterate is below the tolerance; the caller's arguments are left unchanged. (States and controls of dimension at least 2, the same number of controls at each node, no node with exactly one constraint row: eigenpy hands one-row matrices to Python as vectors.)",
  ["inputs","configurations"],
  "all enumerated LQ and constrained problems, guesses and backends",
  "The Python tests compare on the few shipped example problems.",
  ["python/sqp.py","python/csqp.py","python/sqp_cpp.py","python/qp_solvers"],[("solve, computeDirection, calc","python/*.py")],(),["xs, us, KKT, return value"])
p("C22","DDP and FDDP never accept an unacceptable step",
  "SolverDDP and SolverFDDP compute the Riccati policy of the current linear-quadratic subproblem, try the step lengths in order, each trial being the roll-out (for SolverFDDP with the gaps contracted by the step length) of that policy, and accept only steps allowed by their acceptance test (Goldstein condition, for SolverFDDP also its filter); a trial whose evaluation fails or is not finite is skipped. After acceptance the stored cost is the cost of the stored trajectory, accepted trajectories of SolverDDP are dynamically feasible roll-outs from x0, and solve() returns true only at a point whose first-order residual, recomputed from the problem, is within the termination tolerance.",
  ["inputs","histories","configurations"],
  "all enumerated problems, guesses (feasible or not) and trial outcome patterns up to the bound",
  "The legacy solvers are tested only on LQ problems where the first full step is optimal.",
  [DDP,FDDP],[("solve, forwardPass, expectedImprovement","%s, %s"%(DDP,FDDP))],(),["cost, xs, us, result"])
p("C23","SolverKKT's step is the exact Newton step of the LQ subproblem",
  "SolverKKT's primal-dual step solves the full KKT system of the linearised problem at the current guess for every horizon and dimension, its matrix and residual are assembled from the current derivatives, and the accepted trajectory never has a larger cost than its acceptance test allows and never a cost that is not finite; its verdict follows the first-order residual recomputed from the problem, and updates of the problem between solves are taken into account.",
  ["inputs","configurations"],
  "all enumerated unconstrained problems of the family",
  "Tests run one LQ problem.",
  [KKT],[("computeDirection, tryStep",KKT)],(),["kkt, kktref, primaldual, dxs, dus, lambdas"])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P),"properties")
