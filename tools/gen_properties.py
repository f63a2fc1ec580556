"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os

S = "src/rkopenmdao/"
SD = S + "time_discretization/stage_ordered_runge_kutta_discretization.py"
ST = S + "time_discretization/runge_kutta_discretization_state.py"
TIS = S + "time_integration_state.py"
RKI = S + "runge_kutta_integrator.py"
CP = S + "checkpoint_interface/"
EC = S + "error_controller.py"
ECS = S + "error_controllers.py"
OM = S + "discretized_ode/openmdao_ode.py"
ME = S + "metadata_extractor.py"
FW = S + "file_writer.py"
BT = S + "butcher_tableau.py"
BTX = S + "butcher_tableaux.py"
TC = S + "termination_criterion.py"
EM = S + "error_measurer.py"
CB = S + "callback.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe or [],
                "hook_needed": None,
            },
        }
    )


prop("C01", "One primal step is the Runge-Kutta step of the given tableau",
     "For every explicit or diagonally implicit tableau, ODE, start state, start time and step size h, a primal step evaluates stage i = 1..s in order at time t + c_i h with the unchanged start state, the weighted sum over the earlier stages sum_{j<i} a_ij k_j, the unchanged independent inputs, the step size h and the diagonal coefficient a_ii. It stores every stage's update, state, independent output and linearization point under that stage, and returns time t + h and state y + h sum b_i k_i. Embedded schemes additionally return y + h sum bhat_i k_i and, as error estimate, the difference of the two solutions.",
     ["inputs", "configurations", "programs"], "all tableaux of any stage count, all ODE implementations, all states, times and step sizes",
     "Tests run about two dozen tableaux on a handful of scalar ODEs and compare with tolerances; coefficients multiplied by zero or coinciding in those tableaux (c_1 = 0, zero start time, equal weights) hide wrong indices.",
     [SD, S + "time_discretization/time_discretization_scheme_interface.py"],
     [("compute_step and its stage loop", SD), ("embedded error estimate", SD)])

prop("C02", "The forward-mode step is the exact linearization of the primal step",
     "For every tableau, ODE and perturbation, the forward-mode step maps perturbations of start state, start time and independent inputs to those of the final state and final time by differentiating the primal step formula exactly: stage i receives the perturbed start state, sum_{j<i} a_ij dk_j, the perturbed independent inputs, the perturbed start time, the step size, a_ii and the linearization point that the primal step stored for stage i. The primal data of the step is left unchanged.",
     ["inputs", "configurations", "programs"], "all tableaux, ODEs, linearization points and perturbation directions",
     "Derivative tests compare with finite differences or dot products for a few tableaux and seeds with tolerances; stale data or a wrong stage's linearization point is invisible on linear or autonomous test problems.",
     [SD], [("compute_step_derivative", SD)])

prop("C03", "The reverse-mode step is the exact transpose of the forward-mode step",
     "For every tableau, ODE and seed, the reverse-mode step applies the transpose of the forward-mode step: stages are visited from last to first, stage i is seeded with h b_i times the final-state seed plus sum_{j>i} a_ji times the stage-input adjoint of stage j, at the linearization point stored for stage i. Adjoint contributions of all stages are accumulated into the start state, the independent inputs and the start time, on top of the direct final-state and final-time seeds, and nothing left over from earlier uses of the perturbation storage influences the result.",
     ["inputs", "configurations", "histories"], "all tableaux, ODEs, linearization points, seeds, and any previous content of the perturbation storage",
     "Duality tests use few tableaux/ODEs, fresh perturbation objects and random seeds within tolerance; they do not vary the history of the perturbation storage.",
     [SD], [("compute_step_adjoint_derivative", SD)])

prop("C04", "State copy and dict export/import cover every field",
     "Setting one integration or discretization state from another copies the content of every data field (including the embedded solution and error estimate) into the existing storage of the target. Exporting a state to a dict exposes every field, and importing that dict yields a state of the same kind with identical content in every field.",
     ["inputs", "histories"], "all states of every kind, all field contents, all sizes",
     "No test imports from a dict at all; copies are only exercised for the fields a later step happens to read.",
     [ST, TIS], [("set / to_dict / from_dict", ST), ("set / to_dict / from_dict", TIS)])

prop("C05", "Checkpoints own their data; live states keep their storage",
     "Data saved as a checkpoint is an independent copy: no later step, seed or run can change it. Conversely the arrays of the live states handed to the checkpointer at setup are never replaced by other arrays, only written in place, so that the memory a checkpointer saves from and restores into is the memory the steps use; distinct fields of a state never share memory.",
     ["histories", "programs"], "all sequences of steps, checkpoint saves, restores and re-runs",
     "Aliasing only shows when a saved object is later overwritten and then read again; tests run short histories with one checkpoint layout.",
     [CP + "all_checkpointer.py", CP + "pyrevolve_checkpointer.py", CP + "runge_kutta_integrator_pyrevolve_classes.py", ST, TIS, SD, RKI],
     [("deepcopy into the storage", CP + "all_checkpointer.py"), ("get_data / get_data_location", CP + "runge_kutta_integrator_pyrevolve_classes.py"), ("in-place set", TIS)])

prop("C06", "Forward iteration runs steps 1..N and stops when the criterion says so",
     "Every checkpointing strategy starts the primal integration from exactly the given initial state, performs steps numbered 1, 2, ..., N consecutively, each starting from the result of the previous one, asks the termination criterion before every step (or runs exactly its predefined number of steps), and returns the state after step N. The forward-mode derivative run uses the same step sequence and numbering.",
     ["histories", "configurations", "inputs"], "all termination criteria, step counts and checkpointing strategies/options",
     "Tests use few step counts and compare final values only; step numbering and the state a criterion sees are not observed for every strategy.",
     [CP + "all_checkpointer.py", CP + "no_checkpointer.py", CP + "pyrevolve_checkpointer.py", CP + "runge_kutta_integrator_pyrevolve_classes.py", RKI],
     [("iterate_forward", CP), ("forward operator apply", CP + "runge_kutta_integrator_pyrevolve_classes.py")])

prop("C07", "Reverse iteration visits every step once, last to first, with its own data",
     "After a forward run of N steps, reverse iteration calls the reverse step exactly once for each of the steps N, N-1, ..., 1, with that step's number, the primal data saved for exactly that step, and the perturbation produced by the step after it, starting from the given final seed, and returns the perturbation at the initial time. A strategy that cannot provide this (no checkpoints, or a termination criterion it does not support) refuses with an error instead of returning a wrong derivative.",
     ["histories", "configurations"], "all step counts, checkpoint numbers and revolver types",
     "The revolver tests use ten steps and few checkpoint layouts; wrong pairing can cancel on linear problems where all linearization points agree.",
     [CP + "all_checkpointer.py", CP + "no_checkpointer.py", CP + "pyrevolve_checkpointer.py", CP + "runge_kutta_integrator_pyrevolve_classes.py"],
     [("iterate_reverse", CP), ("reverse operator apply", CP + "runge_kutta_integrator_pyrevolve_classes.py")])

prop("C08", "Reverse mode never uses checkpoints of another or unfinished run",
     "A reverse-mode product at given inputs reuses existing checkpoints only if they stem from a forward run that completed with exactly these inputs (initial values, independent inputs and initial time) and have not been consumed or overwritten since; otherwise it first re-runs the forward integration at the current inputs. A failed forward or reverse run, or a new setup, never leaves checkpoints behind that a later call would reuse.",
     ["histories", "fault_sequences", "inputs"], "all call sequences of setup, primal, forward-mode and reverse-mode calls at arbitrary inputs, with failures at any point",
     "Tests call reverse mode right after a successful primal run at the same inputs; mixed histories and failed runs are not sampled.",
     [RKI], [("cached input comparison before the reverse run", RKI), ("cache invalidation after the reverse run", RKI)])

prop("C09", "Only steps within tolerance are accepted and rejected steps leave no trace",
     "With adaptive step size control a step becomes part of the trajectory only if its error measure is at most the tolerance or its step size is at the configured lower bound. A rejected attempt leaves state, time, step size history and error history exactly as they were, and the retry starts from the same state with the new suggestion. On acceptance the used step size and its error measure are put first into the histories, older entries move back, and the derivative run uses exactly the accepted step sizes.",
     ["inputs", "histories", "configurations"], "all problems, tolerances, controllers, and accept/reject sequences",
     "Adaptive tests run a few tolerances in which rejections are rare; a leaked attempt perturbs results below the test tolerances.",
     [RKI, EC], [("step iteration loop", RKI), ("acceptance decision", EC)])

prop("C10", "Step size suggestions follow the documented control law and its bounds",
     "The suggested step size is the documented control law, safety * h * (tol/err)^alpha (err_1/tol)^beta (tol/err_2)^gamma (h/h_1)^a (h_1/h_2)^b with factors involving not yet existing previous steps left out, limited to the lower and upper bound and finally to the remaining time, so that an adaptive run never steps past a predefined final time. After a rejection the retry step size is strictly smaller than the rejected one, or an error is raised; a chained controller takes over when the preceding one fails to achieve this within its allowed number of retries.",
     ["inputs", "histories", "configurations"], "all error measures, histories, bounds, controllers and controller chains",
     "The unit tests evaluate three controllers on one or two calls; chains, bounds and the rejection branch are not covered.",
     [EC, RKI, TC], [("step size estimate and clamping", EC), ("controller chain", EC)])

prop("C11", "A run depends only on its inputs and options, not on earlier runs",
     "Outputs and derivatives of the integrator at given inputs are the same whatever was run before on the same object (other inputs, other modes, failed runs): every piece of working state that a run reads is first set from the inputs or options of that run. In particular start time, step size suggestion, step size and error histories, controller state and checkpoint storage start afresh.",
     ["histories", "fault_sequences"], "all histories of primal, forward and reverse calls on one object, including failed ones",
     "Most tests make one call per object; carried-over state only shows in repeated or failed runs.",
     [RKI, EC, CP + "all_checkpointer.py", CP + "pyrevolve_checkpointer.py"], [("preparation phases", RKI), ("reset of error control", RKI), ("create_checkpointer", CP)])

prop("C12", "Every input and output quantity reaches its own slice in every mode",
     "The integrator declares one initial-value input and one final-value output per time integration quantity, one input per independent quantity, and initial/final time. In each mode every such variable is transferred completely from/to the slice belonging to that quantity (primal: inputs in, finals and final time out; forward: input and seed slices in, output derivatives out; reverse: output seeds in with zeroed independent-input accumulators, and derivatives of all initial values, independent inputs and initial time out). Inputs the user leaves unset start from the value the stage problem holds for that quantity (zero where the stage problem has no step input for it, and zero for the initial time).",
     ["inputs", "configurations"], "all numbers, shapes and orders of quantities and all modes",
     "Tests use one or two quantities and usually zero initial time seeds; a swapped or missing transfer only shows for particular combinations.",
     [RKI], [("to/from numpy array transfers", RKI), ("add_input/add_output", RKI)])

prop("C13", "Each executed step is bracketed by its mode's callbacks",
     "In each mode every executed step first calls before-iteration once on each registered callback of that mode in the registered order, then performs the step, then calls after-iteration once on each in the same order, with the same step number and with the state before, respectively after, the step, together with the ODE and the discretization scheme. User supplied callback lists are used as given; default callbacks are installed only where none were given.",
     ["histories", "configurations"], "all modes, callback lists and step counts",
     "Callback tests count calls for one configuration.",
     [RKI, CB], [("step functions of the three modes", RKI), ("callback registration in setup", RKI)])

prop("C14", "Stage data reaches the right stage-problem variables, symmetrically",
     "For every locally present quantity, the stage problem's step input, accumulated stage input and independent input variables receive exactly that quantity's slices, the time variable receives the stage time, and stage outputs are read back from that quantity's output variable into its slice. Linear forward and reverse products use the same variables and slices with one common sign convention (negated seeds into the linear system), so that the reverse product is the transpose of the forward one.",
     ["inputs", "configurations", "programs"], "all stage problems: any number, shape and order of quantities, with or without step inputs, time variable and independent inputs",
     "Tests use a handful of stage problems; an asymmetric guard or slice only shows for particular combinations of variables.",
     [OM], [("transfers between states and OpenMDAO vectors", OM)])

prop("C15", "Linear stage solves happen at the requested linearization point",
     "A stage's linearization point is a complete copy of all inputs and outputs of the stage problem after that stage's nonlinear solve, and restoring it restores all of them. Before each linear stage solve the model is set to the requested linearization point and to the step size and stage factor of that stage, is linearized after that, and the right-hand side is cleared (of any earlier value, also a non-finite one) before the seeds are written; before each nonlinear solve, inputs, step size and stage factor of that stage are set. Every unsteady component of the stage problem sees these values.",
     ["histories", "inputs", "programs"], "all interleavings of nonlinear, forward and reverse stage evaluations on the same stage problem",
     "Stale linearizations are invisible for linear problems and single-stage schemes, which most tests use.",
     [OM, S + "om_data_exchange.py", S + "components.py", SD], [("get/set linearization point", OM), ("data exchange object", S + "om_data_exchange.py")])

prop("C16", "Quantity slices partition the vectors; bad tag sets are rejected at setup",
     "The slices of all local time integration quantities are contiguous, pairwise disjoint, each as long as the variable, and together exactly cover the state vector; the same holds for independent inputs. A stage problem whose tags are inconsistent (a quantity without or with several output variables, step input without accumulated stage input, several quantity tags on one variable, non-scalar or repeated time variable, a requested quantity that does not exist) is rejected with a setup error, and a consistent one is accepted.",
     ["configurations", "inputs"], "all stage problems and tag assignments",
     "Tests check a dozen hand-written tag sets.",
     [ME], [("extract_time_integration_metadata", ME), ("add_time_independent_input_metadata", ME)])

prop("C17", "Collective MPI operations are executed by all ranks alike",
     "Every collective operation of the library (reductions, collective file access, model runs of the stage problem) is reached by all ranks of the communicator in the same order, because none of them is executed conditionally on the rank, on data that is only known locally, or inside an iteration over rank-local collections. Values that decide about control flow of the time loop are therefore identical on all ranks.",
     ["schedules", "configurations"], "all numbers of ranks and all distributions of variables over ranks",
     "The test suite runs on one process here; a rank-dependent branch cannot deadlock on one rank.",
     [OM, ME, FW, RKI], [("allreduce in norm and distributivity", OM), ("collective HDF5 access", FW)])

prop("C18", "The file writer records each requested step completely and faithfully",
     "For every write-out period, the file contains the initial state as step 0 and exactly the steps whose number is a multiple of the period, each with time, one dataset of the global shape per quantity, and for embedded schemes the error measure. Values written are those of that quantity and step (start values for step 0, end-of-step values otherwise) at the position of the local part, also when checkpointing computes (and writes) steps after the first again during a reverse run; the writer never modifies the integration state. The readers return these values per quantity and step, and errors relative to the solution started from all quantities' initial values.",
     ["inputs", "configurations"], "all periods, step counts, quantities, shapes and distributions",
     "Tests check a single period with few steps.",
     [FW], [("before_iteration/after_iteration", FW), ("read_hdf5_file", FW)])

prop("C19", "Shipped tableaux are consistent and attain their declared orders",
     "Every tableau shipped with the package has row sums equal to its time stages, is explicit or diagonally implicit, and satisfies all order conditions up to its declared order; the embedded weights satisfy those of the declared embedded order, and main and embedded weights differ.",
     ["configurations"], "all shipped tableaux and all rooted-tree order conditions up to order five",
     "Order tests exist for a part of the tableaux only; convergence runs cannot separate a slightly wrong coefficient from round-off.",
     [BTX], [("tableau literals", BTX)])

prop("C20", "Tableaux are validated and classified correctly",
     "Constructing a tableau rejects non-square matrices and mismatching sizes (including those of embedded weights) with an error, warns whenever any row sum deviates from its time stage or the weights do not sum to one, and fills in missing time stages by row sums. A tableau is classified as explicit iff all entries on and above the diagonal vanish, as diagonally implicit iff it is not explicit and all entries above the diagonal vanish, and as implicit otherwise; the integrator refuses implicit tableaux. Derived tableaux (main, embedded, from an existing one) carry the corresponding coefficients and orders.",
     ["inputs", "configurations"], "all matrices, weights and time stages",
     "Tests classify a few tableaux and never build an inconsistent one.",
     [BT, RKI], [("constructor checks", BT), ("is_explicit/is_diagonally_implicit/is_implicit", BT)])

prop("C21", "Objects supplied by the user are never modified",
     "Setting up and running an integrator modifies neither the Butcher tableau, the option dictionaries, lists and configuration objects passed by the user, nor shared defaults, so that the same objects can be used for several integrators or repeated setups with the same result.",
     ["histories", "configurations"], "all option values and all sequences of setups and runs sharing them",
     "Tests build fresh options for each integrator.",
     [RKI, CP + "pyrevolve_checkpointer.py", EC, ECS, BT, SD, ME, FW], [("option handling", RKI), ("revolver options", CP + "pyrevolve_checkpointer.py")])

prop("C22", "Derivatives of the shipped components match their equations",
     "For every component shipped with the package that provides derivative products, the forward product is the derivative of the component's equations at all inputs, step sizes and stage factors, the reverse product is its transpose for every subset of present variables (variables that are not part of the vectors neither contribute nor are written), products are added to what the vectors already hold, nonlinear solves satisfy the residual equations, and the linear solves in both directions are exact inverses of the linearization and of its transpose.",
     ["inputs", "configurations"], "all input values, parameters, step sizes, stage factors and subsets of seeds",
     "Tests check partial derivatives at default values for part of the components.",
     [S + "odes/kaps.py", S + "odes/prothero_robinson_ode.py", S + "odes/simple_linear_ode.py", S + "utils/utility_components.py"],
     [("compute/compute_jacvec_product", S + "odes"), ("apply_linear/solve_linear", S + "odes/kaps.py"), ("stage value/update components", S + "utils/utility_components.py")])

prop("C23", "Error norms and measures count every quantity once on all ranks",
     "The norm of a state for order q is that of the whole distributed state vector without the excluded quantities: every other quantity contributes exactly once, distributed parts are combined over all ranks and replicated ones counted once, for finite orders, the maximum and the minimum norm alike. The error measures use the error estimate in the numerator and, for the relative measure, the state norm plus eta/eps in the denominator.",
     ["inputs", "configurations", "schedules"], "all orders, exclusions, distributions and states",
     "Tests use one or two orders on one process.",
     [OM, EM, RKI], [("compute_state_norm", OM), ("get_measure", EM)])

prop("C24", "Controller factories deliver the published controller coefficients",
     "Every controller factory yields a controller with the exponents published for the controller of that name as a function of the order p, with the given configuration, the same exponents whether it is used alone or chained onto another controller, and a chained controller uses the tolerance and bounds of the controller it is chained to. Without a given configuration a factory uses the standard configuration (the pseudo controller: one that accepts every step and keeps its size). The integrator passes the lower one of the two orders of the embedded scheme and builds the chain in the order given.",
     ["configurations", "inputs"], "all factories, orders p, parameters and chains",
     "Unit tests evaluate three of the factories for one order and never in a chain.",
     [ECS, EC, RKI], [("factories", ECS), ("controller chain construction", RKI)])

prop("C25", "Termination criteria end the run at the requested step or time",
     "A predefined number of steps N ends the run after exactly N steps; a predefined final time T ends it at the first step whose end time is at or after T, for any initial time and step sizes, and the remaining time reported for time t is T - t. In an adaptive run towards T no step, including the first one, is longer than the remaining time.",
     ["inputs", "configurations", "histories"], "all N, T, initial times and step size sequences",
     "Tests use few horizons that are multiples of the step size.",
     [TC, RKI, EC], [("is_iteration_finished/remaining_time", TC), ("remaining time passed to the controller", RKI)])

prop("C26", "Failures surface to the caller",
     "An exception raised by the stage problem, a callback, a checkpointer, the error controller or file access during setup, primal, forward or reverse runs propagates to the caller: the library never catches and drops it, except for the documented hand-over from a failing controller to the next one in the chain and version fallbacks that provide the same data. Requests the library cannot serve (reverse iteration without checkpoints, a termination criterion, revolver type or storage type that the checkpointing does not support, an unusable checkpointing type or error controller) end in an exception instead of being ignored.",
     ["fault_sequences", "programs"], "all failing callees and all failure points",
     "Tests contain hardly any fault injection.",
     [RKI, EC, ME, OM, FW, CP], [("exception handlers", EC), ("mode dispatch", RKI)])

prop("C27", "Global error converges with the declared order",
     "For smooth problems the difference between the computed and the exact solution at a fixed time decreases with the declared order of the scheme as the step size is reduced.",
     ["inputs"], "all smooth ODEs and step size sequences",
     "Convergence tests sample a few ODEs.",
     [SD, BTX], [("time stepping", SD)])

prop("C28", "Adaptive runs keep the global error near the tolerance",
     "For well-behaved problems the global error of an adaptive run is proportional to the tolerance.",
     ["inputs"], "all problems and tolerances",
     "Tests sample few problems.",
     [EC, RKI], [("error control", EC)])

prop("C29", "Stage solves converge",
     "The nonlinear stage problems shipped as examples converge to the solution of the stage equations for all admissible step sizes.",
     ["inputs"], "all step sizes and states",
     "Tests sample few step sizes.",
     [S + "odes/kaps.py"], [("Newton solver settings", S + "odes/kaps.py")])

prop("C30", "Shipped ODE problems and reference solutions agree",
     "For every ODE problem shipped with the package (simple linear, Prothero-Robinson, Kaps) the stage rate k solves k = f(t, y_old + dt*(accumulated + a*k)) for one right-hand side f, whatever the step size, the stage factor a and the split of the state into old value and accumulated stages; the utility components compute the stage value old + dt*(accumulated + a*k) from k and its inverse. The shipped reference solution takes the given initial values at the given initial time and satisfies the differential equation from there on (Prothero-Robinson and Kaps: for initial values on the slow manifold, x0 = phi(t0) and y1 = y2^2), and its defaults are the problem's initial values at time 0, which are such values; the stiffness of Prothero-Robinson is -100 by default. The utility components tag the old value, accumulated stages and stage of their quantity accordingly, with its shape and distribution.",
     ["inputs", "configurations"], "all states, times, step sizes, stage factors, problem parameters and initial values",
     "Tests compare end values of runs from the default initial values at initial time 0.",
     [S + "odes/kaps.py", S + "odes/prothero_robinson_ode.py", S + "odes/simple_linear_ode.py", S + "utils/utility_components.py"],
     [("compute/apply_nonlinear", S + "odes"), ("kaps_solution", S + "odes/kaps.py"), ("solution", S + "odes/prothero_robinson_ode.py"), ("simple_linear_solution", S + "odes/simple_linear_ode.py")])

prop("C31", "Problem studies run the configured integration and find their files",
     "Executing a shipped problem integrates the problem's system, created with the problem's stiffness coefficients, exactly once and after setup, with the tableau, integration configuration, error controllers, options and error measurer of the caller, the quantities of the problem and every quantity's own initial values, and writes every step to the given file. The helper for output files returns its path unchanged and creates exactly the missing directory of .h5 and .png files. Different runs (tableau; adaptive, averaged or homogeneous with a step size) have different files, below the folder of the problem and of the kind of run; unknown kinds are refused. The tolerance of a scheme is the average of the last local errors of its homogeneous runs over all step sizes, and 1e-6 if such a run is missing.",
     ["configurations", "inputs"], "all problems, configurations, paths and kinds of runs",
     "There are no tests for these helpers.",
     [S + "utils/problems.py"], [("Problem.execute", S + "utils/problems.py"), ("Problem.get_file_path", S + "utils/problems.py"), ("Problem.compute_tolerance", S + "utils/problems.py"), ("generate_path", S + "utils/problems.py")])

prop("C32", "Derivative products of the integrator obey OpenMDAO's matrix-free contract",
     "The forward and reverse products of the integrator are added to what the output (forward) or input (reverse) perturbation vectors already hold, and use exactly the variables that are part of the given perturbation vectors: a seed that is not part of the vector (OpenMDAO restricts the vectors to the variables in scope, their old values stay reachable) contributes nothing, and a result that is not part of it is not written. So total derivatives are the same for every linear solver of the surrounding groups.",
     ["inputs", "configurations"], "all seeds, prior contents and restrictions of the perturbation vectors, quantities and schemes",
     "Tests only use the integrator below solvers that pass zeroed and complete vectors.",
     [RKI], [("compute_jacvec_product", RKI), ("to/from numpy array transfers", RKI)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
