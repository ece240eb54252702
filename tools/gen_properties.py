"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Runge-Kutta coefficients are exact to the order of the scheme",
     "For both collocation schemes and every supported number of stages (1 to 9), the coefficients handed out by the library advance and integrate every polynomial trajectory of degree up to the stage count exactly, every quadrature up to the scheme's order exactly, have increasing nodes in (0,1], and end at node 1 exactly for Radau IIA. The differential form and the integral form returned for the same scheme describe the same step.",
     ["inputs", "configurations"], "all polynomials with coefficients in [-1,1] up to the classical order; schemes x stage counts 1..9 x both forms",
     "the tests solve a handful of problems with at most 4 stages to 1e-5; a wrong digit in a table of 5..9 stages, or in one that only lowers the order, passes.",
     ["nosnoc/rk_utils.py"], [("generate_butcher_tableu", "nosnoc/rk_utils.py"), ("generate_butcher_tableu_integral", "nosnoc/rk_utils.py")])

prop("C02", "Every feasible NLP point obeys the Runge-Kutta equations of the model",
     "Every point that is feasible for the generated optimization problem satisfies, on every finite element, the chosen implicit Runge-Kutta equations of the model's switched dynamics with that element's length, that control stage's control and parameters, and the user's algebraic equations at every stage. The end state of each element is the start state of the next, across control stages too, and the first element starts at the model's initial state. This holds for all three state/derivative representations, both schemes, with and without switch detection.",
     ["inputs", "configurations"], "all states, multipliers, step lengths, controls and parameters in a bounded box; all combinations of representation, scheme, stage count, element layout and switching formulation within the stated bounds",
     "tests check a few converged solutions of a few examples; a wrong stage, parameter, step or coefficient that those examples do not exercise is invisible.",
     ["nosnoc/problem.py", "nosnoc/model.py", "nosnoc/nosnoc_opts.py"],
     [("forward simulation of a finite element", "nosnoc/problem.py FiniteElement.forward_simulation"), ("stage state reconstruction", "nosnoc/problem.py FiniteElement.X_fe"), ("switched right-hand side", "nosnoc/model.py preprocess_model")],
     ["the NLP handed to the NLP solver: objective, constraints, bounds, parameters"])

prop("C03", "No exact solution of the switched system is cut off by the NLP",
     "Every exact finite-element solution - one satisfying the Runge-Kutta equations, the algebraic equations, the multiplier and complementarity conditions, the user's bounds and the required time grid - is feasible for the generated optimization problem once relaxation parameters are zero. The problem adds no other equation, inequality or tighter bound that such a solution would violate.",
     ["inputs", "configurations"], "all exact discrete solutions in a bounded box; configurations as for C02",
     "an over-constrained problem still solves on examples where the extra constraint happens to be slack (e.g. sliding modes), which is what the tests use.",
     ["nosnoc/problem.py", "nosnoc/model.py"],
     [("constraint generation of a finite element", "nosnoc/problem.py FiniteElement"), ("problem-level constraints", "nosnoc/problem.py NosnocProblem.__init__")],
     ["constraint rows and variable bounds handed to the NLP solver"])

prop("C04", "Multipliers select the mode of the region the state is in",
     "At every Runge-Kutta stage of a feasible point with exact complementarity, the convex multipliers are nonnegative and sum to one (Stewart form), or the step indicators lie in [0,1] (Step form); and whenever the state lies strictly inside a region, the right-hand side used at that stage equals that region's vector field. Both forms therefore give the same dynamics away from switching surfaces, for any sign matrix with full or partial region descriptions, for directly supplied indicator functions, and for several independent subsystems; the equations for the multipliers exclude none of the values the region problem admits.",
     ["inputs", "configurations"], "all states and parameters in a bounded box, all regions of the sign matrices in the model family",
     "tests only use 2-mode systems with one switching function per subsystem, plus one 4-mode example",
     ["nosnoc/model.py", "nosnoc/problem.py"],
     [("reformulation of the piecewise system", "nosnoc/model.py preprocess_model"), ("algebraic variables of a stage", "nosnoc/problem.py FiniteElement.__init__")],
     ["model right-hand side and algebraic constraints inside the NLP"])

prop("C05", "Multipliers and region indicators stay complementary over a whole element",
     "With switch detection on, at every feasible point the product of each convex multiplier (step indicator) at any stage of an element with each matching dual multiplier at any stage of that element, at its right boundary, or at the end of the previous element is at most the relaxation parameter; with zero relaxation the active mode therefore cannot change inside an element. Without switch detection, the same holds stage by stage. This is true for both cross-complementarity modes and both switching formulations.",
     ["inputs", "configurations"], "all feasible points in a bounded box for every relaxation value in [0,1]; configurations as for C02",
     "the tests check the switching time of two examples; a missing pair only shows for particular schemes, element positions or initial multipliers.",
     ["nosnoc/problem.py"],
     [("complementarity constraints of an element", "nosnoc/problem.py FiniteElement.create_complementarity_constraints"), ("multipliers of the previous element", "nosnoc/problem.py get_Lambdas_incl_last_prev_fe")],
     ["complementarity rows of the NLP"])

prop("C06", "Every MPCC reformulation is equivalent to complementarity in the limit",
     "For every supported way of relaxing complementarity (Scholtes, elastic, Fischer-Burmeister), a pair of complementary quantities satisfies the generated constraints and variable bounds with zero relaxation exactly when both are nonnegative and their product is zero. For positive relaxation the documented relation between product and relaxation holds; inequality relaxations contain every complementary pair and shrink as the relaxation decreases.",
     ["inputs", "configurations"], "all pairs of values in a bounded box, all relaxation values in [0,1], every mode except the discrete (boolean) one",
     "tests run a few modes on a few problems and look at the converged answer",
     ["nosnoc/problem.py", "nosnoc/nosnoc_types.py"],
     [("create_complementarity", "nosnoc/problem.py NosnocFormulationObject.create_complementarity"), ("bounds of dual variables", "nosnoc/problem.py FiniteElement.__init__")],
     ["complementarity rows and bounds of the NLP"])

prop("C07", "The complementarity residual is the worst complementarity product",
     "The complementarity residual that steers and stops the homotopy equals the largest product of a convex multiplier with a dual multiplier over all pairs that must be complementary in the whole horizon. In particular it is never smaller than any one of these products, so a residual below the tolerance means that every pair is complementary to that tolerance.",
     ["inputs", "configurations"], "all primal points with nonnegative multipliers in a bounded box; configurations as for C02",
     "tests only see that solves stop; a residual that misses a pair makes them stop earlier",
     ["nosnoc/problem.py", "nosnoc/solver.py"],
     [("get_complementarity_vector", "nosnoc/problem.py"), ("comp_res", "nosnoc/problem.py NosnocProblem.__init__")], ["residual as used by the homotopy"])

prop("C08", "Step lengths partition the horizon",
     "At every feasible point the element lengths lie between (1-gamma) and (1+gamma) times the nominal length of their control stage, and add up to the stage duration on every control stage for an equidistant control grid, and to the terminal time otherwise, so that the reported time grid starts at 0, never decreases for gamma up to one, and ends at the terminal time. Without switch detection all steps of a control stage are the nominal length.",
     ["inputs", "configurations"], "all feasible points; terminal times, gammas, element layouts (non-uniform too), numbers of control stages",
     "tests look at the final time of a few runs with uniform layouts",
     ["nosnoc/problem.py", "nosnoc/solver.py"],
     [("step size variables and sum constraints", "nosnoc/problem.py"), ("time grid of the results", "nosnoc/solver.py get_results_from_primal_vector")],
     ["constraints and bounds of step variables, t_grid and t_grid_u of the results"])

prop("C09", "Step equilibration acts only where no switch happens, as selected",
     "Each heuristic or penalty step-equilibration mode adds exactly its documented term to the objective and nothing to the constraints; the direct mode forces equal neighbouring steps within a control stage wherever the switching indicator between them is nonzero and leaves the steps free where a switch occurs (indicator zero). The indicator is the product over all multiplier pairs of (backward dual sum times forward dual sum plus backward convex sum times forward convex sum), and steps of different control stages are never coupled.",
     ["inputs", "configurations"], "all multipliers and step lengths in a bounded box; modes x formulations x element layouts",
     "tests run the modes and check the terminal state only",
     ["nosnoc/problem.py"], [("step_equilibration", "nosnoc/problem.py FiniteElement.step_equilibration")], ["objective and constraint rows of the NLP"])

prop("C10", "The objective is the integral cost plus terminal cost",
     "The objective of the generated problem, as a function of all variables and parameters, equals the Runge-Kutta quadrature of the running cost over all elements (scaled by speed of time where used), plus the terminal cost at the terminal state with the last stage's parameters, plus only the selected step-equilibration term and, in elastic modes, the documented elastic weighting. Reported cost and every representation agree on it.",
     ["inputs", "configurations"], "all primal points and parameters in a bounded box; configurations as for C02",
     "tests never compare the objective with an independent evaluation",
     ["nosnoc/problem.py", "nosnoc/ocp.py"], [("quadrature of the running cost", "nosnoc/problem.py forward_simulation"), ("terminal and elastic cost", "nosnoc/problem.py NosnocProblem.__init__")], ["objective of the NLP"])

prop("C11", "User bounds, path and terminal constraints are enforced where specified",
     "Every feasible point satisfies the user's bounds on controls, global variables, algebraic variables and on every state that is an optimization variable, the terminal constraint at the terminal state, and the path constraint at the end of every control stage, at the end of every element and at every Runge-Kutta stage when those options are chosen, each with that stage's control and parameters. None of these is enforced more tightly than the user specified.",
     ["inputs", "configurations"], "all feasible points in a bounded box; option combinations x schemes x representations x layouts",
     "tests check controls against bounds in one example and never combine path-constraint options",
     ["nosnoc/problem.py", "nosnoc/ocp.py"], [("path constraints", "nosnoc/problem.py forward_simulation"), ("bounds", "nosnoc/problem.py FiniteElement.__init__")], ["rows and bounds of the NLP"])

prop("C12", "User path complementarities hold at every place they apply to",
     "Every user-supplied pair of expressions that must be complementary is imposed at every Runge-Kutta stage if it depends on states or algebraic variables, once on every control stage if it depends on the control or a time-varying parameter, and once globally otherwise, always with the right control and parameter values. This holds for every number of control stages and for any per-stage element counts.",
     ["inputs", "configurations"], "all points in a bounded box; kinds of dependence x element layouts x relaxation modes",
     "no test in the suite uses path complementarities",
     ["nosnoc/ocp.py", "nosnoc/problem.py"], [("classification of pairs", "nosnoc/ocp.py preprocess_ocp"), ("imposition", "nosnoc/problem.py create_complementarity_constraints, create_global_compl_constraints")], ["rows of the NLP"])

prop("C13", "Parameter values and initial state reach exactly the right stage",
     "Whatever values the user passes (at construction or later through the setter) for global parameters, time-varying parameters of each control stage and the initial state, each NLP solve sees exactly these values at exactly the stages they belong to: stage i's dynamics, costs and constraints use global values and stage i's time-varying values, and nothing else changes. The relaxation parameters of the current homotopy step arrive in their own slots.",
     ["inputs", "configurations", "histories"], "all parameter values and initial states; numbers of stages and parameters; sequences of setter calls",
     "tests use one parametric example with a single stage-independent parameter vector",
     ["nosnoc/solver.py", "nosnoc/model.py", "nosnoc/problem.py"], [("setter", "nosnoc/solver.py NosnocSolverBase.set"), ("parameter vector", "nosnoc/solver.py setup_p_val, nosnoc/problem.py")], ["parameter vector handed to the NLP solver together with the NLP's use of it"])

prop("C14", "Initial multipliers are the exact ones of the initial state",
     "For every initial state and parameter value, the multipliers attached to the start of the first element are exactly the dual multipliers of the region problem at that state: nonnegative, consistent with the switching functions, zero for the active region (Stewart) or equal to the negative and positive parts of the switching functions (Step). They are paired with the matching multipliers of the first element, also with several subsystems.",
     ["inputs", "configurations"], "all initial states, parameters and user algebraic values; both formulations, one or more subsystems",
     "tests only use models where mistakes in this vector are invisible (one subsystem or symmetric ones)",
     ["nosnoc/model.py", "nosnoc/solver.py", "nosnoc/problem.py"], [("compute_lambda00", "nosnoc/model.py"), ("start element", "nosnoc/problem.py FiniteElementZero")], ["parameter vector handed to the NLP solver"])

prop("C15", "The homotopy drives the relaxation down and stops correctly",
     "For any sequence of NLP outcomes, the first NLP is solved with the initial relaxation value and each later one with the value given by the selected update rule, which is positive and strictly smaller (unless at the superlinear rule's floor) for update slopes below one. Each NLP is warm-started at the previous solution with unchanged bounds. The loop ends at the first iterate whose complementarity residual is below the tolerance or once the final relaxation value has been solved, and never runs more NLPs than the iteration limit.",
     ["inputs", "histories", "fault_sequences"], "all NLP outcomes (arbitrary primal points, residuals, success or failure) for up to 4 homotopy iterations, all option values in their ranges",
     "which iteration the loop stops at depends on residuals the tests do not control",
     ["nosnoc/solver.py"], [("homotopy loop", "nosnoc/solver.py NosnocSolver.solve"), ("homotopy_sigma_update", "nosnoc/solver.py")], ["sequence of calls to the NLP solver"])

prop("C16", "The reported status and solution are those of the last NLP",
     "Whatever the NLP solver answers at each homotopy iteration, the returned solution, cost and trajectories are those of the last NLP solved, the status is success exactly when that last NLP was reported as solved (or solved to an acceptable level, feasible point found, or search direction too small) and infeasible otherwise, and the iterate history and per-iteration statistics list every NLP solved in order. This includes runs that stop early and runs with a polishing step.",
     ["inputs", "histories", "fault_sequences"], "all sequences of NLP return codes and iterates up to the bound",
     "the tests only see successful solves",
     ["nosnoc/solver.py", "nosnoc/utils.py"], [("solve", "nosnoc/solver.py NosnocSolver.solve"), ("check_ipopt_success", "nosnoc/utils.py")], ["dictionary returned by solve"])

prop("C17", "Result fields report the right entries of the solution",
     "For every primal solution vector, each result field reports the entries that the NLP's constraints treat as that quantity: states at element ends and at all stored points, controls, multipliers, algebraic variables, global variables, speed of time, in time order and prefixed by the initial state where documented. The time grid is the running sum of the reported step lengths, the control grid picks its control-stage boundaries, and switch times are exactly the grid times at which the active multipliers change.",
     ["inputs", "configurations"], "all primal vectors in a bounded box; layouts, formulations, subsystems with different numbers of modes",
     "tests look at one or two fields on converged solutions of uniform layouts",
     ["nosnoc/solver.py", "nosnoc/utils.py"], [("get_results_from_primal_vector", "nosnoc/solver.py")], ["results dictionary"])

prop("C18", "The simulation loop chains steps and stops on failure when asked",
     "For any sequence of step results, each simulation step starts at the end state of the previous one with that step's parameter values and initial guess, and the collected states, step lengths, time grid, switch times, statuses, costs and statistics are the in-order concatenation of all steps on one global time axis. With stop-on-failure the loop ends and reports failure at the first step whose status is not success; otherwise it always performs all steps.",
     ["inputs", "histories", "fault_sequences"], "all step results (states, step lengths, statuses, switch times) for up to 3 steps",
     "tests never see a failing step and never check switch times over several steps",
     ["nosnoc/helpers.py"], [("run / get_results", "nosnoc/helpers.py NosnocSimLooper")], ["results of the looper, calls on the solver"])

prop("C19", "Solving leaves no hidden state behind",
     "Solving again with the same inputs hands the NLP solver exactly the same first problem data (initial guess, bounds, parameters), whatever the previous solve returned and whether or not active-set fixing or polishing was used; with the warm-start strategy only the initial guess changes, to the previous solution. Changing the initial state or parameters between solves affects only the data that depend on them. Results returned by an earlier solve and the user's input arrays stay as they were.",
     ["histories", "inputs", "configurations"], "all pairs of consecutive solves with arbitrary NLP outcomes in between; initialization strategies and option combinations",
     "tests build a new solver for almost every solve",
     ["nosnoc/solver.py"], [("solve / initialize", "nosnoc/solver.py")], ["calls to the NLP solver"])

prop("C20", "Initial guesses and setters write exactly the variables they name",
     "Setting states, controls, multipliers, global variables or the full vector stores each given value in exactly the variables of that kind, stage and element, and changes nothing else; the default strategies initialize all states with the current initial state and leave everything else as it was; the arrays given to the setters are copied and stay unchanged. Every initial guess the library itself chooses (step lengths, multipliers, speed of time, slacks) lies within that variable's bounds.",
     ["inputs", "histories", "configurations"], "all values; layouts (non-uniform too), formulations, subsystems",
     "one test sets x and u in a uniform single-formulation problem",
     ["nosnoc/solver.py", "nosnoc/problem.py"], [("set", "nosnoc/solver.py"), ("initialize", "nosnoc/solver.py")], ["initial guess handed to the NLP solver"])

prop("C21", "Active-set fixing and polishing pin only what is already decided",
     "Fixing the active set of the first element pins to zero exactly the convex multipliers whose initial dual multiplier is positive (above tolerance), at the stages of the first element only. Polishing pins a complementarity variable only to a value (0 or 1) within its tolerance of the homotopy solution, pins no state, control, step length or free multiplier, keeps all other bounds and constraints, and re-solves with zero relaxation.",
     ["inputs", "configurations", "fault_sequences"], "all homotopy solutions and initial multipliers in a bounded box; formulations and layouts",
     "tests run one polishing example with converged values",
     ["nosnoc/solver.py"], [("fix_active_set_fe0", "nosnoc/solver.py solve"), ("polish_solution", "nosnoc/solver.py")], ["bounds and parameters handed to the NLP solver"])

prop("C22", "Automatically derived models equal the given nonsmooth ODE",
     "For every right-hand side built from smooth expressions and sign, max and min of smooth arguments, the automatically derived model has, for every state and control off the switching surfaces, exactly the right-hand side of the given ODE when the multipliers take the values that the region of the state prescribes. Model dimensions, controls, parameters and initial state are preserved, the derived modes contain no nonsmooth operation, and deriving the model again gives the same one.",
     ["inputs", "programs"], "all states and controls in a bounded box off the surfaces; a grammar of expressions (sums, products, negation, min/max/sign, composition with smooth functions)",
     "tests compare the string form of three tiny expressions and never check the reformulated model",
     ["nosnoc/auto_model.py"], [("reformulate", "nosnoc/auto_model.py NosnocAutoModel")], ["the NosnocModel returned"])

prop("C23", "Options are independent and derived consistently",
     "Changing or preprocessing one options object never changes another one or the defaults of later ones; the NLP tolerance of a problem follows from its own complementarity tolerance unless the user sets it. Preprocessing is repeatable (a second pass changes nothing), gives one element count per control stage, and chooses enough homotopy iterations that the last relaxation value is within half an update step of the complementarity tolerance.",
     ["histories", "configurations", "inputs"], "all option values in their ranges; sequences of creating, changing and preprocessing several options objects",
     "each test uses fresh objects and does not notice that values leak between them",
     ["nosnoc/nosnoc_opts.py"], [("preprocess", "nosnoc/nosnoc_opts.py"), ("nlp options", "nosnoc/nosnoc_opts.py")], ["options used for the NLP solver"])

prop("C24", "Least-squares handling penalizes exactly the equality constraints",
     "With least-squares constraint handling the NLP has no constraints and its objective is the exact-mode objective plus the sum of squares of all exact-mode constraint expressions, so it is minimal in the penalty exactly at the points feasible for the exact mode. A problem with any constraint that is not of the form expression = 0 is rejected instead of being silently changed.",
     ["inputs", "configurations"], "all primal points in a bounded box; option combinations and user constraint bounds",
     "tests only solve two such problems",
     ["nosnoc/problem.py"], [("least squares reformulation", "nosnoc/problem.py NosnocProblem.__init__")], ["NLP with both handlings"])

prop("C25", "Speed of time and time freezing scale and pin time as documented",
     "With stage-wise or global speed-of-time variables, dynamics and running cost of a stage are multiplied by that stage's (or the one global) speed variable, which stays within the given bounds; algebraic equations are not scaled. With time freezing on an equidistant grid, physical time at the end of control stage k equals its start value plus k stage durations up to the tolerance.",
     ["inputs", "configurations"], "all feasible points in a bounded box; modes x layouts x representations",
     "no test uses speed-of-time variables; time freezing itself is switched off in the only time-freezing test",
     ["nosnoc/problem.py"], [("speed of time", "nosnoc/problem.py"), ("clock constraints", "nosnoc/problem.py NosnocProblem.__init__")], ["rows, bounds and objective of the NLP"])

prop("C26", "The smoothed model is a consistent approximation of the switched one",
     "For every state and positive smoothing parameter, the smoothed convex multipliers are nonnegative and sum to one, the smoothed right-hand side is their convex combination of the mode fields, and in the limit of saturated steps they select the region's mode. The smoothed-simulation initialization puts the simulated states at the element's own stage times, with matching multipliers, into the initial guess.",
     ["inputs", "configurations"], "all states in a bounded box, models with fixed coefficients whose fields depend on the state (the step function abstracted to its contract), sign matrices of the model family, schemes and representations",
     "a test only checks that the solve succeeds from this initialization",
     ["nosnoc/model.py", "nosnoc/solver.py", "nosnoc/rk_utils.py"], [("add_smooth_step_representation", "nosnoc/model.py"), ("RK4 initialization", "nosnoc/solver.py initialize")], ["smoothed model functions, initial guess"])

prop("C27", "Index bookkeeping covers every variable exactly once",
     "In every generated problem each optimization variable belongs to exactly one of the published index groups and carries the bounds and guess of its own kind; flattening and shifting nested index lists keeps order and nesting and shifts every index by exactly the offset.",
     ["inputs", "configurations"], "all index values and offsets for bounded nestings; layouts, formulations, representations",
     "tests compare only the total number of variables",
     ["nosnoc/utils.py", "nosnoc/problem.py"], [("increment_indices, flatten*", "nosnoc/utils.py"), ("index collection", "nosnoc/problem.py")], ["index lists of the problem"])

prop("C28", "The explicit Runge-Kutta helpers perform fourth-order steps",
     "For every linear or polynomial-in-time vector field, initial state and time grid, each step of the library's explicit integrators equals the classical fourth-order Runge-Kutta step of that length from the previous state, and the returned lists contain the initial state followed by one state per step at the returned times.",
     ["inputs"], "all initial states, step lengths and field coefficients in a bounded box, up to 3 steps",
     "only exercised inside an initialization whose result is not checked",
     ["nosnoc/rk_utils.py"], [("rk4, rk4_on_timegrid", "nosnoc/rk_utils.py")], ["returned states and times"])

prop("C29", "Malformed models and constraints are rejected",
     "A model, problem or option set whose dimensions are inconsistent (bounds, guesses, sign matrices, parameter values or constraint bounds of the wrong length, a non-switching field, both or neither region description, wrongly typed options) is rejected with an exception when the solver is built.",
     ["inputs", "configurations"], "all dimension combinations up to 3",
     "tests sample five malformed inputs",
     ["nosnoc/model.py", "nosnoc/ocp.py", "nosnoc/nosnoc_opts.py", "nosnoc/utils.py"], [("preprocess_model, preprocess_ocp, validate", "nosnoc")], ["exceptions at construction"])

prop("C30", "Converged simulations approximate the Filippov solution to the scheme's order",
     "When all NLPs of a simulation are solved, the computed trajectory converges to the Filippov solution of the switched system with the order of the Runge-Kutta scheme, and switching times are found to the same order.",
     ["inputs", "programs"], "all well-posed switched systems, step sizes tending to zero",
     "tests check a few systems at one step size",
     ["nosnoc"], [("FESD discretization", "nosnoc")], ["simulation results"])

prop("C31", "A dumped problem evaluates like the original",
     "A problem written to a file and read back has the same objective, constraints, bounds, initial guess, index lists and parameter values as the problem in memory.",
     ["inputs", "configurations"], "all primal points; configurations",
     "no test dumps a problem",
     ["nosnoc/problem.py"], [("dump", "nosnoc/problem.py NosnocProblem.dump")], ["pickled dictionary"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
