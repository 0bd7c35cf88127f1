NOT_APPLICABLE = []
P = []


def add(id, title, statement, over, quant, why, files, mech, tech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, tech=tech, note=note, na=na))


GEO = ["theseus/geometry/lie_group.py", "theseus/geometry/so2.py", "theseus/geometry/se2.py",
       "theseus/geometry/so3.py", "theseus/geometry/se3.py", "theseus/geometry/vector.py",
       "theseus/geometry/point_types.py", "torchlie/torchlie/functional/so3_impl.py",
       "torchlie/torchlie/functional/se3_impl.py"]

CORE = ["theseus/core/objective.py", "theseus/core/vectorizer.py", "theseus/core/variable.py",
        "theseus/core/cost_function.py", "theseus/core/cost_weight.py",
        "theseus/core/robust_cost_function.py", "theseus/core/theseus_function.py"]

add("C01", "Vectorization is observationally transparent",
    """An objective whose cost functions are evaluated in vectorized form gives the same errors,
    weighted errors, Jacobians, retractions, optimization results and gradients as an identical
    objective that is not vectorized, after any history of variable updates, in-place edits,
    added or erased cost functions, dtype conversions and queries, and whatever variables,
    weights and batch sizes cost functions share. Results are never served from a cache that a
    later change of any variable or weight has made stale. The order of cost functions and the
    set of registered variables are unaffected.""",
    ["histories", "programs", "configurations"],
    "All objectives built from the library's and user-defined costs, and all operation histories on them.",
    """Tests vectorize a few fixed objectives once; which costs share schemas, which variables are
    shared or broadcast, and what happens between two queries are unbounded.""",
    CORE, [("schema grouping, shared/batched variable expansion", "theseus/core/vectorizer.py"),
           ("cache invalidation by update counters", "Objective._vectorization_needs_update, Variable._num_updates"),
           ("vectorized retraction", "Vectorize._vectorized_retract_optim_vars")],
    "runtime monitor: lock-step twin execution (vectorized vs not) on random operation histories",
    "Held on the generated objectives and histories.")
add("C02", "Evaluating an objective's error is a pure, ordered query",
    """Evaluating the error with temporary inputs and without updating leaves every variable, the
    batch size and all later results exactly as they were, also when the evaluation fails midway;
    with updating, it is the same as updating and then evaluating. The error vector is the
    concatenation, in the order in which costs were added, of each cost's weighted error at the
    current values broadcast to the batch, and the error metric is the metric function applied
    to that vector (by default half its squared norm).""",
    ["histories", "inputs", "fault_sequences"],
    "All objectives, partial inputs, batch sizes and interleavings of queries with updates, vectorized or not.",
    """Tests query one or two objectives with full inputs; purity must hold for every subset of
    variables, broadcast pattern, and exceptions thrown by user code.""",
    CORE, [("temporary update and revert", "Objective.error"),
           ("error order and broadcasting", "Objective.error, Vectorize"),
           ("metric function", "Objective.error_metric")],
    "runtime oracle: state snapshots around queries and a reference error model",
    "Held on the generated objectives and query histories.")
add("C03", "Objective bookkeeping matches its cost functions",
    """After any sequence of adding and erasing cost functions, the objective lists exactly the
    costs present in the order they were added and exactly the variables and weights those costs
    use, each in its role and under its name, and reports for every variable the costs that use
    it, total dimension and sizes. Invalid additions (name clashes, a variable in both roles,
    wrong dtypes) are refused with an error and change nothing. An optimizer or layer built on
    an objective refuses to run once the objective's cost functions have changed.""",
    ["histories", "programs"],
    "All sequences of add/erase on random sets of costs which share variables and weights, including refused ones.",
    """Tests add and erase a few costs in one order; sharing patterns and add/erase interleavings
    are unbounded.""",
    CORE, [("registration and reference counts", "Objective.add/erase/_erase_function_variables"),
           ("version guard", "Objective.current_version, Optimizer.optimize")],
    "runtime monitor: model-based checking of random add/erase histories",
    "Held on the generated histories.")
add("C04", "Copies are equivalent and independent",
    """Copies (and deep copies) of objectives, costs, weights and variables evaluate exactly like
    the original, keep its class, options, names and the pattern of which variables are shared,
    and share no variable or storage with it: later changes of either one never show in the
    other. This holds for every cost, weight and variable type, alone or within an objective.""",
    ["programs", "histories"],
    "All objectives with shared variables and weights, all cost types, any later updates of either side.",
    """Tests copy each class once with unshared variables; sharing patterns and what later updates
    do to the twin are unbounded.""",
    CORE, [("_copy_impl of every class", "theseus/embodied, theseus/core"),
           ("objective copy with variable remapping", "Objective._copy_impl")],
    "runtime oracle: structural isomorphism and mutate-one-compare-other monitors",
    "Held on the generated objectives.")
add("C05", "Updating variables does exactly what was asked, or refuses",
    """Updating an objective or variable with tensors sets exactly the named variables, and only
    the batch elements not masked out, to the given values; retracting sets each variable to its
    group retraction by its own slice of the step. Everything else keeps its value, updates with
    a wrong shape, dtype or inconsistent batch size are refused with an error, unknown names only warn, and
    tensors given by or returned to the user are never written to by later calls.""",
    ["histories", "inputs"],
    "All histories of full, partial, masked, resized and invalid updates and retractions.",
    """Tests do single updates; histories mixing batch sizes, masks, orders and refused updates,
    and aliasing with user tensors over later calls, are unbounded.""",
    CORE, [("masked update", "Variable.update, Objective.update"),
           ("retraction by slices", "Objective.retract_vars_sequence, _retract_base")],
    "runtime monitor: model-based checking of random update histories; input snapshots",
    "Held on the generated histories.")
add("C18", "Every pose, rotation and vector class implements its matrix group",
    """Exponential and logarithm maps, composition, inverse, between, adjoint, hat/vee, actions
    on points, projection, normalisation and conversions (matrix, quaternion, angle,
    coordinates) of every group class agree with the group's standard matrix definition, for
    every rotation angle including zero, tiny, near pi and exactly pi, every batch shape
    (including broadcast) and both precisions. Logarithm inverts exponential up to the
    rotation's 2 pi ambiguity, results keep the input's dtype and class, and no operation
    modifies its inputs. Random elements are valid, have the requested size, dtype and gradient
    requirement, and are decided by the generator they are given; vee refuses matrices outside
    the algebra.""",
    ["inputs"],
    "All group elements and tangent vectors, all batch mixtures of angle regimes, float32 and float64.",
    """Tests sample a few random tangent vectors at one scale; accuracy near 0 and pi, mixed
    regimes in one batch, broadcasting and float32 are input-space properties.""",
    GEO, [("small angle and near pi branches", "exp/log implementations of each group"),
          ("batched where-selection between branches", "so3_impl/se3_impl/so2/se2")],
    "runtime oracle: float64 reference-model monitor on randomized group operations",
    "Held on the generated elements; tolerance inside documented small-angle thresholds is the approximation order.")
add("C19", "The functional Lie library agrees with the groups' closed forms",
    """Every functional operator for 3D rotations and rigid motions, and the tensor-subclass
    layer on top of it, returns the closed-form value, Jacobians and (manifold) gradients for
    inputs with any number of leading batch dimensions, including none and broadcast ones,
    and keeps dtype and shape conventions. The Jacobian-returning and the plain variants of an
    operator return the same value, and batched mapping transforms give the per-element
    results.""",
    ["inputs"], "All operators x leading shapes x broadcast patterns x angle regimes x dtypes.",
    """Tests use fixed batch shapes and random generic angles and check a subset of operators;
    shape/broadcast/regime combinations are unbounded.""",
    ["torchlie/torchlie/functional/so3_impl.py", "torchlie/torchlie/functional/se3_impl.py",
     "torchlie/torchlie/functional/lie_group.py", "torchlie/torchlie/lie_tensor.py"],
    [("custom autograd functions", "so3_impl/se3_impl"),
     ("operator registry and dispatch", "functional/lie_group.py, lie_tensor.py")],
    "runtime oracle: reference-model and autograd cross-check monitors",
    "Gradients compared along the tangent space only.")
add("C20", "Analytic group Jacobians equal the true derivatives",
    """For every group, the Jacobians returned by exp, log, compose, inverse, between, local and
    the point actions equal the derivative of the returned value with respect to a right
    perturbation of each argument. Differentiating the same operations with automatic
    differentiation gives the same derivatives, at every rotation angle including zero and
    near pi.""",
    ["inputs"], "All group elements, operations, batch and broadcast patterns, both precisions.",
    """Tests compare Jacobians numerically at a few generic elements; regimes and
    batch mixtures are not enumerated.""",
    GEO, [("analytic jacobian branches", "each group class"),
          ("custom backward functions", "torchlie functional so3_impl/se3_impl")],
    "runtime oracle: closed-form and autograd derivative monitors",
    "Held on the generated elements.")
EMB = ["theseus/embodied/measurements/between.py", "theseus/embodied/measurements/moving_frame_between.py",
       "theseus/embodied/measurements/reprojection.py", "theseus/embodied/misc/local_cost_fn.py",
       "theseus/embodied/collision/collision.py", "theseus/embodied/collision/eff_obj_contact.py",
       "theseus/embodied/motionmodel/double_integrator.py", "theseus/embodied/motionmodel/misc.py",
       "theseus/embodied/motionmodel/quasi_static_pushing_planar.py"]
add("C06", "Built-in costs compute their documented error and its true Jacobian",
    """Every built-in cost function (difference, between, moving-frame between, reprojection, 2D
    collision, effector-object contact, double integrator, Gaussian-process motion, quasi-static
    pushing, hinge, non-holonomic, and automatic-differentiation costs) computes its documented
    error for every pose, measurement and batch pattern, and the Jacobians it returns are the
    derivatives of that error with respect to right perturbations of each optimization variable,
    in the order of the variables. Cost weights scale errors and Jacobians exactly as documented.
    Evaluating neither changes any variable nor depends on what was evaluated before.""",
    ["inputs", "configurations"],
    "All variable values away from kinks, groups, batch and broadcast patterns, and both precisions.",
    """Tests check a few random values per cost with fixed batch sizes; analytic Jacobian errors
    that only show at particular angles or with particular partners escape them.""",
    EMB + ["theseus/core/cost_weight.py", "theseus/core/cost_function.py"],
    [("analytic jacobians", "theseus/embodied/**/*.py: jacobians()"),
     ("autograd jacobians and broadcast", "AutoDiffCostFunction"),
     ("square-root information weighting", "CostWeight.weight_jacobians_and_error, GPCostWeight")],
    "runtime oracle: independent reference formulas and finite-difference monitors",
    "Held on the generated costs; elements at a kink are skipped.")
add("C07", "Autodiff and analytic costs are interchangeable in every mode",
    """An automatic-differentiation cost function returns the error of the user's function and its
    derivative with respect to right perturbations on the manifold, identically in dense, loop and
    vmap mode, for every batch and broadcast pattern, after any history of value updates, dtype
    conversions, copies and failing evaluations. It equals an analytic cost of the same function,
    its gradients with respect to auxiliary tensors included, and never leaks internal tensors
    into, or keeps stale values of, the variables it uses.""",
    ["inputs", "histories", "configurations"],
    "All modes, groups, batch patterns, dtypes and evaluation histories of user functions.",
    """Tests compare modes for fixed functions and batch sizes, without histories of failures,
    conversions and copies.""",
    ["theseus/core/cost_function.py", "theseus/core/theseus_function.py", "theseus/core/variable.py"],
    [("temporary variables of the autograd functions", "AutoDiffCostFunction._tmp_*"),
     ("projection to the tangent space", "LieGroup.project")],
    "runtime monitor: cross-mode twin execution on random operation histories",
    "Held on the generated functions and histories.")
add("C08", "Robust costs report the robust loss and its correct linearization",
    """For every loss, radius and weight, a robust cost function reports an error whose squared
    norm is the documented loss of the inner cost's squared weighted error (per dimension when
    flattened), and its linearization returns the inner cost's weighted Jacobians and error scaled
    by the square root of the loss's derivative, so that their product is the gradient of half the
    loss. Gradients of the reported error with respect to all inputs, the log radius included, are
    finite and equal the true derivatives, at zero residuals and far outliers too. This holds
    after any changes to the variables, weights and radius, and for copies.""",
    ["inputs", "configurations"],
    "All losses, radii, weights, residual magnitudes including zero and far outliers, both precisions.",
    """Tests evaluate a handful of residuals per loss; the extremes (zero, boundary, saturation) and
    flattening with shared variables are unbounded.""",
    ["theseus/core/robust_cost_function.py", "theseus/core/robust_loss.py"],
    [("loss rescaling", "RobustCostFunction.weighted_jacobians_error"),
     ("loss functions", "RobustLoss._evaluate_impl/_linearize_impl")],
    "runtime oracle: reference loss model and derivative monitors",
    "Held on the generated residuals.")

LIN = ["theseus/optimizer/linearization.py", "theseus/optimizer/dense_linearization.py",
       "theseus/optimizer/sparse_linearization.py", "theseus/optimizer/variable_ordering.py"]
SOLV = ["theseus/optimizer/linear/dense_solver.py", "theseus/optimizer/linear/cholmod_sparse_solver.py",
        "theseus/optimizer/linear/linear_solver.py", "theseus/optimizer/linear_system.py",
        "theseus/optimizer/linear/linear_optimizer.py"]
NLO = ["theseus/optimizer/nonlinear/nonlinear_optimizer.py",
       "theseus/optimizer/nonlinear/nonlinear_least_squares.py",
       "theseus/optimizer/nonlinear/gauss_newton.py",
       "theseus/optimizer/nonlinear/levenberg_marquardt.py",
       "theseus/optimizer/nonlinear/trust_region.py", "theseus/optimizer/nonlinear/dogleg.py"]

add("C09", "Dense and sparse linearizations are the same linear system",
    """For any variable ordering, a dense and a sparse linearization of an objective hold the matrix
    A and vector b obtained by stacking the weighted Jacobians and negated weighted errors of its
    costs, in the order of the costs (rows) and of the ordering (columns), also when a cost uses a
    variable twice. Every product they offer (gradient, normal matrix, A times vector, diagonal
    scaling) agrees with that matrix, and after re-linearizing reflects the current values whatever
    was queried, updated or resized before. Incomplete or foreign orderings are refused, and
    orderings remain consistent through additions and removals.""",
    ["histories", "configurations"],
    "All objectives, orderings built through any history, batch sizes, dtypes and query orders.",
    """Tests build one random system per linearization; orderings, repeated variables, cached
    products after updates and batch changes combine without bound.""",
    LIN, [("sparse structure and column placement", "SparseLinearization.__init__, _linearize_jacobian_impl"),
          ("cached products", "Linearization.linearize and the Atb/AtA properties"),
          ("ordering", "VariableOrdering")],
    "runtime oracle: independent assembly of the linear system, over random update/query histories",
    "Held on the generated systems and histories.")
add("C10", "Linear solvers solve the (damped) normal equations or say they cannot",
    """Each linear solver returns the solution of the normal equations of its linearization, damped
    as requested (scalar, per-element, ellipsoidal, with epsilon), for every batch element, to a
    backward-stable accuracy in its precision, whatever it solved before. Singular systems raise or
    give the documented fallback and never silently return garbage for regular elements, and
    failures surface as RuntimeError. The linear optimizer moves the variables by exactly that
    solution.""",
    ["inputs", "histories", "configurations"],
    "All solvers available here, damping forms, conditioning, batch sizes and solve histories.",
    """Tests check a few well-conditioned random systems; damping shapes, conditioning, singular
    elements in a batch and reuse of factorizations are sampled thinly.""",
    SOLV, [("damping application", "DenseSolver._apply_damping"), ("singularity check", "DenseSolver.solve"),
           ("symbolic factor reuse", "CholmodSparseSolver, cholmod_sparse_autograd.py")],
    "runtime oracle: residual/backward-error monitor against an independent dense solve",
    "CHOLMOD and the dense solvers; CUDA and BaSpaCho solvers cannot run here.")
add("C11", "Gradients through linear solves are exact",
    """The gradients that the dense solvers, the CHOLMOD autograd function and the sparse
    matrix-vector products return, with respect to every Jacobian and error entry, damping included,
    equal those of the mathematical solution, also when several solves are alive at once, when
    backward is called late or repeatedly, and with or without a detached Hessian.""",
    ["inputs", "schedules"],
    "All systems, damping values, upstream gradients and interleavings of forward and backward calls.",
    """Tests gradcheck single solves; interleaved solves that share symbolic factors, and repeated
    backward passes are not exercised.""",
    ["theseus/optimizer/autograd/cholmod_sparse_autograd.py", "theseus/optimizer/autograd/common.py",
     "theseus/optimizer/linear/dense_solver.py", "theseus/utils/sparse_matrix_utils.py"],
    [("adjoint solve", "compute_A_grad, CholmodSolveFunction.backward"),
     ("sparse products", "_SparseMvPAutograd, _SparseMtvPAutograd")],
    "runtime oracle: gradients of a dense reference solution over interleaved forward/backward schedules",
    "CPU paths only.")
add("C12", "What the optimizer reports is what happened",
    """For every optimizer, backward mode and tolerance, the returned information is a faithful
    record of the run: error and state histories list every visited state in order, the last error
    is the error of the returned variables, the best error, solution and iteration are the best
    visited ones per batch element, status and convergence iteration follow the documented
    tolerance rule, callbacks see every iteration exactly once, iteration limits are respected,
    converged elements stay put and auxiliary variables are not modified. Invalid parameters are
    refused.""",
    ["histories", "configurations", "inputs"],
    "All optimizers, solvers, backward modes, tracking options, limits and tolerances on all problems.",
    """Tests look at final errors for a few settings; which element converges when, and where the
    split between the loops falls, is unbounded.""",
    NLO, [("histories and best solution", "NonlinearOptimizer._init_info, _update_info, _merge_infos"),
          ("convergence rule", "NonlinearOptimizer._check_convergence")],
    "offline checker of the recorded run (callbacks, histories, info) against independently evaluated errors",
    "Rejected steps make the convergence rule ambiguous for an element; those are skipped.")
add("C13", "Every optimizer step is the step its method defines",
    """Every transition between the states an optimizer visits is, for each batch element, the step
    its method defines at that state: the Gauss-Newton or damped least-squares step times the step
    size for Gauss-Newton and Levenberg-Marquardt, the damped step whose gain ratio passes the
    acceptance threshold with damping adapted by the configured ratios for adaptive
    Levenberg-Marquardt, and the dogleg step within the current trust region with the radius adapted
    by the configured thresholds for Dogleg. Adaptive methods never increase an element's error, and
    an element stops early only by the tolerance rule or after repeated rejections. The last step of
    the implicit mode is a full Gauss-Newton step.""",
    ["histories", "inputs", "configurations"],
    "All problems, starting points, solver options and iterations.",
    """Tests check that optimizers reach a small error, which many wrong steps also do.""",
    NLO + LIN, [("damping adaptation", "LevenbergMarquardt._complete_step, _check_accept"),
                ("trust region", "Dogleg._compute_delta_impl, TrustRegion._complete_step"),
                ("step application", "NonlinearLeastSquares._step, Objective.retract_vars_sequence")],
    "trace checker: every observed transition is replayed against a per-element reference simulation",
    "Elements near an acceptance threshold or ill-conditioned are skipped; dogleg up to 1e-3.")
add("C14", "Batch elements are independent problems",
    """What an optimizer computes for one batch element (visited states, solution, status, gradients)
    is what it computes when that element is solved alone, in any order and next to any partners,
    converged or far away. Gradients of one element's solution with respect to another element's
    inputs are exactly zero. Copies of an element get equal answers.""",
    ["configurations", "inputs"],
    "All batches, partner elements, permutations, optimizers and backward modes.",
    """Tests solve fixed batches and look at all elements together; interference needs particular
    partners that converge, reject or diverge at particular iterations.""",
    NLO + CORE, [("converged-element masking", "Objective.retract_vars_sequence ignore_mask"),
                 ("per-element acceptance", "NonlinearLeastSquares._optimize_loop, _step"),
                 ("per-element damping and radius", "LevenbergMarquardt._damping, TrustRegion._trust_region")],
    "runtime monitor: twin executions of one element alone, permuted, duplicated and in a batch",
    """Dogleg is compared for its first steps only (its regularizers are batch dependent at 1e-7); the
    iteration limit and the mean-error criterion are batch-level rules.""")
add("C15", "Failures in the middle of a run are contained",
    """When a linear solve fails without gradients, the optimizer warns, reports status FAIL, keeps the
    best solution and an exact record of what was visited; with gradients it raises and says why.
    Exceptions of user code propagate unchanged. After any failure, inputs and auxiliary variables
    are as given, gradient mode and the objective's contents are untouched, variables hold a visited
    state, and the same layer solves the next complete input exactly as a fresh layer would. An
    element with singular or non-finite data does not corrupt what is reported for others.""",
    ["crash points", "histories"],
    "All failure points and kinds, optimizers, solvers and backward modes.",
    """Tests check one failing call at most; the state left behind after failing at the n-th call of a
    particular component is unbounded.""",
    NLO + ["theseus/theseus_layer.py", "theseus/core/objective.py", "theseus/core/vectorizer.py"],
    [("failure handling", "NonlinearLeastSquares._optimize_loop, _merge_infos"),
     ("temporary updates", "Objective.error(also_update=False)")],
    "fault injection at random points with monitors on reports and residual state",
    "Faults are injected at solver, cost, weight, retraction and callback calls.")
add("C16", "Each backward mode returns the derivative it stands for",
    """Gradients through a layer equal: for unroll, the derivative of the whole run with respect to all
    inputs, starting points included; for truncated, of the last iterations from a constant state;
    for implicit, of one Gauss-Newton step with a constant Hessian at the last state; for DLM, the
    finite difference of error gradients between the solution and one step of the perturbed
    problem. Starting points get no gradient where the mode says so. The solver, vectorization, the
    order and number of forward and backward calls alive at once, and the mode's forward values do
    not change them.""",
    ["inputs", "schedules", "configurations"],
    "All problems, inputs, solvers, modes, iteration counts and call orders.",
    """Tests gradcheck one or two problems; which iterations, inputs and interleavings of calls are
    combined is unbounded.""",
    ["theseus/theseus_layer.py", "theseus/optimizer/nonlinear/nonlinear_least_squares.py"] + LIN + SOLV,
    [("loop split", "NonlinearLeastSquares._optimize_impl, _split_backward_iters"),
     ("detached Hessian", "Linearization.linearize(_detach_hessian)"),
     ("direct loss minimization", "TheseusLayerDLMForward")],
    "runtime oracle: finite differences and formula references for gradients, over random call schedules",
    "Smooth costs; cases with unreliable finite differences are skipped.")
add("C17", "A layer's answer depends on its inputs, not on its history",
    """Whatever a layer went through before (calls with partial inputs, other options, batch sizes and
    backward modes, dtype conversions, parameter changes, direct variable updates, rejected calls), a
    call returns exactly what a fresh layer holding the same values returns: solution, information
    and gradients. Calls leave the caller's tensors and option dictionaries unmodified, auxiliary
    variables hold exactly the tensors given, and results of earlier calls never change.""",
    ["histories"],
    "All call histories of a layer.",
    """Tests call a layer once or repeatedly with the same options; state leaking between calls needs
    particular histories.""",
    ["theseus/theseus_layer.py"] + NLO + CORE,
    [("optimizer state", "NonlinearLeastSquares.reset, LevenbergMarquardt.reset, TrustRegion.reset"),
     ("cached backward objective", "TheseusLayer._dlm_bwd_objective"),
     ("vectorization caches", "Vectorize, Objective.update")],
    "runtime monitor: history replay against freshly built twins",
    "Held on the generated histories.")
add("C21", "Check contexts and global options keep to their scope",
    """Turning group checks off (or tensor-type strictness on) inside a context affects exactly that
    block: the previous state is back after it ends in any way, exceptions and nesting included, and
    no other thread sees it. With checks on, invalid group tensors are rejected and valid ones
    accepted; with them off nothing is rejected. Global numeric options take effect when set, come
    back to their defaults on reset, and never change what unrelated calls compute.""",
    ["histories", "schedules", "crash points"],
    "All nestings, exceptions, threads and option histories.",
    """Tests enter a context once; leaks need an exception inside, nesting, a generator or another
    thread.""",
    ["theseus/geometry/lie_group_check.py", "torchlie/torchlie/functional/check_contexts.py",
     "torchlie/torchlie/global_params.py", "theseus/global_params.py", "torchlie/torchlie/lie_tensor.py"],
    [("check contexts", "set_lie_group_check_enabled, checks_base, enable_checks"),
     ("as_euclidean", "torchlie.lie_tensor.as_euclidean"), ("options", "_THESEUS_GLOBAL_PARAMS, _TORCHLIE_GLOBAL_PARAMS")],
    "runtime monitor: model of the context stack checked against probes in every thread",
    "Scope is probed by attempting constructions, not by reading flags.")
add("C22", "Gaussians on manifolds and posterior samples",
    """Moving a Gaussian between a manifold and a tangent plane transforms mean and precision by the
    right Jacobian of the exponential and back to where it was; copying, updating and converting
    a Gaussian keep mean and precision consistent and reject malformed ones. Samples drawn by a layer
    around a linear problem's solution have the solution as mean and the inverse Hessian, scaled by the
    temperature, as covariance.""",
    ["inputs", "histories"],
    "All groups, means, precisions, dtypes, batches and histories.",
    """Tests check a few fixed shapes; the transformation must be right for every tangent vector.""",
    ["theseus/optimizer/manifold_gaussian.py", "theseus/theseus_layer.py"] + LIN,
    [("tangent moves", "local_gaussian, retract_gaussian"), ("samples", "TheseusLayer.compute_samples")],
    "runtime oracle: independent series Jacobians, statistical monitors on samples",
    "Sampling is judged with 6-sigma bounds; vector variables only.")
add("C23", "Robot kinematics from a URDF are exact and differentiable",
    """For any robot description, forward kinematics places every link where composing its joint
    transforms puts it, in any order of queried links, batch and dtype; Jacobians are the body
    derivatives of those poses; first and second derivatives through them, forward and reverse, and
    function transforms agree with finite differences; joint classes obey their own axis, limits and
    origin; and the robot model embedded in an objective gives the same poses.""",
    ["inputs", "configurations"],
    "All kinematic trees, joint types, axes, joint values, link queries and batches.",
    """Tests use a few robot files; trees with unordered, fixed, branching or mimic-free joints and
    second derivatives at random configurations are unbounded.""",
    ["torchkin/torchkin/forward_kinematics.py", "torchkin/torchkin/robot.py", "torchkin/torchkin/joint.py",
     "theseus/embodied/kinematics/kinematics_model.py"],
    [("FK and Jacobians", "get_forward_kinematics_fns"), ("parsing", "Robot.from_urdf_file"),
     ("joints", "RevoluteJoint, PrismaticJoint, FixedJoint"), ("model", "UrdfRobotModel")],
    "runtime oracle: independent rigid-body composition over generated URDF files, finite differences",
    "Floating, planar and mimic joints are not supported by the code.")
add("C24", "Signed distance fields answer every query like bilinear interpolation",
    """A distance at any query point is the bilinear interpolation of the grid at that point, the
    gradient returned is its derivative, and out-of-map queries get the far value and no gradient.
    Distances made from occupancy maps are signed Euclidean distances to the nearest
    cell of the other kind. Everything follows the current data, origin and cell size after
    updates, differentiates with respect to each, and the collision costs built on it follow their
    hinge formulas with whatever variables they currently hold.""",
    ["inputs", "histories"],
    "All maps, origins, cell sizes, queries, batches and update histories.",
    """Tests compare a handful of points; cell borders, map borders, replaced data and mixed batches
    are where it goes wrong.""",
    ["theseus/embodied/collision/signed_distance_field.py", "theseus/embodied/collision/collision.py",
     "theseus/embodied/collision/eff_obj_contact.py", "theseus/utils/utils.py"],
    [("queries", "SignedDistanceField2D.signed_distance"), ("maps", "SignedDistanceField2D.compute_sdf_data_from_map"),
     ("gather", "gather_from_rows_cols"), ("costs", "Collision2D, EffectorObjectContactPlanar")],
    "runtime oracle: independent interpolation and brute-force distances",
    "Gradients are not judged within rounding of a cell border; fully occupied maps are undefined.")
add("C25", "Cross-entropy optimization takes exactly the elite steps it documents",
    """Each iteration of DCEM draws independent normal samples around the current mean with the current
    spread, evaluates every one on its own batch element, and moves mean and spread to those of the
    elite: the best ones, or the soft top-k weights of its projection layer, whose weights lie in
    (0,1), sum to k, keep the order of their inputs and have the projection's exact derivative. The
    record it returns is what happened, a seed makes it repeatable, a run never breaks down because
    the elite collapses, and gradients through the iterations are those of the seeded run.""",
    ["inputs", "random draws", "histories"],
    "All problems, batch sizes, sample and elite counts, temperatures, initial spreads and seeds.",
    """No test runs DCEM beyond one tutorial-like problem; the elite rule, the spread, the record and
    the gradient must be right for every draw.""",
    ["theseus/optimizer/nonlinear/dcem.py", "theseus/third_party/lml.py"] + NLO,
    [("elite step", "DCEM._CEM_step"), ("loop and record", "DCEM._optimize_loop"), ("soft top-k", "LML")],
    "runtime oracle: recorded samples replayed through an independent elite rule; moment monitors; seeded finite differences",
    "Vector variables; fewer than about 1000 samples per iteration (the projection's own bracket).")
add("C26", "Numerical, sparse and sampling utilities compute what they document",
    """Numeric Jacobians and gradients equal central differences of the function in the variables'
    own tangent spaces, leave the variables as they were and work for every group, dtype and batch;
    the Jacobian checker accepts a cost function exactly when its Jacobians agree, evaluating at
    valid group elements, and never accepts non-finite ones. Sparse products and their gradients
    equal the dense ones; random sparse matrices have the structure and fill asked for; the MLP
    builder builds the layers asked for; the differentiable grid sampler equals torch's, to second
    derivatives; timers report the time spent inside, and nothing when off.""",
    ["inputs", "histories"],
    "All functions, groups, dtypes, batches, matrix structures and grids.",
    """The repository trusts these utilities to judge everything else; a checker that wrongly accepts
    passes every test.""",
    ["theseus/utils/utils.py", "theseus/utils/sparse_matrix_utils.py", "theseus/third_party/utils.py"],
    [("numeric derivatives", "numeric_jacobian, numeric_grad"), ("checker", "check_jacobians"),
     ("sparse", "sparse_mtv, sparse_mv, random_sparse_matrix, random_sparse_binary_matrix, split_into_param_sizes"),
     ("sampling", "grid_sample"), ("timers", "Timer")],
    "runtime oracle: analytic derivatives, dense products and torch's own kernels",
    "Finite differences are judged to the accuracy of their step.")
add("C27", "Graph and bundle datasets hold exactly what their files and generators say",
    """Reading a g2o file gives its vertices by index and its edges in order, with the file's numbers,
    edge weights being square roots of the information's diagonal; reading a BAL file gives its
    cameras, points and observations; writing and reading back is the identity, ground truth
    included. Batches of a dataset partition it, own their data and keep each edge's measurement
    and weight with its element. Generated graphs and bundles agree with their ground truth up to
    the noise asked for, loop closures and outliers come in the ratio asked for, random rotations
    stay within the angle asked for, histograms count the true errors, and the example losses have
    the derivatives they return.""",
    ["inputs", "files", "random draws"],
    "All well-formed files, dataset sizes, batch sizes, noise levels and seeds.",
    """Tests read one file or none; blank lines, other vertex numbering, weights per element and single
    cameras are unbounded.""",
    ["theseus/utils/examples/pose_graph/dataset.py", "theseus/utils/examples/bundle_adjustment/data.py",
     "theseus/utils/examples/bundle_adjustment/util.py"],
    [("g2o", "read_2D_g2o_file, read_3D_g2o_file"), ("batches", "PoseGraphDataset.get_batch_dataset"),
     ("BAL", "BundleAdjustmentDataset"), ("generators", "generate_synthetic, generate_synthetic_3D"),
     ("histograms", "pg_histogram, ba_histogram")],
    "runtime oracle: independent parser and writer over generated files; statistics of generated data",
    "Malformed files are out of scope.")
add("C28", "The motion planner optimizes the documented problem and reports its trajectory",
    """A planner's objective is exactly the documented GP motion planning problem: start and goal
    priors, GP smoothness between consecutive states with its Qc, collision costs against the signed
    distance field, and the optional nonholonomic and positive-velocity costs, each with its weight,
    for points and for SE2, in every dtype; a copy is the same problem with its own variables and the
    collision weight asked for. Trajectories read from and written to the variables are exact
    inverses; straight lines and learned initial trajectories follow their formulas, the latter
    sampled from the planner's own Gaussian; the trajectory dataset returns the files of the split
    asked for, with their contents.""",
    ["inputs", "configurations"],
    "All map sizes, horizons, weights, poses, dtypes, batches and dataset layouts.",
    """One test runs the planner with one configuration; options, copies and the layout of the state are
    never compared with the problem.""",
    ["theseus/utils/examples/motion_planning/motion_planner.py", "theseus/utils/examples/motion_planning/models.py",
     "theseus/utils/examples/motion_planning/misc.py"],
    [("objective", "MotionPlannerObjective"), ("planner", "MotionPlanner.copy, get_trajectory, get_variable_values_from_trajectory"),
     ("initial trajectories", "InitialTrajectoryModel, get_variable_values_from_straight_line"), ("dataset", "TrajectoryDataset")],
    "runtime oracle: reference cost formulas and exact linear solution; generated dataset directories",
    "Plots are not judged.")
add("C29", "Tactile estimation keeps episodes, measurements and costs together",
    """A pushing recording is cut into exactly the episodes long enough, in order, with every step's poses,
    features and flags; training and validation sets partition it, repeatably; batches partition a
    set. Every measurement handed to the optimizer is that of its own batch element and pair of steps,
    from the poses or from the network with the class asked for; at the true poses the priors and true
    measurements have no error. The estimator's objective is exactly the documented factor graph
    (start and effector priors, quasi-static pushing, moving-frame measurements in the window asked
    for, contact, regularization) with the shared weights; poses read back are those of the solution.""",
    ["inputs", "files", "configurations"],
    "All recordings, windows, horizons, shapes, weights, class labels, batch sizes and splits.",
    """No test touches this code; mixing steps of different batch elements goes unseen with a batch of
    one.""",
    ["theseus/utils/examples/tactile_pose_estimation/misc.py", "theseus/utils/examples/tactile_pose_estimation/models.py",
     "theseus/utils/examples/tactile_pose_estimation/pose_estimator.py",
     "theseus/utils/examples/tactile_pose_estimation/trainer.py"],
    [("episodes", "TactilePushingDataset"), ("measurements", "get_tactile_nn_measurements_inputs"),
     ("objective", "TactilePoseEstimator"), ("batch data", "TactilePushingTrainer.get_batch_data")],
    "runtime oracle: generated recordings, reference relative poses and cost formulas",
    "The CUDA-only training loop and the plots are not run.")
add("C30", "GPU and BaSpaCho solvers: right solutions and gradients, no stray memory access",
    """BaspachoSparseSolver and LUCudaSparseSolver, and the native functions beneath them (products,
    damping, factorization, solve), return the solution of the damped normal equations and its exact
    gradients, like the dense solvers do, for every structure, batch size, damping, dtype, variable
    ordering, device and memory layout of upstream gradients, over any history of factorizations,
    solves, changes of batch size and late backward calls. What cannot be answered (wrong shapes or
    layouts, a factorization since overwritten) is refused. No call reads or writes outside the
    tensors it was given, runs into undefined behaviour, or has concurrent threads race.""",
    ["inputs", "histories", "interleavings"],
    "All sparse structures, batches, dampings, orderings, memory layouts and schedules of kernel threads.",
    """Their tests are skipped without a GPU and the native build; where they run they use contiguous
    tensors and one factorization at a time.""",
    ["theseus/extlib/mat_mult.cu", "theseus/extlib/baspacho_solver.cpp", "theseus/extlib/baspacho_solver_cuda.cu",
     "theseus/extlib/cusolver_lu_solver.cpp", "theseus/extlib/utils.h", "theseus/optimizer/linear/baspacho_sparse_solver.py",
     "theseus/optimizer/linear/lu_cuda_sparse_solver.py", "theseus/optimizer/linear/utils.py",
     "theseus/optimizer/autograd/baspacho_sparse_autograd.py", "theseus/optimizer/autograd/lu_cuda_sparse_autograd.py",
     "theseus/optimizer/autograd/common.py"],
    [("kernels", "mult_MtM, mat_vec, tmat_vec, apply_damping"), ("BaSpaCho binding", "NumericDecomposition, SymbolicDecomposition"),
     ("cuSOLVER binding", "CusolverLUSolver"), ("adjoints", "BaspachoSolveFunction, LUCudaSolveFunction")],
    "AddressSanitizer, UBSan and ThreadSanitizer on the native sources run on the CPU; dense reference solutions",
    "The CUDA runtime, cuSOLVER and BaSpaCho are stand-ins that follow their documented contract.")
