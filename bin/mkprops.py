#!/usr/bin/env python3
"""Generates properties.jsonl (kept in one readable place)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe="return value / public data members",hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b) for a,b in state],mechanism=[dict(name=m,where=files[0]) for m in mech],observe_at=[observe],hook_needed=None)))
I="include/proxsuite-nlp/"
M=I+"modelling/"
p("C01","Solver verdicts are honest and the solve stays within its budgets",
 "When solve reports success, the primal and dual residuals it reports are below the target tolerance and equal the residuals recomputed from the user's own functions at the point and multipliers it returns. When it reports that the iteration limit was reached, exactly that many inner iterations were counted; any other outcome is possible only when the outer-iteration budget ran out. Inner and outer counters never exceed their limits and the returned flag equals the one stored in the results.",
 ["inputs","configurations","histories"],"every problem (cost, constraints, sets, manifold), starting point, multipliers, tolerance, iteration budgets, Hessian mode, KKT form, factorisation choice",
 "The repository's solver test only runs two tiny problems and looks at the flag; it never recomputes residuals at the returned point nor varies budgets, modes or constraint types.",
 [I+"prox-solver.hxx",I+"prox-solver.hpp",I+"results.hpp"],["solve(): outer loop termination tests","innerLoop(): residual evaluation, early stop, iteration limit","computePrimalResiduals()"],
 [("results.converged","verdict"),("results.prim_infeas/dual_infeas","reported residuals"),("results.num_iters/al_iters","counters")],"solver results plus the user's own cost/constraint functions")
p("C02","Outer loop follows the BCL penalty / tolerance schedule",
 "After each subproblem, if the primal error is below the current primal tolerance the multiplier estimate is accepted and both tolerances are multiplied by (mu/mu_upper)^beta with the penalty unchanged; otherwise the accepted multiplier estimate stays, the penalty is multiplied by its update factor (clamped below at the lower limit, and restarted from its initial value if it already was at the limit) and tolerances are reset to tol0*mu^alpha. The subproblem tolerance never drops below its floor nor the primal tolerance below the target tolerance, the proximal weight is multiplied by its factor each outer iteration, and every constraint set sees the current penalty.",
 ["inputs","configurations","histories"],"every sequence of success/failure outcomes of subproblems, every BCL parameter set, penalty bounds and initial values, every multiplier update mode",
 "No test observes the penalty, tolerances or multiplier estimates during a solve.",
 [I+"prox-solver.hxx",I+"bcl-params.hpp"],["solve() outer loop","updatePenalty/updateToleranceSuccess/updateToleranceFailure/tolerancePostUpdate","acceptMultipliers","setPenalty/setProxParameter"],
 [("mu_, rho_","proximal penalties"),("inner_tol_, prim_tol_","BCL tolerances"),("workspace.data_lams_prev","accepted multiplier estimate")],"public tolerance members, results.mu/rho, set mu(), workspace multiplier estimate, sampled inside user functions and callbacks")
p("C03","Armijo line search returns an accepted, in-range, consistent step",
 "For any merit function (including ones that throw or are non-finite at some steps), the returned step lies in [alpha_min, 1] and the returned value is the merit value at that very step whenever the function could be evaluated there. The step satisfies the Armijo decrease test unless the slope was negligible, the step budget ran out, or the minimum step was reached; the first trial is the full step, it is halved while evaluation fails, and every later trial is the previous one times a factor in [contraction_min, contraction_max] (exactly one half for bisection), floored at alpha_min. With quadratic or cubic interpolation that trial is the minimiser of the polynomial through the recorded values and slope when it exists and lies strictly inside the contraction range, and the better of the range's two ends otherwise.",
 ["inputs","histories","fault_sequences"],"all merit functions / sequences of trial values and evaluation failures, all option values and interpolation types",
 "tests/linesearch.cpp minimises two analytic functions; it never scripts adversarial value sequences, failures, or the relation between the returned step and value.",
 [I+"linesearch-armijo.hpp",I+"linesearch-base.hpp"],["ArmijoLinesearch::run","minimize_interpolant"],[("latest/previous","last evaluated trial samples")],"calls made to the merit callable, returned value and step")
p("C04","Newton steps solve the (inertia-corrected) KKT system",
 "In every inner iteration the accepted primal-dual step solves the assembled KKT system, with the primal block shifted by the regularisation that was chosen, for the assembled right-hand side, and the matrix is the one defined by the Hessian mode, the active-set-projected Jacobians, the proximal terms and the penalty. The regularisation starts at its initial value and follows the documented increase ladder until the factorised matrix has exactly ndx positive and as many negative eigenvalues as dual variables and no zero ones, or the maximum is passed. The inertia check and inertia count classify every signature correctly.",
 ["inputs","configurations","histories"],"every problem curvature (convex, indefinite, singular), every factorisation backend, KKT form, Hessian mode; all signature vectors",
 "Existing tests only check that the solver converges; no test looks at a KKT matrix, a step, or the regularisation ladder.",
 [I+"prox-solver.hxx",I+"ldlt-allocator.hpp"],["innerLoop() inertia loop","assembleKktMatrix","iterativeRefinement","checkInertia","computeInertiaTuple"],[("workspace.kkt_matrix/kkt_rhs/pd_step","Newton system"),("workspace.signature","factor signature")],"workspace seen by callbacks; solver log line (xreg column)")
p("C05","Constraint sets: proximal map, normal cone and active set are consistent",
 "For the equality, negative-orthant, box and l1 sets and every input and proximal parameter, the projection is the exact proximal point, projection plus normal-cone projection reproduces the input, and re-projecting a projected point changes nothing for the three indicator sets. The active set flags exactly the components outside the set (every component for equality, those of magnitude at most mu for l1), the two Jacobian operators zero respectively the active and the inactive rows and leave the others untouched, and the Moreau envelope equals penalty at the prox plus squared distance over 2mu.",
 ["inputs","histories"],"all vectors (including points on set boundaries), all proximal parameters, all sequences of parameter changes and copies, aliased input/output",
 "tests/constraints.cpp samples a few random vectors on two sets; boundaries, l1, active-set/Jacobian agreement and the envelope are not covered.",
 [I+"constraint-set.hpp",I+"constraint-set.hxx",M+"constraints/box-constraint.hpp",M+"constraints/equality-constraint.hpp",M+"constraints/l1-penalty.hpp",M+"constraints/negative-orthant.hpp"],["projection / normalConeProjection / computeActiveSet / apply*Jacobian / evaluateMoreauEnvelope / setProxParameter"],[("mu_, mu_inv_","proximal parameter")])
p("C06","A product constraint set acts blockwise like its components",
 "Every operation of a product of constraint sets (penalty value, projection, normal-cone projection, active set, both Jacobian operators, Moreau envelope) equals the concatenation, or for scalars the sum, of the component results on the corresponding blocks, including after any change of proximal parameter made through the product. Blocks are laid out in component order with the declared sizes.",
 ["inputs","configurations","histories"],"all component lists, block sizes (including empty blocks), inputs and parameter-change histories, copies and nested products",
 "tests/constraints.cpp compares one two-block product of parameter-free sets on random input.",
 [M+"constraints/constraint-set-product.hpp",I+"constraint-set.hpp"],["ConstraintSetProductTpl operations","setProxParameter propagation"],[("component mu","per-component proximal parameter")])
p("C07","Merit function value, gradients and multiplier estimates agree",
 "At any point, multipliers, multiplier estimate and penalty, the merit value equals the primal-dual augmented Lagrangian formula evaluated from the user's functions (with the default dual weight one half), and its reported primal and dual gradients are the exact derivatives of that value. First-order and primal-dual multiplier estimates equal the scaled normal-cone projections that define them.",
 ["inputs","configurations"],"all points, multipliers, penalties, constraint sets and numbers of constraints",
 "No test evaluates the merit function or its gradient.",
 [I+"pdal.hpp",I+"pdal.hxx",I+"prox-solver.hxx"],["ALMeritFunctionTpl::evaluate / computeGradient","computeMultipliers"],[("workspace.lams_plus/lams_pdal/shift_*","multiplier estimates")],"merit value, workspace vectors")
p("C08","Manifolds obey the integrate / difference calculus",
 "On vector spaces, tangent bundles and their Cartesian products (nested arbitrarily), integrating the difference of two points from the first gives the second, the difference after integrating a tangent vector is that vector, interpolation at 0 and 1 gives the endpoints and is affine in between and beyond, and the Jacobians are the derivatives of integrate and difference with respect to the requested argument. Dimensions, neutral element and tangent space are consistent, sampled points are valid, and validity of a composite point is the conjunction of its components' validity.",
 ["inputs","configurations"],"all spaces built by nesting the three constructors, all points, tangent vectors, interpolation parameters and argument indices",
 "tests/manifolds.cpp needs Pinocchio Lie groups or samples a handful of random points; bundle interpolation, invalid points and nested products are untested.",
 [I+"manifold-base.hpp",I+"manifold-base.hxx",M+"spaces/vector-space.hpp",M+"spaces/tangent-bundle.hxx",M+"spaces/tangent-bundle.hpp",M+"spaces/cartesian-product.hxx"],["integrate/difference/Jintegrate/Jdifference/interpolate implementations"])
p("C09","Cartesian products keep component order; split and merge are inverse",
 "Building a product by any sequence of multiplications and component additions yields the flattened list of factors in the order written, and leaves the operands unchanged. Splitting a point or tangent vector gives per-component views in that order, of the components' sizes, that alias the original storage, and merging the pieces restores the vector.",
 ["programs","inputs"],"all expressions combining spaces and products on either side, all component dimensions, writes through views",
 "tests build one product and split one vector; left multiplication by a product and aliasing of views are not checked.",
 [M+"spaces/cartesian-product.hpp",M+"spaces/cartesian-product.hxx"],["operator* overloads, addComponent, split/split_vector, merge/merge_vector"],[("m_components","ordered factor list")])
p("C10","Cost algebra evaluates as the weighted sum it was built from",
 "Any expression built from costs with +, +=, scalar * (either side), *=, unary minus and addComponent evaluates, in value, gradient and Hessian, to the corresponding weighted sum of the leaf costs at every point. Operations that return a new sum never modify their operands, in-place operations modify only their target, and a clone is independent of its original.",
 ["programs","inputs","histories"],"all sequences of algebra operations over shared leaf costs, all points",
 "tests/costs.cpp checks a couple of fixed expressions; operand isolation over longer histories is not tested.",
 [I+"cost-sum.hpp",I+"cost-sum.hxx"],["CostSumTpl operators, clone, call/computeGradient/computeHessian"],[("components_, weights_","terms of the sum")])
p("C11","Functions and costs are pure; derivatives match values",
 "For linear functions, state residuals, compositions, quadratic residual / distance costs and the casts between costs and functions, value and Jacobian/gradient at a point are exactly those of the mathematical function at that point, whatever calls were made before on the same object. Compositions satisfy the first-order chain rule, the quadratic residual cost has the Hessian J'QJ (plus the residual's own second-order term when Gauss-Newton is off), and the cast in either direction preserves values and derivatives.",
 ["inputs","histories"],"all points and all orders of value/gradient/Hessian calls on shared objects, Gauss-Newton flag on or off, target updates",
 "Tests always evaluate the value immediately before the derivatives at the same point, so dependence on call history is invisible.",
 [M+"costs/quadratic-residual.hxx",M+"costs/quadratic-residual.hpp",M+"costs/squared-distance.hpp",M+"residuals/linear.hpp",M+"residuals/state-residual.hpp",I+"function-ops.hpp",I+"cost-function.hpp",I+"function-base.hpp"],["cached residual members in QuadraticResidualCostTpl","ComposeFunctionTpl","func_to_cost","CostFunctionBaseTpl C2 interface"],[("err/Jres/H","mutable caches")])
p("C12","Finite-difference wrappers return central differences of the function",
 "The first-order wrapper's Jacobian column i is [f(x (+) eps e_i) - f(x (+) -eps e_i)] / (2 eps) taken along the manifold, exact for functions of degree at most two; the second-order wrapper forwards value and Jacobian and its vector-Hessian product is the same central difference of the Jacobian transposed times the vector. Values are forwarded unchanged.",
 ["inputs","configurations"],"all functions, spaces, step sizes, points and vectors",
 "tests/finite-diff.cpp compares one function to its analytic derivative with a loose tolerance.",
 [M+"autodiff/finite-difference.hpp"],["finite_difference_impl::computeJacobian / vectorHessianProduct"])
p("C13","Problem and workspace layout partitions the constraint rows",
 "After construction and after any additions, constraint blocks occupy consecutive disjoint index ranges in insertion order covering exactly the total constraint dimension, and every per-constraint view in workspace and results aliases exactly its range of the stacked storage. Evaluating the problem and its derivatives writes each constraint's value, Jacobian and vector-Hessian product into its own block and nothing else, and the objective into the objective fields.",
 ["inputs","configurations","histories"],"all numbers and sizes of constraints (including none), all add sequences, all points",
 "The tests never inspect indices, views or stacked storage beyond a two-constraint problem.",
 [I+"problem-base.hpp",I+"workspace.hpp",I+"results.hpp"],["reset_constraint_dim_vars","createConstraintWiseView","WorkspaceTpl::init","evaluate/computeDerivatives/computeHessians"],[("indices_, ncs_, nc_total_","row partition")])
p("C14","Symbolic block structure analysis is sound",
 "The kind computed for a transpose, sum or product of blocks is the smallest kind covering every nonzero such an operation can produce. Symbolic factorisation succeeds only when the resulting lower pattern covers all fill the numeric factorisation can create, the nonzero count equals the pattern's size, copies are independent, the symmetry test accepts exactly the patterns whose off-diagonal blocks mirror each other's transposed kind, and the brute-force search returns a block permutation whose factor pattern has the least nonzero count over all permutations. The structure used by default for KKT systems covers every entry such a system can have: dense primal rows and columns, a diagonal block for each constraint, nothing between different constraints.",
 ["inputs","configurations"],"all block kinds, all symmetric block patterns of a given number of blocks, all segment lengths, all permutations",
 "tests/cholesky-block-sparse.cpp uses four fixed patterns.",
 ["src/block-kind.cpp",I+"linalg/block-kind.hpp"],["trans/add/mul","llt_in_place","count_nnz","brute_force_best_permutation","symbolic_deep_copy","check_if_symmetric"],[("SymbolicBlockMatrix","row of kinds, segment lengths, performed flag")])
p("C15","Block-sparse LDLT and block kernels equal their dense meaning",
 "For every block structure it accepts and every matrix respecting that structure, the block factorisation under any block permutation reconstructs the input and solves linear systems as the dense inverse would, or else reports failure; the block triangular solve and the structured multiply-accumulate give the same result as the dense operation on the same operands. Results do not depend on what was factorised before, and copies and assignments of a factorisation behave as independent values.",
 ["inputs","configurations","histories"],"all structures of up to a few blocks, block sizes, permutations, right-hand sides, sequences of compute calls and copies",
 "Existing tests use a few fixed structures with random entries.",
 [I+"linalg/block-ldlt.hpp",I+"linalg/block-ldlt.hxx",I+"linalg/block-triangular.hpp",I+"linalg/gemmt.hpp"],["block_impl::ldlt_in_place_impl","TriangularBlockMatrix::solveInPlace","gemmt","BlockLDLT copy/permutation handling"],[("m_structure/m_perm/m_permutation","analysed structure and permutation")])
p("C16","LDLT backends: solution, reconstruction and signature match the true inertia",
 "For every symmetric matrix within a backend's domain (any nonsingular matrix, or a singular one whose zero pivots come out exactly, for Bunch-Kaufman; any matrix with nonzero leading pivots for the plain LDLTs), the factorisation reconstructs the matrix, solves A x = b when nonsingular, and the signature derived from it has the matrix's number of positive, negative and zero eigenvalues; an exactly singular matrix is reported as a numerical failure by Bunch-Kaufman, still with its true signature; the dense backend's overall sign agrees with its pivots. Results depend only on the last matrix given, at every size, including above the blocking thresholds, and a solver object allocated by choice is the corresponding backend.",
 ["inputs","configurations","histories"],"all symmetric matrices (indefinite, zero diagonal, singular, any pivot pattern, any size, any scale), all right-hand sides, sequences of compute calls",
 "tests/bunchkaufman.cpp checks residuals on random and fixed matrices only; signatures, 2x2-pivot classification, object reuse and scale are not covered.",
 [I+"linalg/bunchkaufman.hpp",I+"linalg/dense.hpp",I+"linalg/ldlt-base.hpp",I+"ldlt-allocator.hpp"],["BunchKaufman compute/solve","dense_ldlt_in_place","bunch_kaufman_compute_signature","ComputeSignatureVisitor","allocate_ldlt_from_sizes"],[("m_pivots/m_subdiag","pivot structure")])
p("C17","polymorphic<T> is a value: deep copies, correct lifetimes",
 "Copying or assigning a polymorphic value yields an independent object of the same dynamic type, moving (with equal or propagating allocators) transfers it and leaves the source valueless, swapping exchanges, and accesses reach the most derived object. Over any sequence of such operations, including ones whose constructors throw, every constructed object is destroyed exactly once, failed operations leave their target unchanged, and const access propagates.",
 ["histories","fault_sequences"],"all sequences of construct, copy, move, assign, swap, emplace, destroy over several slots, stateful and stateless allocators, a throw at any copy",
 "The repository has no C++ test of polymorphic's lifecycle beyond a Python binding test.",
 [I+"third-party/polymorphic_cxx14.hpp"],["control blocks clone/move/destroy","assignment, swap, valueless_after_move"],[("cb_","owned control block")])
p("C18","BFGS keeps the secant equation, symmetry and definiteness",
 "After initialisation, each update with positive curvature s'y > 0 yields a symmetric positive definite matrix satisfying the secant equation (H y = s for the inverse form, B s = y for the Hessian form) and equal to the textbook rank-two update; an update with non-positive curvature leaves the matrix unchanged and marks it. The first update only records the point, curvature pairs are always differences between consecutive calls, and using a strategy created without a dimension is refused.",
 ["histories","inputs"],"all sequences of points and gradients, both update types",
 "tests/bfgs-strategy.cpp runs two convex problems; skipped updates and the secant pair after a skip are not checked.",
 [I+"bfgs-strategy.hpp"],["BFGSStrategy::init / update"],[("x_prev, g_prev","last recorded pair"),("is_init, is_psd","flags")])
p("C19","Callbacks see every iteration once and in order; history is faithful",
 "Each registered callback is invoked, in registration order, exactly once per inner iteration after the iterate was accepted and once when the solve ends; cleared callbacks are never invoked again. The recorded history contains one snapshot per invocation holding exactly the values at that time (and only the groups that were requested), unaffected by later iterations (except fields documented as live views), and the solver accepts as next iterate exactly the point reached by its accepted step.",
 ["histories","configurations"],"all problems, callback sets, storage options, sequences of register/clear/solve",
 "No test registers more than one callback or compares history with the iterates.",
 [I+"prox-solver.hpp",I+"prox-solver.hxx",I+"helpers/history-callback.hpp",I+"helpers-base.hpp"],["invokeCallbacks placement","history_callback::call","tryStep"],[("callbacks_","registered observers"),("storage","history")],"callback invocations and stored history")
p("C20","A solve depends only on its inputs",
 "After setup, solving with given initial point and multipliers yields the same iterates, results and verdict bit for bit, no matter which solves were run before on the same object or on other solvers (for Hessian modes without memory; after a fresh setup for BFGS), and does not modify its inputs. The initial proximal centre is the given starting point, and multipliers given per constraint or stacked are equivalent.",
 ["histories","configurations"],"all sequences of solves with different starting points, multipliers, budgets and options on one solver or several",
 "Tests construct a fresh solver for every solve.",
 [I+"prox-solver.hxx",I+"prox-solver.hpp"],["solve() initialisation","setup()"],[("prox_penalty target","proximal centre"),("workspace_, results_","persistent buffers")])
p("C21","Misuse and non-finite data are reported as errors, not absorbed",
 "Solving before setup, passing a wrong number of multipliers, wrong-sized targets or points for products, mismatched product-set blocks, incompatible compositions, casting a multi-valued function to a cost, invalid manifold targets, bad derivative argument indices on vector-space based spaces, BFGS on non-Euclidean spaces, malformed signatures and unsupported line searches or backends all raise an exception of the documented kind and valid uses raise none. NaN or infinite values entering the KKT system, or a NaN merit at the step about to be accepted, abort the solve with an exception instead of producing a result, and an object that threw remains usable.",
 ["fault_sequences","inputs","histories"],"all listed misuse classes with all sizes, and a non-finite value injected at any evaluation of the cost value, gradient, Hessian, constraint or Jacobian",
 "No test exercises an error path.",
 [I+"exceptions.hpp",I+"prox-solver.hxx",I+"function-ops.hpp",I+"cost-function.hpp",M+"constraints/constraint-set-product.hpp",M+"spaces/cartesian-product.hxx",M+"residuals/state-residual.hpp",I+"ldlt-allocator.hpp",I+"math.hpp"],["PROXSUITE_NLP_RUNTIME_ERROR / DIM_CHECK / RAISE_IF_NAN sites"],(),"exceptions thrown through the public API")
p("C22","Solver log shows one faithful row per iteration",
 "With logging active, output consists of a header at the start, one row per inner iteration in order whose columns are that iteration's number, step, criteria, residuals, regularisation, slope, merit and outer index, and a repeated header before every 25th row; rows have a fixed layout. With a quiet solver, or with its logger switched off, nothing of this is printed.",
 ["histories","inputs"],"all iteration counts and values, all verbosity settings",
 "No test reads the log.",
 [I+"logger.hpp",I+"prox-solver.hxx"],["BaseLogger::start / log","log record assembled in innerLoop"],(),"standard output")
p("C23","Scalar and norm helpers classify and measure exactly",
 "The infinity norm of any vector, matrix or list of vectors is the largest absolute entry, and zero for empty input; the sign helper returns -1, 0 or 1; the non-finite checks flag exactly inputs containing a NaN or infinity; the closeness test is symmetric, reflexive for positive precision, and relative to the larger magnitude.",
 ["inputs"],"all scalars, vectors and matrices, any shape and position of the extreme or non-finite entry",
 "tests/math.cpp checks three fixed vectors.",
 [I+"math.hpp"],["infty_norm, check_scalar, check_value, sign, scalar_close"])
p("C24","Printed forms show what they describe",
 "The sparsity pattern printed for a block structure (or a view of one) has one cell per scalar entry, filled exactly where the block kinds allow a nonzero, for square and rectangular blocks. Printing a sum of costs shows the number of terms and their weights in order; printing results shows every reported quantity under its own name, with all constraint violations and active sets; line search options and Hessian modes print as their own values and names.",
 ["inputs"],"all block structures, views, weights, result contents and option values",
 "No test looks at any printed form.",
 ["src/block-kind.cpp",I+"cost-sum.hpp",I+"results.hpp",I+"linesearch-base.hpp",I+"fmt-hessian-approx.hpp",I+"fmt-eigen.hpp"],["print_sparsity_pattern","operator<< of CostSum, Results, Linesearch Options","fmt formatters"],(),"standard output / output streams")
# minimal shape fix-ups for the schema
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
