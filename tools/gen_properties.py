"""Writes /verif/properties.jsonl (kept as source: easier to edit than jsonl)."""
import json, os
P = []
OPT = "src/pymanopt/optimizers/"
MAN = "src/pymanopt/manifolds/"


def prop(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


ALLOPT = [OPT + f for f in ("steepest_descent.py", "conjugate_gradient.py", "trust_regions.py", "nelder_mead.py", "particle_swarm.py", "optimizer.py")]
ALLMAN = [MAN + f for f in ("euclidean.py", "sphere.py", "stiefel.py", "grassmann.py", "oblique.py", "complex_circle.py", "positive.py", "positive_definite.py", "psd.py", "fixed_rank.py", "group.py", "hyperbolic.py", "product.py", "manifold.py")]

prop("C01", "The result describes the returned point",
     "For every optimizer the cost reported in the result is the objective evaluated at the returned point. Where a gradient norm is reported it is the Riemannian norm of the Riemannian gradient at that same point, a reported step size is that of the last step taken, and the reported time runs from before the first iteration to after the last.",
     ["inputs", "histories"], "all objectives, manifolds, starting points, optimizer settings and numbers of iterations at which the run stops",
     "Tests run a handful of well-behaved problems to convergence, where the last iterates and their costs coincide to test tolerance; a stale cost or gradient norm only shows on early stops and rejected steps.",
     ALLOPT, [("result construction", OPT + "optimizer.py: Optimizer._return_result"), ("main loops", OPT + "*.py: run")])
prop("C02", "Log entries are consistent and made exactly when logging is enabled",
     "When per-iteration logging is enabled every iteration of every optimizer adds exactly one entry whose iteration number, point, cost and gradient norm belong together; when it is disabled no entry is recorded. The log returned in the result is the log of that run, and its head states the limits and parameters the run used.",
     ["histories", "configurations"], "all optimizers, all run lengths, both logging settings",
     "Existing tests only look at one optimizer's log keys for one short run.",
     ALLOPT, [("log bookkeeping", OPT + "optimizer.py: Optimizer._add_log_entry, _initialize_log")])
prop("C03", "Optimizers keep tangent vectors at their own base point",
     "Optimizers only combine tangent vectors that belong to the same point: every inner product, norm, retraction, Hessian and preconditioner application uses vectors of the tangent space at the point given, and a vector is moved to another point only by transport.",
     ["inputs", "histories"], "all optimizers and line searches, every expression over points and tangent vectors in every iteration",
     "On the flat or trivially transported manifolds and short runs used in tests, mixing tangent spaces changes numbers too little to fail a tolerance.",
     ALLOPT + [OPT + "line_search.py"], [("tangent vector flow", OPT + "*.py: run"), ("transport of gradients and directions", OPT + "conjugate_gradient.py")])
prop("C04", "Every run stops exactly by one of its documented stopping criteria",
     "Each iteration increases the iteration counter by one, and a run ends if and only if one of the documented criteria holds (time limit, iteration limit, gradient norm below the threshold, step size below the threshold, cost evaluation limit), using the current iteration's quantities. The result reports the reason and the number of iterations performed.",
     ["histories", "configurations"], "all optimizers, all values of the limits (including limits already reached at the start), all run lengths",
     "Tests exercise the default limits on easy problems; boundary comparisons and criteria that never fire are not sampled.",
     ALLOPT, [("criteria", OPT + "optimizer.py: Optimizer._check_stopping_criterion")])
prop("C05", "Line searches never accept a cost increase and report the step taken",
     "A line search returns either the retraction of a multiple of the search direction whose cost is no larger than the starting cost, or the starting point with step size zero; the reported step size is the norm of the retracted vector. It backtracks while the sufficient decrease condition fails and evaluates the cost a bounded number of times.",
     ["inputs", "histories"], "all objectives, points, directions, parameters and previous searches",
     "Whether the search is accepted, rejected or runs out of steps depends on arbitrary cost sequences; tests see only smooth descent.",
     [OPT + "line_search.py"], [("backtracking", OPT + "line_search.py: BackTrackingLineSearcher.search"), ("adaptive", OPT + "line_search.py: AdaptiveLineSearcher.search")])
prop("C06", "Conjugate gradient directions follow the selected rule and restart strategy",
     "Every search direction is the negative preconditioned gradient plus the coefficient of the selected rule times the transported previous direction; the coefficient is the documented formula of the rule, evaluated in the tangent space of the new point. A direction that is not a descent direction is replaced by the negative preconditioned gradient (with the matching slope), and Powell's criterion resets the direction.",
     ["inputs", "configurations", "histories"], "all five rules, all manifolds, preconditioners, iterations",
     "Tests check that runs converge, which nearly any direction rule does.",
     [OPT + "conjugate_gradient.py"], [("rules", OPT + "conjugate_gradient.py: BETA_RULES"), ("restart", OPT + "conjugate_gradient.py: ConjugateGradient.run")])
prop("C07", "Trust regions accept steps and change the radius by the ratio test",
     "A proposed step is accepted exactly when the model decreased and the regularised ratio of actual to predicted decrease exceeds the acceptance threshold; then point, cost and gradient change together, otherwise none does. The radius is divided by four on poor agreement, doubled up to its cap when agreement is good and the boundary was reached, and kept otherwise.",
     ["inputs", "histories"], "all objective values, model values, inner stopping reasons and both initialisation modes",
     "Rejections, radius caps and bad models hardly occur in the convex test problems.",
     [OPT + "trust_regions.py"], [("outer loop", OPT + "trust_regions.py: TrustRegions.run")])
prop("C08", "The trust-region subproblem solver returns a consistent step inside the region",
     "The inner solver returns a step together with the Hessian applied to that same step, extends the step exactly to the boundary of the region when it meets negative curvature or would leave the region, keeps its running inner products in agreement with their vectors, and never returns a step with a larger model value than an earlier one. It reports the reason for which it stopped and obeys its iteration limits.",
     ["inputs", "histories"], "all gradients, Hessians, preconditioners, radii and inner iteration counts",
     "Tests observe only the final optimum, to which an inconsistent inner solver also converges.",
     [OPT + "trust_regions.py"], [("tCG", OPT + "trust_regions.py: TrustRegions._truncated_conjugate_gradient")])
prop("C09", "Nelder-Mead keeps simplex and costs paired and follows the simplex rules",
     "At all times the stored cost of each vertex is the objective at that vertex, the vertices are sorted before each step, and the worst vertex is replaced only according to the reflection, expansion, contraction and shrink rules of the method. The reported number of cost evaluations is the number of times the objective was called.",
     ["inputs", "histories"], "all cost landscapes (hence all sequences of reflection, expansion, contraction and shrink steps) and simplex sizes",
     "A short run on one smooth function takes only some of the branches and is insensitive to which vertex is replaced.",
     [OPT + "nelder_mead.py"], [("simplex update", OPT + "nelder_mead.py: NelderMead.run")])
prop("C10", "Particle swarm tracks personal and global bests of evaluated positions",
     "Personal best and global best positions are always positions that were evaluated, stored with their own costs, and change only when the new cost is smaller; velocities combine the transported old velocity with steps toward the particle's own best and the global best. The reported number of cost evaluations is the number of times the objective was called.",
     ["inputs", "histories"], "all cost landscapes, population sizes and random draws",
     "Random swarms on an easy problem converge even when bests and costs are mixed up.",
     [OPT + "particle_swarm.py"], [("swarm update", OPT + "particle_swarm.py: ParticleSwarm.run")])
prop("C11", "Inputs are never modified",
     "No optimizer, manifold operation, problem method or tool modifies the points, tangent vectors, populations or sequences passed to it.",
     ["inputs", "programs"], "all public operations and all arguments",
     "Tests rarely compare their inputs with copies afterwards, and aliasing only shows when the caller reuses an argument.",
     ALLOPT + ALLMAN + ["src/pymanopt/core/problem.py", "src/pymanopt/tools/__init__.py"], [("array and list updates", "all of src/pymanopt")])
prop("C12", "A second run of an optimizer does not depend on the first",
     "Running the same optimizer object again gives the result a fresh optimizer object would give for that problem, unless reuse of the line search is requested explicitly. Limits or defaults derived from one problem do not leak into a run on another.",
     ["histories"], "all sequences of runs of one optimizer object on different problems",
     "Tests create a new optimizer for every run.",
     ALLOPT + [OPT + "line_search.py"], [("per-run state", OPT + "*.py: run")])
prop("C13", "Verbosity and logging never influence the outcome",
     "The verbosity and logging levels change only what is printed and logged: points, costs, step sizes, iteration counts and random draws are the same for every level. At verbosity zero nothing is printed.",
     ["configurations"], "all optimizers, all combinations of verbosity and logging levels",
     "Tests run almost always at verbosity 0 and never compare levels.",
     ALLOPT + ["src/pymanopt/tools/printer.py"], [("printing branches", OPT + "*.py: run")])
prop("C14", "Randomness comes only from NumPy's global generator",
     "All random draws of manifolds, optimizers and diagnostics come from NumPy's global generator, are never reseeded, and use no other entropy source, so that seeding it makes every run reproducible.",
     ["programs", "configurations"], "every call path of the package",
     "Tests do not compare seeded runs.",
     ALLMAN + ALLOPT + ["src/pymanopt/tools/diagnostics.py"], [("random draws", "all of src/pymanopt")])
prop("C15", "Problems derive gradients and Hessians from the right ingredients",
     "The Riemannian gradient is the conversion of the Euclidean gradient at the same point unless a Riemannian gradient was given; the Riemannian Hessian is the conversion of the Euclidean gradient and the Euclidean Hessian at the same point and direction unless given. Given derivatives are used as they are, missing ones are obtained by automatic differentiation, and the preconditioner defaults to the identity.",
     ["inputs", "configurations"], "all combinations of supplied derivatives, all points and directions",
     "Only some combinations of supplied and derived derivatives are tested.",
     ["src/pymanopt/core/problem.py"], [("derivative properties", "src/pymanopt/core/problem.py: Problem")])
prop("C16", "Structured points reach the user's functions flattened and return grouped",
     "User functions are called with the components of a point in their order, for every nesting of array, tuple and product points, and their results are grouped back into the structure of the point.",
     ["inputs", "configurations"], "all point layouts, including products of factors with several components",
     "Tests cover products with at most a couple of simple factors.",
     ["src/pymanopt/core/problem.py", "src/pymanopt/autodiff/__init__.py", "src/pymanopt/tools/multi.py", "src/pymanopt/tools/__init__.py", MAN + "product.py", MAN + "manifold.py"], [("wrapping", "src/pymanopt/core/problem.py: Problem._wrap_function"), ("flatten and group", "src/pymanopt/tools/__init__.py")])
prop("C17", "Invalid definitions are rejected",
     "Invalid problem, optimizer and manifold definitions (contradictory derivatives, undecorated functions, unknown rules, malformed initial simplexes or populations, nested products, sizes a manifold's constructor documents as inadmissible or for which its dimension would be negative) raise an error instead of producing results, and valid definitions do not.",
     ["inputs", "configurations"], "all argument values of the constructors and entry points",
     "Tests cover a few invalid values; boundary values of the valid range are not covered.",
     ["src/pymanopt/core/problem.py"] + ALLMAN + ALLOPT, [("validation", "constructors")])
prop("C18", "All automatic differentiation backends compute the same derivatives",
     "Every backend that differentiates returns as NumPy arrays, for each argument of the cost, its Euclidean gradient and the directional derivative of that gradient along all given vectors, in argument order and with the same convention for complex arguments, and a zero of the argument's shape where the cost or its gradient does not depend on the argument, for arguments of any memory layout; the NumPy backend refuses.",
     ["inputs", "programs"], "all backends, arities, dependence patterns of cost functions and memory layouts of arguments",
     "Tests use costs that depend nonlinearly on all their arguments.",
     ["src/pymanopt/autodiff/backends/_autograd.py", "src/pymanopt/autodiff/backends/_jax.py", "src/pymanopt/autodiff/backends/_pytorch.py", "src/pymanopt/autodiff/backends/_tensorflow.py", "src/pymanopt/autodiff/backends/_numpy.py"], [("derivative generators", "src/pymanopt/autodiff/backends/")])
prop("C19", "Metrics are real, symmetric, bilinear inner products",
     "On every manifold the inner product of two tangent vectors is real, symmetric and real-bilinear, is the documented metric, and the norm is its square root.",
     ["inputs", "configurations"], "all points and tangent vectors, all sizes, single and stacked manifolds, real and complex",
     "Tests evaluate one random pair of vectors with the implementation's own formula.",
     ALLMAN, [("inner products and norms", MAN + "*.py: inner_product, norm")])
prop("C20", "Projections are the orthogonal projections onto the tangent spaces",
     "The projection of any ambient vector is a tangent vector, leaves tangent vectors unchanged, is linear, and its defect is orthogonal to the tangent space in the embedding metric; re-tangentialising a vector agrees with it.",
     ["inputs", "configurations"], "all points, ambient vectors, sizes and stack depths",
     "Tests check one random vector per manifold and often only idempotence.",
     ALLMAN, [("projections", MAN + "*.py: projection, to_tangent_space")])
prop("C21", "Euclidean gradients are converted to Riemannian gradients",
     "The converted gradient is a tangent vector whose inner product with every tangent vector equals the Euclidean directional derivative along it.",
     ["inputs", "configurations"], "all points, Euclidean gradients, sizes and stack depths",
     "Tests check the identity for one random gradient, or compare with the same formula.",
     ALLMAN, [("gradient conversion", MAN + "*.py: euclidean_to_riemannian_gradient")])
prop("C22", "Euclidean Hessians are converted to Riemannian Hessians",
     "The converted Hessian is the covariant derivative of the Riemannian gradient along the given tangent vector: it is tangent, linear in the pair of Euclidean Hessian and direction, and contains the curvature term of the manifold. A Weingarten map, where one is provided, is the tangential derivative of the projection applied to the normal vector: tangent, linear and self-adjoint.",
     ["inputs", "configurations"], "all points, gradients, Hessians, directions, sizes and stack depths",
     "Numerical Hessian checks run at one random point and cannot separate formulas that agree to first order.",
     ALLMAN, [("Hessian conversion", MAN + "*.py: euclidean_to_riemannian_hessian")])
prop("C23", "Retractions and exponential maps stay on the manifold and fix the point",
     "Retracting any tangent vector gives a point of the manifold, retracting the zero vector gives the point itself, and the derivative at zero is the identity; the exponential map has the same properties where it is provided. Retractions documented as second-order give curves without tangential acceleration at the point.",
     ["inputs", "configurations"], "all points and tangent vectors, sizes and stack depths",
     "Tests check single random vectors of moderate size.",
     ALLMAN, [("retraction and exponential", MAN + "*.py: retraction, exp")])
prop("C24", "Vector transport lands in the tangent space of the target and is linear",
     "Transporting a tangent vector to another point gives a tangent vector at that point, depends linearly on the vector, and leaves it unchanged when both points coincide. Where parallel transport is selected, it preserves inner products and carries the velocity of the geodesic between the points along.",
     ["inputs", "configurations"], "all pairs of points, all tangent vectors, sizes and stack depths",
     "Tests check one pair of random points, or the norm only.",
     ALLMAN, [("transport", MAN + "*.py: transport")])
prop("C25", "Random points, random tangent vectors and zero vectors are valid",
     "Random points are points of the manifold, random tangent vectors are tangent and of unit norm, zero vectors are additive identities, and all have the shape and number type of points, for every supported size. Random elements of the orthogonal and unitary groups are Haar distributed, as documented.",
     ["inputs", "configurations"], "all manifolds, sizes (including the smallest) and stack depths, all random draws",
     "Tests draw once for one size.",
     ALLMAN, [("random generation", MAN + "*.py: random_point, random_tangent_vector, zero_vector")])
prop("C26", "Distances and logarithms stay defined for coincident and extreme points",
     "Distances, logarithms and exponential maps never leave the domain of the functions they use: rounding just outside the range of an inverse trigonometric or hyperbolic function, coincident points and zero vectors give finite values instead of NaN.",
     ["inputs"], "all pairs of points including identical and antipodal ones, all tangent vectors including zero",
     "Random test points are never identical or extreme.",
     ALLMAN, [("guards", MAN + "*.py: dist, log, exp")])
prop("C27", "Distances are symmetric, vanish at equal points and match the logarithm",
     "The distance between two points is symmetric, zero for equal points, and equals the norm of the logarithm where both are provided.",
     ["inputs", "configurations"], "all pairs of points, sizes and stack depths",
     "Tests compare at one random pair.",
     ALLMAN, [("distance and logarithm", MAN + "*.py: dist, log")])
prop("C28", "Product manifolds act factor by factor",
     "Every operation of a product manifold applies the corresponding operation of each factor to that factor's components in order, with sums for inner products and dimensions and root of sum of squares for distances and norms; its tangent vectors add, subtract, negate and scale component by component, also in augmented assignments and with NumPy scalars on either side.",
     ["inputs", "configurations"], "all lists of factors, including factors with structured points, all points and vectors",
     "Tests use one product whose factors behave alike.",
     [MAN + "product.py"], [("componentwise operations", MAN + "product.py: Product")])
prop("C29", "Reported dimensions and typical distances are those of the manifold",
     "The reported dimension of every manifold is the dimension of its tangent spaces, and the reported number of stacked components scales it accordingly.",
     ["configurations"], "all sizes and stack depths of every manifold",
     "Tests check one or two sizes per manifold, some of them against a wrong formula.",
     ALLMAN, [("dimensions", MAN + "*.py: __init__")])
prop("C30", "Stacked manifolds act slice by slice",
     "On a manifold of several stacked copies every operation gives for each slice what the single manifold gives for that slice, with sums over the copies for inner products and the root of the sum of squares for norms and distances; the copies of a random point are drawn independently, and random tangent vectors draw every copy; the columns of Oblique and the entries of ComplexCircle behave as spheres and circles in the same sense, and the batched matrix functions treat every matrix of a stack as they treat the matrix alone.",
     ["inputs", "configurations"], "all stacked manifolds, stack depths, sizes, points, vectors and draws",
     "Tests compare few operations for one depth.",
     [MAN + f for f in ("stiefel.py", "grassmann.py", "positive_definite.py", "positive.py", "group.py", "hyperbolic.py", "euclidean.py")], [("batched linear algebra", "src/pymanopt/tools/multi.py")])
prop("C31", "Unsupported operations are refused explicitly",
     "An operation a manifold does not provide (e.g. distance and logarithm on Stiefel, the Hessian conversion on SpecialHermitianPositiveDefinite, transport on PoincareBall, mean of two points on most) raises NotImplementedError rather than returning a value or failing otherwise, an operation it provides or inherits returns a value, and a product refuses exactly the operations one of its factors refuses.",
     ["programs", "configurations"], "all manifolds and operations",
     "Tests assert this for some operations of some manifolds only.",
     ALLMAN, [("operation stubs", MAN + "manifold.py: Manifold, RetrAsExpMixin, RiemannianSubmanifold")])
prop("C32", "Diagnostics measure what they claim",
     "The gradient, Hessian and retraction diagnostics compare the cost along the exponential map (the retraction where none is provided) with the Taylor expansion of the stated order at the same point and direction, over steps that reach small values, fit a line to the logarithm of the error on the window they report, and report tangency, symmetry and linearity defects of the derivative that is checked.",
     ["inputs"], "all problems, points and directions",
     "Diagnostics print and plot; tests do not look at the numbers.",
     ["src/pymanopt/tools/diagnostics.py"], [("checks", "src/pymanopt/tools/diagnostics.py")])
prop("C40", "Optimizers converge to critical points",
     "With sufficiently many iterations the optimizers drive the gradient norm below the requested threshold on smooth problems bounded below.",
     ["inputs", "histories"], "all smooth problems and starting points",
     "Tests solve single instances.", ALLOPT, [("iterations", OPT + "*.py: run")])
prop("C41", "Exponential and logarithm are numerically inverse to each other",
     "Within the injectivity radius the logarithm of the exponential map returns the tangent vector and vice versa up to rounding.",
     ["inputs"], "all points and tangent vectors within the injectivity radius",
     "Tests check one random vector.", ALLMAN, [("exp and log", MAN + "*.py")])
prop("C42", "Results are accurate to a modest multiple of rounding error",
     "Operations of well-conditioned inputs lose only a few digits.",
     ["inputs"], "all inputs of moderate condition number",
     "Tests use tolerances on single inputs.", ALLMAN, [("linear algebra kernels", MAN + "*.py")])
prop("C43", "The mean of two points is the midpoint between them",
     "Where a manifold offers the mean of two points, the result is a point of the manifold of the same shape and number type, equals the midpoint given by the documented formula (normalised sum on spheres, average on flat spaces, exponential of half the logarithm elsewhere), and does not depend on the order of the points where that formula is symmetric.",
     ["inputs", "configurations"], "all pairs of points, sizes and stack depths",
     "Tests compare distances at one random pair on a few manifolds.",
     ALLMAN, [("pair_mean", MAN + "*.py: pair_mean"), ("Nelder-Mead uses it", OPT + "nelder_mead.py: _iterate")])
prop("C44", "Operations have no memory of earlier calls",
     "Manifold operations, problem methods and matrix helpers depend on their arguments only: after any sequence of other calls they return what a fresh object would return for the same arguments (and fresh random draws).",
     ["histories"], "all sequences of calls with arbitrary arguments",
     "Tests call an operation once per object, or repeatedly with the same arguments.",
     ALLMAN + ["src/pymanopt/core/problem.py", "src/pymanopt/tools/multi.py"], [("operations", "all of src/pymanopt/manifolds and core")])

prop("C45", "Runs with documented options end with a result, never with an error",
     "For every problem, start and combination of documented options (limits including 0 and infinity, all levels of printing and logging, given or default line searchers, reused line searchers, first and repeated runs) an optimizer returns an OptimizerResult: the optimizer and its line searcher never fail by themselves. Unset names, calls that do not fit, None or a function where a value is needed and values that their format does not admit do not occur on any path, such as printing of rare events or the first iteration. Only an unsuitable initial simplex or population is refused; lists and tuples of suitable length are accepted. Steepest descent, trust regions and the line searchers need no manifold operation that some manifold of the package refuses (conjugate gradient needs a transport besides).",
     ["inputs", "configurations"], "all optimizers, options, problems and run lengths; errors of user functions and manifold operations apart",
     "Tests run optimizers on few problems with little printing; branches for rare events and unusual options are never executed.",
     ALLOPT + ["src/pymanopt/tools/printer.py"], [("run", "src/pymanopt/optimizers"), ("ColumnPrinter", "src/pymanopt/tools/printer.py")])

prop("C46", "Progress output describes the run",
     "With verbosity of at least one a run ends by printing the stopping reason it reports. With verbosity of two or more every iteration prints its number, the cost and the gradient norm of the current point (Nelder-Mead and particle swarm: the best cost and the number of cost evaluations so far), each under its own label or heading; trust-region marks (acc/REJ, TR+/TR-) and the printed ratio are those of the step just made, and the Nelder-Mead step that is named is the one performed.",
     ["histories", "configurations"], "all optimizers, configurations, runs and verbosity levels",
     "Tests run silently or do not read what is printed.",
     ALLOPT + ["src/pymanopt/tools/printer.py"], [("run", "src/pymanopt/optimizers"), ("ColumnPrinter", "src/pymanopt/tools/printer.py")])

prop("C47", "Matrix helpers act on every matrix of a stack as documented",
     "For one matrix or a stack of matrices, real or complex, of every size: multitransp and multihconj transpose (and conjugate) each matrix, multisym, multiherm, multiskew and multiskewh return the symmetric, Hermitian and skew parts, multieye returns k identities, multiexpm and multilogm return exponential and logarithm of each matrix for both settings of their flag, and multiqr returns the QR factorisation with orthonormal columns, upper triangular factor and real nonnegative diagonal, finite for every rank; real arrays give real results, and multiqr refuses arrays that are neither matrices nor stacks.",
     ["inputs"], "all shapes (including stacks of one), real and complex entries, both settings of the flags",
     "Tests compare a few random real stacks; complex and single-matrix inputs and rank-deficient factors are rarely or never exercised.",
     ["src/pymanopt/tools/multi.py"], [("multitransp ... multiqr", "src/pymanopt/tools/multi.py")])

prop("C48", "Reference conversions of the testing helpers come from the projector",
     "For every cost and every tangent-space projector P of a submanifold of Euclidean space, the helpers of pymanopt.tools.testing give the reference operators: riemannian_gradient(f, P)(x) is P(x, grad f(x)); euclidean_to_riemannian_gradient(P)(x, g) is P(x, g); euclidean_to_riemannian_hessian(P)(x, g, h, v) is P(x, h + D_x P(x, g)[v]), the derivative being taken with respect to the point and contracted with the direction over all axes of the point, for points of every number of axes (vectors, matrices, stacks) and on every call.",
     ["inputs"], "all costs, projectors and arguments; repeated calls; points of any number of axes",
     "The helpers are themselves the oracle of the manifold tests, which apply them only to the shapes those tests happen to use.",
     ["src/pymanopt/tools/testing.py"], [("riemannian_gradient, euclidean_to_riemannian_gradient, euclidean_to_riemannian_hessian", "src/pymanopt/tools/testing.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
