CHECKS = {
    "C01": dict(harness="elem", shards=32,
                rule="breadth-first search over operation histories on 2-3 objects of colliding shapes and types; a state is (shape, type, data, sharing partition, attached data) of the real objects, and every transition is judged against a deep-copying reference",
                assumptions=["data alphabet: a few small exactly representable values", "vectors of at most 16 numbers"]),
    "C02": dict(harness="elem", shards=32,
                rule="as C01, with the decompositions and attached data in the alphabet; after every step every derived quantity the object would hand out is recomputed from the reference value",
                assumptions=["ill-conditioned reference values are not judged for linear solves"]),
    "C03": dict(harness="algebra", shards=32,
                rule="every shape up to the bound, real and complex, every option string, every sharing state of the operands; oracle: naive reference arithmetic; operands and bystanders must be unchanged",
                assumptions=["data alphabet: fixed families of generic well spread values", "HHRMtp with a plain transpose of complex factors is outside the domain (LAPACK has none)"]),
    "C05": dict(harness="algebra", shards=16,
                rule="every sparsity pattern up to 9 (thorough 12) positions, with duplicates and orders, both multiplication sides; every create/use/destroy history of three handles up to the depth",
                assumptions=[]),
    "C06": dict(harness="algebra", shards=16,
                rule="every shape up to 8x8 (thorough 12x12), every vector of the complete real basis of the complex space plus generic combinations; oracle: the defining sums",
                assumptions=["the library's transforms are linear between the basis and the generic combinations tried"]),
    "C04": dict(harness="product", shards=32,
                rule="breadth-first search over operation histories on two product objects (equal, different, nested layouts) and one plain object; reference stores every leaf separately",
                assumptions=["component writes follow the documented rule that the product first becomes sole owner of its memory"]),
    "C07": dict(harness="manifold", shards=32,
                rule="every manifold, parameter set, representation and locking option of the zoo, up to 350 (thorough 522) configurations; at every point of the family a complete basis of tangent directions at several scales and generic combinations; oracle: membership and velocity from the definition on plain numbers, the velocity as a difference quotient",
                assumptions=["retractions of fixed rank manifolds are judged for steps that stay away from rank loss", "quotient distances are not judged"]),
    "C08": dict(harness="manifold", shards=32,
                rule="every configuration; projections on the complete basis of the ambient space, conversions and inner products on complete bases; oracle: tangent space, orthogonality and metric by definition",
                assumptions=["linearity between basis vectors is checked on generic combinations"]),
    "C09": dict(harness="manifold", shards=32,
                rule="every configuration, every direction of a complete basis and generic ones; transports on complete bases, operators on all matrix units (quick: at most 40 of them) and a generic one",
                assumptions=["transports the library declares unimplemented are not judged", "zero directions are excluded under the locking condition"]),
    "C10": dict(harness="manifold", shards=32,
                rule="every configuration, directions over a complete basis and generic ones, differentials and cotangent vectors on complete bases; oracle: difference quotient of the retraction, adjointness in the metrics",
                assumptions=["derivatives the library declares unimplemented are not judged", "for symmetric fixed rank manifolds in intrinsic coordinates the differential is documented to be that of x + eta"]),
    "C11": dict(harness="manifold", shards=32,
                rule="every configuration, points incl. stationary ones, functions spanning linear, quadratic and cubic parts, gradient and Hessian on complete bases; oracle: differential, and second derivative along curves corrected by the acceleration",
                assumptions=["Euclidean derivatives handed to SPD manifolds are symmetric", "on a sphere in a tangent space they are gradients in its inner product"]),
    "C13": dict(harness="manifold", shards=32,
                rule="products of two to four factors with repetition in both representations, every operation against the factors' own operation on complete bases",
                assumptions=["one sided operator transports are not implemented for products"]),
    "C14": dict(harness="manifold", shards=32,
                rule="every configuration, everything numerical / only the Hessian numerical / switched on, complete bases of directions at two scales and zero; tolerance from the step sizes the library uses",
                assumptions=["accuracy is limited by forward differences with step 1e-8 inside differences with step 1e-5"]),
    "C15": dict(harness="manifold", shards=32,
                rule="every configuration, all sequences of 2 (3 on small ones, thorough 3) operations out of about 20, with copies in between, against the results on fresh objects; all aliasing patterns the interface documents",
                assumptions=["vectors of fixed rank matrices carry their factors as attached data, which is part of their value"]),
    "C16": dict(harness="search", shards=32,
                rule="every answer sequence of the cost (7 values per trial) and its slope (7 values) for the first trials, then five deterministic continuations, for every line search, tolerance, interval, shrink ratio and initial step of the lists",
                assumptions=["the accurate mode (Accuracy) is out of reach of the alphabet", "finite answers"]),
    "C17": dict(harness="search", shards=32,
                rule="every answer sequence up to 2 to 4 (thorough 5) candidates: 14 classes of gains around every threshold, not finite values, 9 gradients, 6 Hessians; for each trust region solver, radius limits, factors, tolerances, preconditioner; a reference state machine predicts point, radius and acceptance; the model decrease is compared with the Cauchy step",
                assumptions=["gains within 1e-7 of a threshold are not judged"]),
    "C18": dict(harness="runs", shards=32,
                rule="22 variants of the smooth solvers x manifolds x the product of line search, initial step rule, stopping criterion, iteration limits, verbosity, output gap and start (also exactly stationary); every evaluation made not a number, infinite, huge or slow in turn; every StopPtr answer; what the solver reports is compared with an account kept from the recorded evaluations alone, under a clock owned by the harness",
                assumptions=["several evaluated points may share a value", "continuing by force from an exactly stationary point is not judged"]),
    "C19": dict(harness="runs", shards=32,
                rule="every configuration of the zoo x 22 solver variants x line searches x targets x starts: objective series monotone, every trial point on the manifold, convergence to a stationary point of a smooth function with a minimiser on the manifold",
                assumptions=["the start lies where the function is convex around the minimiser", "the retraction of intrinsic symmetric fixed rank matrices exists on part of the tangent space only: a step that leaves it ends the run"]),
    "C20": dict(harness="runs", shards=160,
                rule="every solver variant on 6 (thorough 8) manifolds x line search, initial step rule, nonmonotone window: a run repeated, at every verbosity and gap, with another solver (8, thorough 22 kinds) made or run before, between or after on the same problem and start, and run again after 1, 3 or 30 iterations with changed memory: every evaluated point, value, gradient point, counter and series must agree bit for bit with the undisturbed run (from the point reached)",
                assumptions=["full matrix quasi-Newton methods start a second run from the matrix they have"]),
    "C21": dict(harness="dirs", shards=96,
                rule="every line search method and option x manifolds, every sequence of step answers up to the depth; directions, slopes, first trial steps against dense references in coordinates of the tangent space; Hessians of the SR1 models as matrices over every accept/reject sequence; finite termination with exact steps on quadratics",
                assumptions=["answers close to a threshold of an update rule end the run", "restart policies of nonlinear conjugate gradients are accepted where consecutive gradients are far from orthogonal"]),
    "C12": dict(harness="probs", shards=32,
                rule="every shipped problem on its manifold, parameter set and representation, several sizes and data sets, every point of the family; value, Euclidean and Riemannian gradient and Hessian on complete bases against the cost written down a second time on plain numbers and differentiated by sixth order differences; every order of evaluating, copying, assigning and overwriting two points up to depth 4 (thorough 6); proximal maps and their derivatives at, below and above every threshold; extreme eigenvalues of Hessians against a dense eigenvalue solver",
                assumptions=["blind deconvolution documents that its Hessian leaves out the penalty: judged where the penalty is inactive", "several measurements with one kernel only (r = 1)", "nonsmooth costs: the gradient is that of the smooth part, or of the cost away from kinks"]),
    "C22": dict(harness="misc", shards=32,
                rule="every parameter name of every solver and manifold with every value of its list, every ordered pair (thorough: triple) of names in one map or in successive calls, all foreign, misspelt and unknown names: the object is compared byte by byte with one whose members were assigned directly; the parameter listing; runs with parameters set by name and directly",
                assumptions=["real values from a list of six, integers from a list of four, every value of an enumeration"]),
    "C23": dict(harness="misc", shards=64,
                rule="every set of up to 4 vectors from grids in 1 to 4 dimensions with repetitions, as columns, matrices and products, two inner products, several starting points; oracle: the least norm point over all faces",
                assumptions=["the starting point is random: a fixed list of seeds"]),
    "C24": dict(harness="misc", shards=32,
                rule="every spacing pattern and every data vector over small alphabets up to 6 (thorough 7) nodes, the basis of the data up to 16 (thorough 40) nodes, all four constructions: interpolation, smoothness, boundary conditions, derivatives at and between nodes and beyond the ends",
                assumptions=[]),
    "C26": dict(harness="misc", shards=8,
                rule="every history of seeding and drawing up to depth 4 (thorough 5) from 46 (306) seeds; every triple of extreme answers of the underlying generator; the distribution over a complete lattice of its answers",
                assumptions=["the C library's generator is trusted; it treats the seeds 0 and 1 alike"]),
    "C27": dict(harness="prox", shards=32,
        rule="subproblem: every domain, point, weight form, gradient, weight of the l1 term, scaling and tolerance of a finite family; runs: every solver, option, problem and start of a finite family with every subproblem recorded by a manifold derived from the real one; each step judged by a certificate of optimality (weak duality), runs by an account of all evaluations",
        assumptions=["the nonsmooth term is lambda times the l1 norm; extrinsic representation, as the routine requires", "AManPG only on domains with an inverse retraction", "tolerance derived from the tolerance given for the residual"]),
    "C25": dict(harness="nsm", shards=32,
                rule="line search: every answer sequence of cost and derivative over an alphabet up to a depth and five kinds of continuation; runs: every solver, option, function and start of a finite family, every step judged (least norm vector, gradients within the neighbourhood, sufficient decrease, curvature, secant equation, definiteness), reported convergence judged by the least norm over all pieces that are active nearby",
                assumptions=["costs that are maxima of affine functions, with or without a quadratic"]),
}
