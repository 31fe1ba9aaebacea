#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


CONV = "The existing tests only check that thirteen shipped problems converge from one seeded starting point; "
prop("C01", "Array objects are values: copies never influence each other, no memory error",
     "An array object always reads as the value that the operations performed on it produced, no matter how many other objects were copied from it or assigned to it and how those were modified or destroyed. No history of construction, copy, assignment, read, write, reshape and destruction reads freed or uninitialised memory, frees memory twice, or leaks.",
     ["histories", "inputs"], "all histories of value operations on two to three objects with equal and different shapes and number types, up to a depth",
     CONV + "they never look at a copy after the original was changed, and a lost copy-on-write only shows in specific sharing histories.",
     ["Manifolds/SmartSpace.cpp", "Manifolds/Element.cpp", "Manifolds/Element.h"],
     [("copy-on-write with a shared counter", "SmartSpace::CopyTo, NewMemoryOnWrite, CopyOnWrite"), ("operators", "Element::operator=, operator+, AlphaABaddBetaThis, ...")],
     ["ObtainReadData", "Getrow/Getcol/Getnum/Getiscomplex", "AddressSanitizer"],
     [("sharedtimes", "number of objects that share one data block", "SmartSpace")])
prop("C02", "Derived data handed out by an object always belongs to its current value",
     "Every decomposition or quantity that an array object caches, and every piece of data attached to it, is either recomputed, dropped or correct after any change of the object's value or shape, and copies carry it only together with the value it belongs to.",
     ["histories", "inputs"], "all histories mixing writes, copies, decompositions and attached data up to a depth",
     CONV + "a stale cached decomposition needs the order decompose, modify through a particular writer, decompose again.",
     ["Manifolds/Element.cpp"], [("attached fields dropped by writers", "Element::RemoveAllFromFields and every writer"), ("cached decompositions", "EigenDecomSym, QRDecom, SVDDecom, SchurForm, CholDecom, LUDecom")],
     ["Field/FieldsExist", "decompositions' results"], [("Fields", "data attached to an object by name", "Element")])
prop("C03", "Dense array algebra and decompositions equal their mathematical definitions",
     "For every shape, real or complex, and every option, arithmetic, products, rank-one and Householder updates, sub-blocks, norms, solves and decompositions produce the matrix their definition prescribes, and leave their operands unchanged.",
     ["inputs", "configurations"], "all shapes up to a bound, all option strings, real and complex, all sharing states of the operands",
     CONV + "they only use the few shapes and options these problems need.",
     ["Manifolds/Element.cpp", "Others/BlasLapackCppWrapper.cpp"], [("BLAS and LAPACK calls", "Element.cpp")], ["the returned objects"])
prop("C04", "A product object and its components are one consistent value",
     "Reading a product object as a whole and reading its components always gives the same numbers, shapes and number types; writing one component changes exactly that part, copies of products or of components are independent, and attached data follows the part it belongs to.",
     ["histories", "configurations"], "all histories on two product objects (equal, different and nested layouts) and one plain object up to a depth",
     CONV + "only one of them uses a product and it never copies a component out and modifies the product afterwards.",
     ["Manifolds/Element.cpp", "Manifolds/SmartSpace.cpp"], [("components as views into the product's memory", "Element::ResetMultiElementsParams, SmartSpace::SetByParams")], ["GetElement", "ObtainReadData"],
     [("elements", "views of the components", "Element")])
prop("C05", "Sparse matrix products equal dense products and sparse handles never interfere",
     "Multiplying by a sparse matrix from either side, real or complex, equals multiplying by the dense matrix with the same entries (duplicates summed), for every pattern; creating and destroying sparse matrices in any order never changes another one.",
     ["inputs", "histories"], "all patterns of small matrices with repetitions and orders; all create, use and destroy histories of three handles",
     CONV + "they use a few random patterns and never recycle handles.",
     ["Others/SparseMatrix.cpp", "Others/SparseBLAS/nist_spblas.cpp", "Manifolds/Element.cpp"], [("handle table", "nist_spblas.cpp"), ("sparse times dense", "Element operator* with SparseMatrix")], ["products"])
prop("C06", "Fourier and Haar transforms are the defined ones, invertible and norm preserving",
     "For every size the forward and inverse two dimensional Fourier transforms equal their defining sums and invert each other, and the Haar transforms are orthogonal and inverted by their inverses.",
     ["inputs"], "all sizes up to a bound, on a complete basis of the data space",
     CONV + "they run the transforms on two sizes inside a cost function.",
     ["Manifolds/Element.cpp", "Others/wavelet/wavelet.cpp"], [("FFTW plans", "Element::FFT1D/FFT2D"), ("lifting", "wavelet.cpp")], ["transform results"])
prop("C07", "Retractions stay on the manifold and start along the tangent vector",
     "On every manifold, for every retraction and representation of tangent vectors it offers, the retraction of the zero vector is the point itself, the result of any tangent vector is again a point of the manifold, and the curve leaves the point with the given velocity; where they are offered, the inverse retraction undoes the retraction and the distance is the one of the metric; random points are points of the manifold.",
     ["configurations", "inputs"], "all manifolds, parameter sets, small sizes, representations and a family of points and tangent vectors",
     CONV + "a solver still converges with a retraction that is wrong to first order or drifts off the manifold.",
     ["Manifolds/"], [("Retraction, RandominManifold, CheckRetraction", "each manifold class")], ["Retraction", "RandominManifold"])
prop("C08", "Projections are projections and intrinsic coordinates are isometric",
     "On every manifold the projection returns a tangent vector, keeps tangent vectors, and removes exactly the part orthogonal to the tangent space in the metric; converting a tangent vector to intrinsic coordinates and back loses nothing, keeps inner products and reproduces the dimension.",
     ["configurations", "inputs"], "all manifolds, parameter sets and small sizes; a basis of the tangent or ambient space at several points",
     CONV + "they use one representation per problem at one size.",
     ["Manifolds/"], [("Projection, ObtainIntr, ObtainExtr, ObtainNorVerIntr", "each manifold class")], ["Projection", "ObtainIntr/ObtainExtr", "Metric"])
prop("C09", "Vector transports are linear, have the stated inverse and respect the metric",
     "On every manifold the vector transport along a direction maps tangent vectors linearly to tangent vectors of the new point, its inverse undoes it, transports declared isometric keep inner products, every transport is the one its name says in every representation (parallelization keeps the coordinates, projection is the orthogonal projection), and transporting a linear operator gives the operator that acts as transport after operator after inverse transport.",
     ["configurations", "inputs"], "all manifolds, transports, representations and small sizes; basis vectors and all operator formats",
     CONV + "a quasi-Newton method still converges with a transport that is neither isometric nor invertible.",
     ["Manifolds/"], [("VectorTransport, InverseVectorTransport, TranHInvTran, HInvTran, TranH", "Manifold and each manifold class")], ["transport results"])
prop("C10", "The differentiated retraction is its derivative, the cotangent map its adjoint",
     "For every manifold and retraction, the differentiated retraction equals the derivative of the retraction along the given tangent vector, for the same and for other directions, and the cotangent vector it offers is the adjoint of that derivative in the metrics.",
     ["configurations", "inputs"], "all manifolds and retractions that offer them, small sizes, a family of points and directions",
     CONV + "the differentiated retraction only influences step sizes.",
     ["Manifolds/"], [("DiffRetraction, coTangentVector, Beta", "each manifold class")], ["DiffRetraction", "coTangentVector"])
prop("C11", "Riemannian gradients and Hessians derived from Euclidean ones are the right ones",
     "For every smooth function given by Euclidean derivatives, on every manifold and representation, the converted gradient represents the differential of the function in the metric and the converted Hessian is symmetric and equals the second derivative of the function along the manifold up to the part that vanishes at stationary points.",
     ["configurations", "inputs"], "all manifolds and metrics, small sizes, a family of functions whose derivatives span the ambient space",
     CONV + "a wrong Hessian only slows convergence down.",
     ["Manifolds/", "Problems/Problem.cpp"], [("EucGradToGrad, EucHvToHv", "each manifold class")], ["Problem::Grad", "Problem::HessianEta"])
prop("C12", "Shipped problems: function, gradient and Hessian agree with each other",
     "For every shipped problem and data set, the gradient is the derivative of the cost and the Hessian action is the derivative of the gradient, at every point of the manifold and whatever was evaluated before.",
     ["inputs", "histories"], "all shipped problems, several sizes, points and directions, all short orders of evaluation",
     CONV + "they do not compare values and a wrong derivative can still converge.",
     ["Problems/"], [("f, EucGrad, EucHessianEta", "each problem class")], ["f", "Grad", "HessianEta"])
prop("C13", "A product manifold acts componentwise",
     "Every operation of a product manifold gives on each component exactly what the component manifold gives there, inner products are sums over components, and representations and parameters of components are neither mixed up nor changed.",
     ["configurations", "inputs"], "all operations on products of equal and different manifolds, with repetition, in both representations",
     CONV + "the single product test uses equal components.",
     ["Manifolds/MultiManifolds.cpp"], [("ProductManifold/MultiManifolds", "MultiManifolds.cpp")], ["each manifold operation"])
prop("C14", "Numerical derivatives used as fallback approximate the true ones",
     "When a problem supplies no derivative, the gradient and Hessian actions that the library computes numerically agree with the true ones to the accuracy of the differences, on every manifold and representation, for every direction including the zero one.",
     ["configurations", "inputs"], "all manifolds, representations, combinations of supplied derivatives and directions",
     CONV + "only one problem relies on the fallback.",
     ["Problems/Problem.cpp"], [("EucGrad, EucHessianEta, HessianEta numerical branches", "Problem.cpp")], ["Grad", "HessianEta"])
prop("C15", "Writing a result over an argument changes nothing else",
     "Every manifold operation gives the same result when the result object is one of its arguments as when it is a fresh object, does not modify its other arguments, and repeats identically.",
     ["configurations", "inputs", "histories"], "all operations, manifolds, representations and aliasing patterns that the library itself uses",
     CONV + "an operation that overwrites an argument too early only shows with a particular aliasing.",
     ["Manifolds/"], [("result through a pointer", "each manifold class")], ["results and arguments"])
prop("C16", "Accepted steps satisfy the selected line search condition",
     "Whatever values the cost and its derivative take along the search direction, a step that a line search solver reports as successful lies in the allowed interval and satisfies the selected condition (Armijo, Wolfe, strong Wolfe), the search ends after finitely many evaluations, and the reported point, value and step belong together.",
     ["inputs", "configurations", "fault_sequences"], "all answer sequences of the cost and derivative over a small alphabet up to a length, for each search, interpolation and limit setting",
     CONV + "their smooth costs exercise only the first trial steps.",
     ["Solvers/SolversSMLS.cpp"], [("LinesearchArmijo, LinesearchWolfe, LinesearchStrongWolfe, LinesearchExact", "SolversSMLS.cpp")], ["the sequence of evaluations", "GetXopt", "status"])
prop("C17", "Trust region steps stay inside the region and the radius obeys its update rule",
     "Whatever the cost answers, a trust region solver proposes only steps no longer than the radius that do not increase the model, accepts exactly the steps whose gain ratio passes the threshold, shrinks and grows the radius by the configured factors within its limits and keeps the last accepted point otherwise.",
     ["inputs", "configurations", "fault_sequences"], "all answer sequences over an alphabet of gains and curvatures up to a length, for each trust region solver",
     CONV + "with smooth costs nearly every step is accepted.",
     ["Solvers/SolversSMTR.cpp", "Solvers/RTRNewton.cpp", "Solvers/RTRSD.cpp", "Solvers/RTRSR1.cpp", "Solvers/LRTRSR1.cpp"], [("SolversSMTR::Run, tCG_TR", "SolversSMTR.cpp")], ["trial points", "radius", "GetXopt"])
prop("C18", "What a solver reports is what happened",
     "After any run the reported point, value, gradient norm, iteration, evaluation and step counters and recorded series agree with the evaluations that were actually made, limits on iterations and time are respected, and the stopping rule holds at the reported point when it is reported as the reason.",
     ["configurations", "histories"], "all solvers, stopping rules, iteration limits and verbosity levels on several problems",
     CONV + "they only look at the final gradient norm.",
     ["Solvers/Solvers.cpp", "Solvers/SolversSM.cpp"], [("counters and series", "Solvers*.cpp")], ["getters", "the callbacks of the problem"])
prop("C19", "Descent solvers never increase the cost and never leave the manifold",
     "On every manifold and representation, each solver that promises descent yields a sequence of accepted values that never increases, all iterates are points of the manifold, and at a regular minimiser of a smooth problem the gradient norm it promises is reached.",
     ["configurations", "inputs"], "all solvers, manifolds, representations, line searches, initial step rules and starting points of a finite family",
     CONV + "they use one configuration per solver.",
     ["Solvers/", "Manifolds/"], [("Run", "SolversSMLS.cpp, SolversSMTR.cpp")], ["evaluations", "GetXopt"])
prop("C20", "A run depends only on its inputs",
     "Running a solver twice, in a different order with other solvers, with other verbosity, or again on the same solver object after resetting the start gives the same sequence of points as the first run with the same inputs, and never modifies the starting point or the problem.",
     ["histories", "configurations"], "all short histories of constructing, configuring, running and destroying solvers, for every solver",
     CONV + "each solver object is run once.",
     ["Solvers/"], [("solver state", "Solvers*.cpp, LRBFGS.cpp, LRTRSR1.cpp, RBFGS.cpp")], ["GetXopt and the evaluation sequence"])
prop("C21", "Search directions and models are those the methods define",
     "At every iterate, whatever steps were taken before, the direction a line search method offers is the one its definition gives: preconditioned steepest descent, the stated conjugate gradient formula, truncated conjugate gradients on the Newton equation to the stated residual, and minus the inverse Hessian approximation of the quasi-Newton method applied to the gradient; limited memory methods equal the matrix built from exactly the most recent pairs, the models of the trust region quasi-Newton methods are the stated rank one updates, and the first trial step follows the selected rule.",
     ["histories", "configurations", "inputs"], "all sequences of step sizes (accepted and rejected candidates for trust regions) from a finite alphabet up to a length, every method, option, memory limit from zero upwards, with and without preconditioner, on all manifolds",
     CONV + "a method still converges when its direction is a slightly wrong one.",
     ["Solvers/LRBFGS.cpp", "Solvers/LRTRSR1.cpp", "Solvers/RBFGS.cpp", "Solvers/RTRSR1.cpp", "Solvers/RCG.cpp", "Solvers/RNewton.cpp", "Solvers/RSD.cpp", "Solvers/SolversSMLS.cpp"], [("GetSearchDir, UpdateData", "each solver"), ("two loop recursion and pair rotation", "LRBFGS.cpp"), ("compact form", "LRTRSR1.cpp"), ("InitialStepSize", "SolversSMLS.cpp")], ["search directions", "initial step sizes", "HessianEta"])
prop("C22", "Parameters given by name reach exactly the parameter they name",
     "Setting solver, problem or manifold parameters through the name to value map changes exactly the named parameters to the given values, with the same effect as setting them directly; unknown names change nothing, every other parameter keeps its value, and the parameter listing shows the values in effect.",
     ["configurations"], "every parameter name of every solver and manifold with several values, and pairs of names",
     CONV + "they set parameters directly.",
     ["Solvers/", "Manifolds/Manifold.cpp"], [("SetParams", "Solvers, Manifold and subclasses")], ["printed and effective parameters"])
prop("C23", "The minimum norm point of a convex hull is the right one",
     "For every finite set of vectors of any shape the returned point lies in their convex hull and has the smallest norm, in the inner product asked for, among all hull points; the returned value is its squared norm and the vectors are not changed.",
     ["inputs"], "all sets of up to a few vectors from a finite grid, including repeated, dependent and zero vectors",
     CONV + "they do not call it.",
     ["Others/MinPNormConHull.cpp"], [("quartic problem on the sphere", "SphereConvexHull.cpp"), ("trust region Newton", "MinPNormConHull.cpp")], ["the returned value and point"])
prop("C24", "Spline interpolation is exact where it must be",
     "Interpolating splines pass through their data, are twice continuously differentiable, satisfy the requested boundary conditions (periodicity, or end slopes equal to the end difference quotients), and their derivative routines are derivatives of the same spline, everywhere and for any first node.",
     ["inputs", "configurations"], "all node counts up to a bound, uniform and non-uniform nodes, all boundary types, a basis of the data space",
     CONV + "they do not call it.",
     ["Others/Spline.cpp"], [("tridiagonal solves", "Spline.cpp")], ["Spline values"])
prop("C25", "Solvers for locally Lipschitz costs decrease the cost and report stationarity only where it holds",
     "RGS, RBFGSSub and LRBFGSSub never accept an iterate with a larger cost; every accepted step satisfies the decrease (and, if found, curvature) condition of their line search; the reported least norm vector is the element of least norm of the convex hull of gradients taken within the current neighbourhood; the quasi-Newton approximation satisfies the secant equation and stays positive definite; all recorded series and counters agree with the evaluations made; and reported convergence means that the least norm over all gradients active near the returned point is small. A run never loops endlessly and respects its limits.",
     ["configurations", "inputs", "histories"], "all answer sequences of cost and derivative in the line search up to a depth; all solvers, options, costs and starting points of a finite family, every step of every run judged",
     CONV + "no test runs these solvers with more than one setting, and a wrong least norm vector or neighbourhood still decreases the cost.",
     ["Solvers/SolversNSMSub.cpp", "Solvers/SolversNSMSubLS.cpp", "Solvers/RGS.cpp", "Solvers/RBFGSSub.cpp", "Solvers/LRBFGSSub.cpp", "Others/MinPNormConHull.cpp"], [("Run, GetSearchDir, LinesearchWolfe, ZoomLP, UpdateData", "SolversNSMSubLS.cpp")], ["evaluations", "GetXopt", "GetSolverInfo"])
prop("C26", "The random generator is reproducible and its samples lie in the stated range",
     "The same seed gives the same stream of numbers however often and in whatever order streams were restarted, uniform numbers lie in the stated interval, normal numbers are finite and follow the stated distribution, and different positive seeds give different streams.",
     ["inputs", "histories"], "all seeds of a finite range, all short histories of seeding and drawing, all extreme answers of the underlying generator",
     CONV + "they use one seed.",
     ["Others/randgen.cpp", "Manifolds/SmartSpace.cpp"], [("wrapper around the C library generator", "randgen.cpp")], ["genrandreal, genrandnormal"])

prop("C27", "Proximal gradient solvers solve their subproblems and converge",
     "The step of every subproblem of ManPG and AManPG is the tangential part of the proximal step that belongs to the returned multipliers, its value never lies below and, when the semismooth Newton method reports success, only by the tolerance above the optimum certified by weak duality; its Newton system uses the true derivative and converges from close by; a run never returns a larger cost than that of its start, ManPG never accepts an increase, counters and series agree with the evaluations made, and reported convergence means that the proximal step at the returned point is short.",
     ["configurations", "inputs", "histories"], "all domains, points, weights, gradients, scalings and tolerances of a finite family of subproblems; all solvers, options, problems and starts of a finite family of runs, every subproblem recorded and judged",
     CONV + "only one proximal problem with one setting is run.",
     ["Manifolds/Manifold.cpp", "Solvers/SolversNSMPGLS.cpp", "Solvers/ManPG.cpp", "Solvers/AManPG.cpp", "Problems/StieSPCA.cpp", "Problems/FRankESparseApprox.cpp"], [("TangentSpaceProximalMap, myCG, GLdW, EW, ComputeBLambda", "Manifold.cpp")], ["evaluations", "GetXopt"])

SRC = {}  # filled by notes
LEVEL = "Exhaustive within the stated bounds on the real library code compiled from the working tree; trusts the reference oracle in the harness, BLAS/LAPACK/FFTW, and the bounds. "
checks, na = [], []
for p in P:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=CHECKS[i].get("technique", "explicit-state exploration of the implementation against a reference model"),
                           level="model_checking", level_note=LEVEL + CHECKS[i].get("rule", "")))
    else:
        na.append(dict(property=i, reason=CHECKS.get("NA", {}).get(i, "no check built yet") if "NA" in CHECKS else "no check built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check builds the library sources of /repo's working tree with AddressSanitizer into /verif/.build (cached by content) and runs the harness of the property in parallel shards. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties", len(checks), "checks")
