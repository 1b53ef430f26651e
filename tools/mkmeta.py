"""Writes properties.jsonl and MANIFEST.json (run from /verif after editing)."""
import json
import os

TA = "tensap/tensor_algebra/tensors/"
PROPS = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, note=None, na=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext,
                      why=why, files=files, mech=mech, observe=observe, note=note, na=na))


prop("C01", "Tree-based tensor arithmetic agrees with dense arithmetic",
     "For every dimension tree, set of active nodes, ranks and (scalar or vector) root rank, the tensor a "
     "tree-based tensor represents, and the one returned by conversion to and from full tensors, sums, "
     "differences, scalings, Hadamard, Kronecker and concatenation products, dot products, norms and the "
     "factories (rand, zeros, ones, eye, tensor-train ...), is the one dense arithmetic gives up to rounding.",
     ["inputs", "configurations"],
     "All trees (linear, balanced, trivial, random shapes and numberings), active sets, shapes including unit "
     "modes, ranks, root ranks, and all real core values.",
     "The tutorials run one tree and one shape per operation and assert nothing about the values.",
     [TA + "tree_based_tensor.py", TA + "full_tensor.py"],
     [("TreeBasedTensor.full, __add__, __mul__, times, kron, cat, dot, norm", TA + "tree_based_tensor.py"),
      ("FullTensor.tree_based_tensor", TA + "full_tensor.py")],
     ["TreeBasedTensor public methods", "TreeBasedTensor.tensors / .tree / .ranks / .shape"])

prop("C02", "Contractions and evaluations of tree-based tensors agree with the dense tensor",
     "Products with matrices, diagonal matrices and vectors along any subset of dimensions given in any order, "
     "sums over dimensions, squeezing, sub-tensor extraction, evaluation at multi-indices, diagonals and "
     "row-wise evaluations of products return, for every tree-based tensor, the values obtained from the dense "
     "tensor, in a consistent representation.",
     ["inputs", "configurations"],
     "All trees, active sets, shapes with unit modes, ranks and root ranks; dimension subsets in any order; "
     "repeated and unordered indices; rectangular matrices.",
     "The tests exercise one tensor and one or two subsets of dimensions without comparing values.",
     [TA + "tree_based_tensor.py"],
     [("tensor_matrix_product, tensor_vector_product, squeeze, sub_tensor", TA + "tree_based_tensor.py"),
      ("eval_at_indices, eval_diag, tensor_matrix_product_eval_diag", TA + "tree_based_tensor.py")],
     ["returned tensors and arrays"])

prop("C03", "Changing the representation of a tree-based tensor preserves its value",
     "Orthogonalisation (globally or at a node), changes of root, permutations of nodes and of leaves, "
     "(in)activation of nodes, removal of unique children and tree optimisation terminate and return a "
     "consistent tensor with the announced dimension tree which represents the same dense tensor (up to the "
     "requested tolerance, and to the permutation of dimensions when one is requested), in any sequence. A permutation of nodes "
     "or leaves made with a tolerance commits a relative error within this tolerance.",
     ["inputs", "histories", "configurations"],
     "All trees, active sets, ranks (admissible or not), root ranks, and sequences of transformations.",
     "The tests call some of these once on a fixed tensor; sequences and unusual ranks are never reached.",
     [TA + "tree_based_tensor.py", TA + "dimension_tree.py"],
     [("orth, orth_at_node, change_root, permute_nodes, permute_leaves, optimize_dimension_tree, "
       "activate/inactivate_nodes, remove_unique_children", TA + "tree_based_tensor.py")],
     ["returned tensors: tree, ranks, active nodes, cores"])

prop("C04", "Truncations respect the tolerance and the maximal ranks, quasi-optimally",
     "Every truncation (SVD of matrices, HOSVD, tree-based HSVD of full and tree-based tensors, tensor-train and "
     "Tucker formats, soft and hard thresholding) returns a tensor within the prescribed relative error when "
     "the maximal ranks allow it, never exceeds a maximal rank, stays within the quasi-optimality bound given "
     "by the discarded singular values, and does not keep more rank than the tolerance calls for.",
     ["inputs", "configurations", "histories"],
     "All tensors (low rank, decaying, random, constant), trees, active sets, tolerances, scalar and per-node "
     "maximal ranks, both tree algorithms, repeated use of a truncator.",
     "The tutorial prints errors for one tensor; the error bounds are quantified over all tensors and tolerances.",
     ["tensap/tensor_algebra/tools/truncator.py", TA + "tree_based_tensor.py"],
     [("Truncator.svd, hosvd, hsvd, ttsvd, trunc_svd", "tensap/tensor_algebra/tools/truncator.py")],
     ["Truncator results", "dense SVDs of matricisations"])

prop("C05", "Orthonormal bases, Gram matrices, singular values and ranks are true",
     "After orthogonalisation the subspace bases are orthonormal at the announced nodes; the Gram matrices, the "
     "node-wise singular values, the computed ranks, the admissibility test for ranks and the principal "
     "components of a tensor agree with those of the matricisations of the dense tensor.",
     ["inputs", "configurations"],
     "All trees, active sets, ranks (redundant or not), nodes, root ranks; full tensors of order 1 to 5.",
     "The values are never compared with matricisations in the tests.",
     [TA + "tree_based_tensor.py", TA + "full_tensor.py"],
     [("orth, orth_at_node, gramians, singular_values, rank, is_admissible_rank", TA + "tree_based_tensor.py"),
      ("orth, singular_values, principal_components", TA + "full_tensor.py")],
     ["returned cores, lists of arrays, booleans"])

prop("C06", "Operations leave their operands and arguments unchanged",
     "Apart from the methods documented to modify the object, no operation on tensors, dimension trees, "
     "multi-indices, bases, measures, grids, tensorised functions or learning models changes the value of its operands or of the "
     "arrays, lists and objects given as arguments, and calling it again gives the same result.",
     ["inputs", "histories"],
     "All operations, argument kinds (lists, arrays, shared operands, operand used on both sides) and repeated calls.",
     "Tests use each object once, so corruption of an operand goes unnoticed.",
     [TA + "tree_based_tensor.py", TA + "full_tensor.py", TA + "dimension_tree.py", "tensap/tools/multi_indices.py"],
     [("copies taken before in-place updates", "throughout")],
     ["public attributes of operands before and after each call"])

prop("C07", "Full tensor operations agree with numpy",
     "Arithmetic, reshaping, transposition, matricisation, contraction with vectors, matrices, tensors and "
     "diagonals, sums, means, concatenation, Kronecker products, evaluation at indices and diagonals of a full "
     "tensor give, for every shape and every list of dimensions in any order, what the same dense numpy "
     "computation gives.",
     ["inputs", "configurations"],
     "Shapes of order 1-5 with unit modes, integer and real data, dimension subsets given as integers, lists or arrays.",
     "Few shapes and no comparison with an independent computation.",
     [TA + "full_tensor.py"],
     [("FullTensor methods", TA + "full_tensor.py")],
     ["returned FullTensor.data and arrays"])

prop("C08", "Canonical, diagonal and sparse tensors agree with their dense counterparts",
     "For canonical, diagonal and sparse tensors, conversion between formats, arithmetic, dot products and norms, "
     "contractions with vectors and matrices, evaluation at indices, diagonals, sub-tensors and storage counts "
     "agree with the same computation on the dense tensor.",
     ["inputs", "configurations"],
     "All orders, shapes, ranks (including 0 and 1 terms or non-zero entries), dimension subsets in any order.",
     "No test touches most of these methods.",
     [TA + "canonical_tensor.py", TA + "diagonal_tensor.py", TA + "sparse_tensor.py"],
     [("CanonicalTensor", TA + "canonical_tensor.py"), ("DiagonalTensor", TA + "diagonal_tensor.py"),
      ("SparseTensor", TA + "sparse_tensor.py")],
     ["returned tensors converted to dense arrays"])

prop("C09", "Dimension trees answer structural queries truthfully",
     "For every dimension tree, however its nodes are numbered, the parent, children, ascendants, descendants, "
     "levels, leaves, root, dimensions of a node, node of a set of dimensions, sub-trees, paths and arity are "
     "those of the tree described by its adjacency matrix; the factories give trees of the announced kind over all "
     "dimensions; and two trees compare equal exactly when they are the same tree.",
     ["inputs", "configurations"],
     "All trees over up to 9 dimensions with level-wise or arbitrary node numbers, unary nodes, and modified trees.",
     "The tests use a handful of trees.",
     [TA + "dimension_tree.py"],
     [("DimensionTree", TA + "dimension_tree.py")],
     ["DimensionTree public methods and attributes"])

prop("C10", "Multi-index sets and index encodings are exact",
     "The multi-index factories (bounded norms, products, hyperbolic crosses, weighted sets, permutations) "
     "enumerate exactly the defining set once each; the set operations, sorting, linear indexing, downward-closedness, "
     "margins, reduced margins and envelopes are those of finite sets of multi-indices; and integer/base-b "
     "digit encodings are inverse to each other.",
     ["inputs"],
     "Sets of multi-indices in dimension 1-5 including empty, single, non downward-closed and unsorted ones; all bases and sizes.",
     "The unit tests use one or two sets.",
     ["tensap/tools/multi_indices.py", "tensap/tools/utils.py"],
     [("MultiIndices", "tensap/tools/multi_indices.py"), ("integer2baseb, baseb2integer, fast_intersect",
                                                         "tensap/tools/utils.py")],
     ["MultiIndices.array, returned arrays"])

prop("C11", "Grids and integration rules contain the stated points and integrate exactly",
     "Full and sparse tensor grids contain exactly the combinations of one-dimensional points in a fixed order that "
     "all evaluation and sub-grid methods share; integration rules (Gauss rules of every measure, tensorised rules) "
     "have weights and points which integrate polynomials up to the stated degree exactly.",
     ["inputs", "configurations"],
     "One-dimensional grids of any size and order, dimension 1-4, all measures, all numbers of points up to 20.",
     "The tests evaluate one function on one grid.",
     ["tensap/tools/grids.py", "tensap/approximation/integration/integration_rules.py", "tensap/tools/chebyshev_points.py"],
     [("FullTensorGrid, SparseTensorGrid", "tensap/tools/grids.py"),
      ("IntegrationRule, FullTensorProductIntegrationRule", "tensap/approximation/integration/integration_rules.py")],
     ["grid arrays, integrals"])

prop("C12", "Random variables and vectors describe one probability law",
     "For every random variable the density is the derivative of the cumulative distribution function, the quantile function "
     "inverts it, mean, variance and moments are the integrals against the law, samples follow the law and lie in the "
     "support, and transfers to another law map quantiles to quantiles; random vectors are products of (or copulas over) their marginals, "
     "and marginalisation, permutation and truncation of moments are consistent. A dependence structure between the components is kept "
     "or refused by every operation and never silently dropped, and membership in a box is decided component by component.",
     ["inputs", "configurations"],
     "Uniform, normal, discrete and empirical laws with all parameters; random vectors of 1-4 mixed marginals.",
     "Tests plot some curves only.",
     ["tensap/functions/measures/random_variable.py", "tensap/functions/measures/random_vector.py",
      "tensap/functions/measures/uniform_random_variable.py", "tensap/functions/measures/normal_random_variable.py",
      "tensap/functions/measures/discrete_random_variable.py", "tensap/functions/measures/empirical_random_variable.py"],
     [("RandomVariable and sub-classes", "tensap/functions/measures/")],
     ["pdf, cdf, icdf, moments, samples, support"])

prop("C13", "Orthonormal polynomials are orthonormal, with true values and derivatives",
     "For every measure (uniform, normal, Lebesgue, discrete, empirical) the family of polynomials attached to it is orthonormal "
     "for that measure, each polynomial has its stated degree, and evaluations, derivatives of any order, coefficients, "
     "roots, means, and moments agree with each other; Gauss points and weights integrate polynomials of degree 2n-1 exactly.",
     ["inputs", "configurations"],
     "Parameters of the measures, degrees 0-15, derivative orders 0-4, evaluation points in and out of the support.",
     "Tests evaluate a few polynomials and plot them.",
     ["tensap/functions/polynomials/orthonormal_polynomials.py", "tensap/functions/polynomials/polynomials.py"],
     [("three-term recurrence", "tensap/functions/polynomials/orthonormal_polynomials.py")],
     ["polyval, dn_polyval, poly_coeff, roots, moment, gauss_integration_rule"])

prop("C14", "One-dimensional bases evaluate, differentiate and project consistently",
     "For every one-dimensional functional basis (polynomial, piecewise polynomial, B-spline, user-defined, delta, sub-basis) "
     "the derivative evaluations, means, Gram matrices, orthonormality claims, domains and cardinals agree with the "
     "basis functions' own values; projections are the orthogonal projections, and interpolation reproduces the data. A basis, "
     "including a derivative or a sub-basis, claims to be orthonormal only if it is.",
     ["inputs", "configurations"],
     "All bases, degrees, knots, numbers of points, measures; derivative orders; interpolation points.",
     "Tests use one basis per kind.",
     ["tensap/approximation/bases/functional_basis.py", "tensap/approximation/bases/polynomial_functional_basis.py",
      "tensap/approximation/bases/piecewise_polynomial_functional_basis.py",
      "tensap/approximation/bases/BSplines_functional_basis.py", "tensap/approximation/bases/sub_functional_basis.py",
      "tensap/approximation/bases/user_defined_functional_basis.py", "tensap/approximation/bases/delta_functional_basis.py"],
     [("FunctionalBasis and sub-classes", "tensap/approximation/bases/")],
     ["eval, eval_derivative, mean, gram_matrix, interpolate, projection"])

prop("C15", "Tensor-product bases and functional arrays agree with their 1-D factors",
     "The functions of full and sparse tensor-product bases are the products of their one-dimensional factors in the stated order; "
     "evaluations, derivatives, means, variances, Gram matrices, conditional expectations, projections, "
     "interpolations and linear combinations of basis functions (scalar or vector valued) agree with direct computation, also for a measure "
     "given at the call; projections with any positive rule are the best approximations for it, and two bases compare equal only when they have the same functions.",
     ["inputs", "configurations"],
     "Dimensions 1-4, mixed bases, full and sparse index sets, scalar and vector-valued coefficients.",
     "Tests use one basis and scalar functions.",
     ["tensap/approximation/bases/functional_bases.py", "tensap/approximation/bases/full_tensor_product_functional_basis.py",
      "tensap/approximation/bases/sparse_tensor_product_functional_basis.py",
      "tensap/approximation/bases/functional_basis_array.py"],
     [("FunctionalBases, *TensorProductFunctionalBasis, FunctionalBasisArray", "tensap/approximation/bases/")],
     ["eval, eval_derivative, mean, variance, projection"])

prop("C16", "Functional tensors agree with their coefficients and basis functions",
     "The values, partial evaluations, grid evaluations, derivatives, gradients, means, variances, conditional expectations "
     "and algebra of a functional tensor, for any tensor format of its coefficients, agree with the "
     "expansion of the dense coefficients on the products of basis functions.",
     ["inputs", "configurations"],
     "Coefficients in full, canonical, tree-based, diagonal and sparse format, mixed bases, subsets of dimensions.",
     "Tests evaluate learned functions at a few points.",
     ["tensap/functions/functional_tensor.py"],
     [("FunctionalTensor", "tensap/functions/functional_tensor.py")],
     ["eval, eval_derivative, expectation, conditional_expectation, ..."])

prop("C17", "Tensorisation of functions is a bijective change of variables",
     "The map from a variable to its base-b digits and remaining variable is inverted by the converse map for every point of the "
     "support, tensorised functions and the functions rebuilt from them take the same values, and the tensorised bases "
     "represent functions with the values and the orthonormality stated.",
     ["inputs", "configurations"],
     "Bases 2-5, levels 0-8, dimensions 1-3, both orderings of the variables, points including cell boundaries.",
     "Tests use one function and one resolution.",
     ["tensap/functions/tensorizer.py", "tensap/functions/tensorized_function.py"],
     [("Tensorizer.map, inverse_map, tensorize", "tensap/functions/tensorizer.py")],
     ["map, inverse_map, tensorized function values"])

prop("C18", "Gradients with respect to tensor parameters are exact",
     "The derivatives of a tensor's or functional tensor's evaluations with respect to each parameter (core or pair of merged cores), of any node, contracted "
     "with that parameter give back the evaluations, and equal what replacing that parameter in the "
     "dense tensor gives.",
     ["inputs", "configurations"],
     "All trees, active sets, ranks, nodes, scalar and vector-valued tensors; canonical and tree-based formats.",
     "Only used inside the learning algorithms; never checked on its own.",
     [TA + "tree_based_tensor.py", TA + "canonical_tensor.py", "tensap/functions/functional_tensor.py"],
     [("parameter_gradient_eval_diag, parameter_gradient_eval_diag_dmrg", TA + "tree_based_tensor.py"),
      ("parameter_gradient_eval", "tensap/functions/functional_tensor.py")],
     ["gradient arrays"])

prop("C19", "Linear least squares returns the minimiser and true error estimates",
     "Least-squares learning on a linear model returns the minimiser of the (weighted, regularised) empirical risk, the "
     "cross-validation error estimates are those obtained by really leaving data out, basis adaptation "
     "returns the candidate with the lowest estimate, and L2 density estimation minimises its risk.",
     ["inputs", "configurations"],
     "Well- and ill-conditioned designs, weights, vector-valued outputs, regularisations, fold counts, basis-adaptation paths.",
     "Tests check that errors are printed.",
     ["tensap/approximation/learning/linear_model_learning_square_loss.py",
      "tensap/approximation/learning/linear_model_learning_density_l2.py"],
     [("LinearModelLearningSquareLoss.solve", "tensap/approximation/learning/linear_model_learning_square_loss.py"),
      ("LinearModelLearningDensityL2.solve", "tensap/approximation/learning/linear_model_learning_density_l2.py")],
     ["returned solution and output dictionary"])

prop("C20", "Tensor learning decreases its risk and reports the errors of what it returns",
     "Learning in canonical or tree-based format (fixed ranks, rank and tree adaptation, DMRG, greedy; square loss or L2 density; scalar or "
     "vector-valued) never increases the training risk along alternating minimisation at fixed ranks, updates every parameter once per iteration in any exploration order, leaves the last updated parameter optimal, recovers a "
     "function of the model class from enough noise-free data and keeps it when it is the initial guess, respects the requested and maximal ranks, "
     "the tree, the number of iterations and the stopping rules, returns a consistent functional tensor which is the last or the selected "
     "iterate, and the test errors, leave-one-out errors and stagnations it reports are those of the iterates. Iterates are not changed by later "
     "ones, the solver's data and options are left unchanged, and a solver used again answers as a new one.",
     ["inputs", "configurations"],
     "Random trees, active sets, ranks, dimensions 2-4, scalar and vector-valued outputs, rank and tree adaptation on or off, initial guesses.",
     "Tutorials run a few fixed examples without assertions.",
     ["tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py",
      "tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py",
      "tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py"],
     [("TensorLearning.solve", "tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py")],
     ["returned functions and output dictionaries"])

prop("C21", "Principal component analysis interpolates sampled components",
     "Principal component analyses of tensors and functions given by point evaluations (HOPCA, Tucker, tree-based, "
     "tensor-train formats) keep, at each active node, orthonormal optimal components of the sampled fibers, for the prescribed precision "
     "(split evenly over the active nodes when a single one is given) or rank, in one scalar, a list of one or one value per node; the result interpolates the function "
     "at the reported grid of the root, is exact when the sampled fibers span the subspaces, has the requested tree and active nodes, "
     "evaluates only admissible indices or points, in the number the sampling factor prescribes, and reports the evaluated indices and their number exactly.",
     ["inputs", "configurations"],
     "Low-rank and full-rank tensors, all trees, tolerances, sampling factors, bases for functional variants.",
     "Tutorials run a few fixed examples.",
     ["tensap/approximation/tensor_approximation/principal_component_analysis/tensor_principal_component_analysis.py",
      "tensap/approximation/tensor_approximation/principal_component_analysis/functional_tensor_principal_component_analysis.py"],
     [("TensorPrincipalComponentAnalysis", "tensor_principal_component_analysis.py"),
      ("FunctionalTensorPrincipalComponentAnalysis", "functional_tensor_principal_component_analysis.py")],
     ["returned tensors, recorded evaluation points"])

prop("C22", "Magic points make interpolation well posed and greedy",
     "Magic indices and magic points are distinct, start with the maximal value, make the interpolation matrix "
     "invertible, follow the greedy rule, and interpolation at magic points reproduces the space.",
     ["inputs", "configurations"],
     "Matrices of any size and rank, both variants (matrix or bases), tensor-product and sparse bases.",
     "The tutorial uses one basis.",
     ["tensap/linear_algebra/magic_indices.py", "tensap/approximation/bases/functional_basis.py",
      "tensap/approximation/tools/interpolation_points_feature_map.py"],
     [("magic_indices", "tensap/linear_algebra/magic_indices.py"), ("magic_points", "tensap/approximation/bases/")],
     ["returned indices and points"])

prop("C23", "Loss functions, error estimates and model selection compute what they name",
     "Risks, relative and absolute test errors of the loss functions are those of their formulas for every function and data shape; model selection returns the lower "
     "convex envelope of (complexity, risk) pairs, the models that minimise penalised risk along the path, and complexities that count what they name.",
     ["inputs", "configurations"],
     "Scalar and vector-valued functions, data layouts, sets of models of any size and order including ties.",
     "Only exercised inside tutorials.",
     ["tensap/approximation/learning/loss_functions.py", "tensap/approximation/tools/model_selection.py"],
     [("SquareLossFunction, DensityL2LossFunction", "tensap/approximation/learning/loss_functions.py"),
      ("ModelSelection", "tensap/approximation/tools/model_selection.py")],
     ["returned numbers and paths"])

prop("C24", "Functions evaluate, differentiate, sample and compose as defined",
     "User-defined, compositional, tensorised and benchmark functions return for arrays of points the values of their definition "
     "with one row per point, evaluation on tensor grids matches pointwise evaluation, partial evaluation fixes the given variables, "
     "stored evaluations are reused without changing results, and numerical errors and norms are those of the samples used.",
     ["inputs", "configurations", "histories"],
     "Dimensions 1-5, scalar and vector outputs, full and sparse grids, storing on and off, repeated calls.",
     "Only exercised inside tutorials.",
     ["tensap/functions/function.py", "tensap/functions/user_defined_function.py",
      "tensap/functions/compositional_model_function.py", "tensap/functions/multivariate_functions_benchmark.py"],
     [("Function", "tensap/functions/function.py")],
     ["values returned for recorded points"])

DONE = [x for x in sorted(p["pid"] for p in PROPS)
        if os.path.exists("vt/props/%s.py" % x.lower())]
NOTE = ("Held on every execution observed: seeded random workloads drive the real code and an independent "
        "dense/closed-form reference judges every result. Not a proof; trusts numpy/scipy and the "
        "reference models in /verif/vt; bounded sizes (see the evidence file).")

if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks = [{
        "property": p["pid"], "quick_cmd": "./check %s --tier quick" % p["pid"],
        "thorough_cmd": "./check %s --tier thorough" % p["pid"],
        "technique": "runtime monitoring: independent reference-model oracles and invariant "
                     "monitors over seeded hostile workloads",
        "level": "exploration", "level_note": p["note"] or NOTE}
        for p in PROPS if p["pid"] in DONE]
    na = [{"property": p["pid"], "reason": p["na"] or "check not built yet"}
          for p in PROPS if p["pid"] not in DONE]
    with open("MANIFEST.json", "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
                   "not_applicable": na,
                   "notes": "No hooks are needed in /repo: everything is observed at the public API. "
                            "known_findings.json lists the recorded and repaired defects."},
                  f, indent=1)
        f.write("\n")
