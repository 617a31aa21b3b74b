#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Hypervolume equals the volume of the dominated region",
 "For every finite set of points and every reference point (minimization), the reported hypervolume is the Lebesgue measure of the region that is weakly dominated by some point and bounded by the reference point. It holds in any number of objectives and for any order, ties, duplicates, dominated points, points at or beyond the reference point and the empty set, and it neither modifies the input nor depends on earlier calls. The improvement of a point over a set is the difference of two such values, and a maximization problem gets the value of its negated counterpart, whether decision points or objective points are supplied.",
 ["inputs", "histories"], "all finite point sets, reference points and dimensions; any sequence of calls on the same calculator",
 "Tests compare a handful of fixed 2-3-D fronts; ties, duplicates, points outside the reference box, more objectives and calculator reuse are only reached by specific inputs.",
 ["hvd/hypervolume.py", "hvd/hypervolume_derivatives.py"],
 [("dimension-sweep recursion over linked lists with cached areas/volumes", "hvd/hypervolume.py: HyperVolume.hvRecursive"),
  ("filter/translate points", "hvd/hypervolume.py: HyperVolume.compute"),
  ("indicator wrapper, sign flip for maximization", "hvd/hypervolume_derivatives.py: HypervolumeDerivatives.compute")],
 ["hypervolume()", "HyperVolume.compute()", "HypervolumeDerivatives.compute()", "hypervolume_improvement()"])

prop("C02", "Hypervolume gradient is the exact gradient of the hypervolume",
 "For any number (at least two) of objectives and any point set strictly below the reference point whose coordinates are pairwise distinct in every objective, the reported objective-space gradient equals the partial derivatives of the hypervolume, and is exactly zero for dominated points. The decision-space gradient is its product with the objective Jacobians, point by point, whether objective values and Jacobians are supplied or evaluated, and for maximization problems as well as minimization problems.",
 ["inputs", "configurations"], "all point sets in general position, all dimensions, all objective maps, minimization and maximization, supplied or evaluated objective data",
 "Tests check a few hand-picked 2-D/3-D sets against stored numbers; 4+ objectives, dominated points interleaved with the front, supplied values under maximization and rectangular Jacobians are not sampled.",
 ["hvd/hypervolume_derivatives.py", "hvd/utils.py"],
 [("2-D sweep and recursive projection", "hvd/hypervolume_derivatives.py: hypervolume_dY, _project"),
  ("chain rule with block Jacobians", "hvd/hypervolume_derivatives.py: _compute_gradient"),
  ("restriction to the first front", "hvd/hypervolume_derivatives.py: objective_points setter")],
 ["HypervolumeDerivatives.compute_derivatives()"])

prop("C03", "Hypervolume Hessian is the exact, symmetric Hessian",
 "For any number (at least two) of objectives and any point set in general position strictly below the reference point, the reported objective-space Hessian equals all second partial derivatives of the hypervolume, is symmetric, and vanishes on rows and columns of dominated points. The decision-space Hessian is the full second-order chain rule through the objective Jacobians and objective Hessians, symmetric, and consistent with the gradient returned by the same call.",
 ["inputs", "configurations"], "all point sets in general position, all dimensions, all twice differentiable objective maps, minimization and maximization",
 "Tests compare a few low-dimensional examples; cross-point blocks, dominated points and the objective-curvature term in 4+ objectives are not settled by them.",
 ["hvd/hypervolume_derivatives.py"],
 [("per-axis projections of each point", "hvd/hypervolume_derivatives.py: _compute_hessian, _project"),
  ("second-order chain rule and symmetrisation", "hvd/hypervolume_derivatives.py: _compute_hessian")],
 ["HypervolumeDerivatives.compute_derivatives()", "compute_hessian result"])

prop("C04", "Non-dominated sorting yields the exact dominance layers",
 "For every non-empty list of objective vectors with at least two objectives, sorting partitions all positions into layers such that a point's layer number is the length of the longest chain of points successively dominating it (layer 0: not dominated by any), equal vectors share a layer, and no layer is empty. Sorting through an objective-extracting function gives the same layers of the decisions themselves. The dominance test is exact Pareto dominance, and the non-dominated filter keeps exactly the points that no other listed point weakly dominates, in order.",
 ["inputs"], "all finite lists of vectors, with ties and duplicates, any number of objectives >= 2",
 "The divide-and-conquer sort has many branches (median splits, two sweeps, ties per objective) that only particular multi-objective inputs reach; no test targets it directly.",
 ["hvd/utils.py"],
 [("divide and conquer sorting", "hvd/utils.py: non_domin_sort, _nd_helper_a, _nd_helper_b, _sweep_a, _sweep_b"),
  ("dominance and filter", "hvd/utils.py: is_dominate, get_non_dominated")],
 ["non_domin_sort()", "is_dominate()", "get_non_dominated()"])

prop("C05", "GD and IGD values follow their definitions",
 "The generational distance is the p-mean of the Euclidean distances from each approximation point to its nearest reference point, and the inverted generational distance is the p-mean of the distances from each reference point to its nearest approximation point. With one-to-one matching, the inverted distance is the mean squared distance between each point and the target matched to it. The values are the same whether decision or objective points are given, and follow any later change of the reference set.",
 ["inputs", "histories"], "all point sets, reference sets (plain or clustered), exponents p, and sequences of calls interleaved with reference set changes",
 "Tests check one or two sets with p=2; other exponents, unequal set sizes, ties and reference-set changes are not covered.",
 ["hvd/delta_p.py"],
 [("nearest indices by distance matrix", "hvd/delta_p.py: _compute_indices"), ("p-mean", "hvd/delta_p.py: compute")],
 ["GenerationalDistance.compute()", "InvertedGenerationalDistance.compute()"])

prop("C06", "GD and IGD derivatives are those of the reported distances",
 "Away from ties of nearest points, the reported GD gradient and Hessian are the per-point derivatives of GD raised to p, for any p at points off the reference set, and the reported IGD derivatives (p=2) are those of IGD squared, including points to which no reference point is assigned. With one-to-one matching, each point's derivatives are those of its own squared distance to its matched target. The full chain rule through objective Jacobians and Hessians is applied, and supplying objective values or Jacobians changes nothing.",
 ["inputs", "configurations"], "all point sets, reference sets, exponents and differentiable objective maps",
 "Tests compare with automatic differentiation only for p=2 on one or two sets; the p-dependent terms and unassigned points are not exercised.",
 ["hvd/delta_p.py"],
 [("GD chain rule", "hvd/delta_p.py: GenerationalDistance.compute_derivatives"),
  ("IGD chain rule with assignment counts", "hvd/delta_p.py: InvertedGenerationalDistance.compute_derivatives")],
 ["compute_derivatives()"])

prop("C07", "Matched targets are an optimal assignment of reference points",
 "Matching gives every approximation point its own target; targets newly chosen within a reference component are distinct points of it (as moved by any shift of the whole set before the first matching), as many as the points of the cluster matched to that component, and they are assigned with least total distance; clusters are assigned to components with least total directed Hausdorff distance. Once chosen, targets are kept across later matchings of the same size and only re-permuted. Shifting moves exactly the selected targets (or, before any matching, the whole reference set) by the step size times their own component's shift direction, which by default is the unit normal, with no positive entry, of the hyperplane through the component's extreme points (where that hyperplane has a one-signed normal).",
 ["histories", "inputs"], "all reference sets (one or several components), point sets and sequences of match and shift operations",
 "The tests run one matching and one shift; the state carried between repeated matches and shifts of several components is never examined.",
 ["hvd/reference_set.py", "hvd/utils.py"],
 [("component and target assignment", "hvd/reference_set.py: match, _match_components, _match, _cluster"),
  ("shift of targets and of cached medoids", "hvd/reference_set.py: shift, set_medoids"),
  ("shift direction", "hvd/utils.py: compute_chim")],
 ["ReferenceSet.match()", "ReferenceSet.shift()", "ReferenceSet.reference_set"],
 [dict(name="medoids per component", meaning="targets currently chosen", where="hvd/reference_set.py: _medoids"),
  dict(name="matched medoids", meaning="target of each approximation point", where="hvd/reference_set.py: _matched_medoids")])

prop("C08", "Optimizer state caches always agree with its points",
 "After any sequence of full updates (with derivatives), single-point updates, slicing, copying and save/load, the objective values, Jacobians, constraint values, constraint derivatives and set of active constraints held for every point are exactly those of evaluating the problem at that point's current decision variables. Copies and slices share nothing with the original or with the arrays passed in, keep the order of the selected points, and evaluation counters grow by exactly the points evaluated. Equality constraints are always active, an inequality is active when its value is at least -1e-4, and a point is feasible when equalities are within 1e-4 of zero and no inequality is active; batch and point-wise callbacks give the same state.",
 ["histories", "inputs"], "all sequences of state operations on any number of points, with or without equality/inequality constraints, batch or point-wise callbacks",
 "Tests perform one update and a few evaluations; aliasing between slices, stale caches after mixed updates and persistence need multi-step histories.",
 ["hvd/base.py"],
 [("full and single-point update", "hvd/base.py: State.update, State.update_one"),
  ("slicing", "hvd/base.py: State.__getitem__"), ("persistence", "hvd/base.py: State.save, State.load"),
  ("evaluation adapters", "hvd/base.py: State.evaluate, eval_cstr, eval_cstr_jac, eval_cstr_hess")],
 ["State attributes X, Y, J, H, G, active_indices, is_feasible()"],
 [dict(name="X, Y, J, cstr_*", meaning="points and cached evaluations", where="hvd/base.py: State")])

prop("C09", "The KKT test accepts exactly the approximate KKT points",
 "A point is reported as KKT if and only if its constraint values are finite and feasible within the feasibility tolerance and there are nonnegative objective weights summing to one, free equality multipliers and nonnegative multipliers for the inequalities active within the activity tolerance that make the largest component of the Lagrangian gradient at most the stationarity tolerance. Each point is judged on its own, points with undefined derivatives are never KKT, and negative tolerances are rejected.",
 ["inputs", "configurations"], "all gradients, constraint values, numbers of objectives/constraints and tolerances",
 "Tests check a few canonical points; sign conventions, inactive constraints, tolerances and multi-point independence need systematic case enumeration.",
 ["hvd/base.py"],
 [("linear program over multipliers", "hvd/base.py: State.check_KKT")],
 ["State.check_KKT()"])

prop("C10", "Hypervolume Newton run: steps, layers, bookkeeping",
 "Each iteration first drops all but one copy of coinciding points, splits the remaining ones into the dominance layers of the feasible points (a point counts as infeasible as the state defines it, that is also when an inequality is within 1e-4 of its bound; infeasible points join the first layer; if none is feasible all points form one layer), and moves every layer by one shared step size (positive, unless step limiting stops a point that sits on a bound; at most one, halved until the residual norm decreases or six trials are used) along the solution of that layer's own Newton system for its hypervolume gradient with active constraints, leaving the multipliers of inactive constraints unchanged. Starting points are clipped to the box and multipliers start at one over the number of points; with step limiting on, decision points never leave the box. A run performs exactly the requested number of iterations, reports it, returns the final points with their objective values, and keeps one unaltered record per iteration.",
 ["histories", "inputs", "configurations"], "all starting sets, problems with or without constraints, options and iteration counts",
 "The end-to-end tests only check that runs finish or a final value on a couple of problems; intermediate populations, partitions and steps are never checked.",
 ["hvd/newton.py", "hvd/line_search.py", "hvd/utils.py"],
 [("iteration", "hvd/newton.py: HVN.iterate"), ("Newton system", "hvd/newton.py: HVN._compute_netwon_step, _compute_R"),
  ("deduplication", "hvd/newton.py: HVN._check_population"), ("loop, log, stop", "hvd/newton.py: HVN.run, log, terminate")],
 ["HVN.iterate()", "HVN.run()", "HVN.state", "HVN.history_*"])

prop("C11", "Delta-p Newton run: indicator choice, shifts, box, steps",
 "Each iteration evaluates both distances, shifts every target at the first iteration (by 0.08) and afterwards only the targets of points that have reached them with a zero last step (by 0.05), and moves each point with its own step size along the solution of its own Newton system for the active distance (the configured one or, in combined mode, the larger of the two) with its active constraints. The reported indicator value is the larger of the two distances. Decision points never leave the box, and a run performs exactly the requested iterations, returns the final points with their objective values and keeps one unaltered record per iteration.",
 ["histories", "inputs", "configurations"], "all starting sets, reference sets, modes, constraints and iteration counts",
 "No test runs several iterations while observing targets, box and per-point steps.",
 ["hvd/newton.py", "hvd/delta_p.py", "hvd/reference_set.py"],
 [("iteration", "hvd/newton.py: DpN.newton_iteration"), ("shift rule", "hvd/newton.py: DpN._shift_reference_set"),
  ("box handling", "hvd/newton.py: DpN._handle_box_constraint"), ("per-point line search", "hvd/newton.py: DpN._backtracking_line_search")],
 ["DpN.newton_iteration()", "DpN.run()", "DpN.state", "DpN.history_*"])

prop("C12", "MMD values and derivatives follow their definitions",
 "The discrepancy is the mean kernel value within the reference set plus that within the approximation set minus twice the mean across; the matched variant is the weighted mean kernel value within the approximation set plus the mean squared feature distance between each point and its matched target (kernels normalised to one at zero distance). For every differentiable stationary kernel, the reported gradient and Hessian in objective and decision space are the exact derivatives of that value for the current targets, with the full chain rule. They stay consistent with the value when the weight or the reference set is changed between calls, and supplying objective values or Jacobians changes nothing.",
 ["inputs", "histories", "configurations"], "all point and reference sets, stationary kernels, kernel scales, weights, objective maps and interleavings of evaluation with parameter changes",
 "Tests compare derivatives with automatic differentiation for one 2-D set and fixed parameters; later changes of weight or reference set are not tested.",
 ["hvd/mmd.py"],
 [("value", "hvd/mmd.py: MMD.compute, MMDMatching.compute"),
  ("vectorised derivative assembly", "hvd/mmd.py: _build_kernel_gradient, _build_kernel_hessian, _assemble_decision_hessian")],
 ["MMD.compute*", "MMDMatching.compute*"])

prop("C13", "MMD Newton run: targets, joint step and bookkeeping",
 "Each iteration evaluates the discrepancy, shifts every target at the first iteration and afterwards only those a point has reached with a zero last step, and moves all points with one shared positive step size (at most one, halved until the residual norm decreases or six trials are used) along the solution of the joint Newton system of the discrepancy with active constraints; multipliers of inactive constraints stay unchanged. Without matching, the reference set moves only when such a shift is due. Starting points are clipped to the box, and a run performs exactly the requested iterations, returns the final points with their objective values and keeps one unaltered record per iteration.",
 ["histories", "inputs", "configurations"], "all starting sets, reference sets, matching on/off, constraints and iteration counts",
 "One test runs the optimizer on one 2-D problem and looks only at the result.",
 ["hvd/mmd_newton.py", "hvd/mmd.py", "hvd/reference_set.py"],
 [("iteration", "hvd/mmd_newton.py: MMDNewton.newton_iteration"), ("joint Newton system", "hvd/mmd_newton.py: _compute_netwon_step, _compute_R"),
  ("shift rule", "hvd/mmd_newton.py: _shift_reference_set")],
 ["MMDNewton.newton_iteration()", "MMDNewton.run()", "MMDNewton.state", "MMDNewton.history_*"])

prop("C14", "Backtracking line search returns the first acceptable halving",
 "The line search tries the maximal step size first and then successive halvings, evaluating the merit function exactly once per trial and at no other step sizes, and returns the first trial whose merit is at most (1 - 1e-5 times the step) times the initial residual norm. A residual already at machine precision accepts the first trial. After six unsuccessful trials it stops and returns a positive step of one further halving.",
 ["inputs"], "all merit functions (including NaN or infinite values), residuals and maximal step sizes",
 "No test calls it directly; within runs only the accepted-first-trial path is common.",
 ["hvd/line_search.py"],
 [("Armijo loop", "hvd/line_search.py: backtracking_line_search")],
 ["backtracking_line_search()"])

prop("C15", "Gradient-based optimizer keeps its box, points and records",
 "Every iteration moves each distinct point along the sum of its normalised negative objective gradients, with components that would leave the box at a bound removed, by one common step size that is as long as possible up to one without any point leaving the box. Coinciding points are reduced to one, starting points are clipped to the box, and decision points never leave it. A run performs exactly the requested number of iterations, returns the final points with their objective values and keeps one unaltered record per iteration.",
 ["histories", "inputs"], "all starting sets, boxes, differentiable objectives with non-zero gradients and iteration counts",
 "There is no test of this optimizer at all.",
 ["hvd/gradient_based.py"],
 [("step", "hvd/gradient_based.py: Lara._compute_step"), ("box", "hvd/gradient_based.py: Lara._handle_box_constraint"),
  ("deduplication", "hvd/gradient_based.py: Lara._check_points_uniqueness")],
 ["Lara.iteration()", "Lara.run()", "Lara.state"])

prop("C16", "Problem derivatives are those of the reported objectives",
 "For every problem and every interior point where it is smooth, the reported objective Jacobians and Hessians and the Jacobians and Hessians of equality and inequality constraints are the derivatives of the reported objective and constraint values, with the documented shapes (outputs by variables, Hessians symmetric). Evaluating a batch gives, row by row, the same values and derivatives as evaluating its points one by one. Turning on boundary constraints appends exactly the lower- then upper-bound slacks of every variable to the inequalities and leaves everything else unchanged.",
 ["inputs", "configurations"], "all problems, configurations (dimensions, boundary constraints) and points in the box",
 "Tests check shapes and a few points per problem; derivative agreement for constraints, batches and non-default sizes is a statement about every point.",
 ["hvd/problems/base.py", "hvd/problems/cf.py", "hvd/problems/dtlz.py", "hvd/problems/eqdtlz.py", "hvd/problems/uf.py", "hvd/problems/wfg.py", "hvd/problems/zdt.py", "hvd/problems/misc.py"],
 [("automatic differentiation and batching", "hvd/problems/base.py: MOP, CMOP"), ("boundary constraints", "hvd/problems/base.py: add_boundary_constraints")],
 ["objective*, eq_*, ieq_*, *_jacobian, *_hessian, *_batch"])

prop("C17", "Pareto fronts and sets reported by problems are consistent",
 "The points a problem reports as its Pareto front have the problem's number of objectives, do not dominate one another, and are not dominated beyond numerical tolerance by the objective vector of any feasible point of the box; unless the problem is an equality-constrained variant that keeps its base problem's front, every reported front point is approached by objective vectors of feasible points. Reported Pareto-optimal decision points lie in the box, satisfy the inequality constraints and map onto the reported front. Problem dimensions and bounds are validated: counts must be positive integers, bounds must broadcast and be ordered, and sizes a problem fixes are kept with a warning.",
 ["inputs", "configurations"], "all problems with a reported front or set, all feasible points of the box, all constructor arguments",
 "Tests look at the shape and a few values of fronts; non-dominance against all feasible points quantifies over the whole box.",
 ["hvd/problems/base.py", "hvd/problems/cf.py", "hvd/problems/dtlz.py", "hvd/problems/eqdtlz.py", "hvd/problems/uf.py", "hvd/problems/wfg.py", "hvd/problems/zdt.py", "hvd/problems/misc.py"],
 [("front formulas", "hvd/problems/*.py: get_pareto_front, get_pareto_set"), ("validation", "hvd/problems/base.py: _validate_dimension, _broadcast_bound, _validate_bound, fixed_n_obj, fixed_n_var")],
 ["get_pareto_front()", "get_pareto_set()", "constructors"])

prop("C18", "Conversion to and from pymoo preserves the problem",
 "Viewing a problem as a pymoo problem, or wrapping a traceable pymoo problem (a user's or a supported built-in one), preserves dimensions, bounds, constraint counts and, at every point, objective and constraint values; wrapping with boundary constraints only appends the bound slacks. Obtaining a built-in problem never leaves the pymoo modules altered for other users, whether it succeeds or fails, and unsupported or untraceable problems are refused with an error instead of being wrapped.",
 ["inputs", "configurations", "histories"], "all problems, points, factory names and sequences of factory calls, including failing ones",
 "Tests convert a few problems and evaluate single points; module restoration after failures and value preservation at all points are not settled by them.",
 ["hvd/problems/_pymoo_factory.py", "hvd/problems/_pymoo_wrapper.py", "hvd/problems/base.py"],
 [("temporary backend replacement", "hvd/problems/_pymoo_factory.py"), ("adapters", "hvd/problems/_pymoo_wrapper.py")],
 ["get_pymoo_problem()", "MOP.from_pymoo()", "as_pymoo_problem()"])

prop("C19", "Constraint-aware MOEA/D replaces only by better offspring",
 "An offspring replaces exactly those neighbours of its subproblem to which it is strictly better, comparing constraint violation beyond the current tolerance first and the decomposed objective value when neither exceeds it. The tolerance starts from the mean violation of the initial population, decreases linearly with progress and is zero from the configured fraction of the budget on; unconstrained problems use plain comparison. Each call advances exactly one generation of one offspring per subproblem, and the population size never changes.",
 ["histories", "inputs"], "all populations, offspring sequences, constraint violations and budgets",
 "Only an example script uses it; no test observes a replacement or the tolerance schedule.",
 ["hvd/moea/moead.py"],
 [("replacement", "hvd/moea/moead.py: _replace"), ("tolerance schedule", "hvd/moea/moead.py: _cv_eps"), ("generation draining", "hvd/moea/moead.py: next")],
 ["ConstraintAwareMOEAD.next()", "pop"])

prop("C20", "SMS-EMOA survival drops the least hypervolume contributors",
 "Survival returns exactly the requested number of distinct individuals from the candidates: whole dominance fronts in order, and from the front that does not fit it removes, one at a time, an individual with the least exclusive hypervolume contribution among those still left (bi-objective case; with more objectives the contributions are sampled, but fronts, counts and membership are exact). Parent selection prefers the smaller constraint violation if either candidate is infeasible and the dominating candidate otherwise. A dynamic hypervolume record always reports the points it holds, their hypervolume and each one's contribution, after any sequence of additions and deletions.",
 ["histories", "inputs"], "all candidate sets, survivor counts, and addition/deletion sequences",
 "No test covers this algorithm; ties, multi-step elimination and incremental updates need histories.",
 ["hvd/moea/sms_emoa.py", "hvd/exact.py"],
 [("survival", "hvd/moea/sms_emoa.py: LeastHypervolumeContributionSurvival"), ("tournament", "hvd/moea/sms_emoa.py: cv_and_dom_tournament"), ("dynamic record", "hvd/exact.py: DynamicHypervolume")],
 ["survival.do()", "SMSEMOA.next()", "DynamicHypervolume.add()/delete()"])

prop("C21", "Generated reference sets lie on the detected components",
 "Filling a bi-objective front interpolates each density-connected component separately: every generated point lies on the polyline through that component's points ordered by the first objective, is evenly spaced along it, includes both end points, and a component gets a share of the points proportional to its length, so no generated point bridges a gap between components. Component detection returns each non-noise point exactly once and separates points that no chain of near neighbours connects.",
 ["inputs"], "all bi-objective point sets and requested sizes",
 "There is no test of this module.",
 ["hvd/rsg.py"],
 [("component detection", "hvd/rsg.py: ComponentDetection"), ("arc-length interpolation", "hvd/rsg.py: interpolate_tst"), ("allocation", "hvd/rsg.py: RSG")],
 ["RSG()", "interpolate_tst()", "ComponentDetection()"])

prop("C22", "Numerical helpers keep their contracts",
 "Folding points into a box by reflection returns every coordinate inside its bounds, leaves points already inside unchanged, is periodic with period twice the width, leaves coordinates without two finite bounds alone and preserves shape and the caller's array; bounds given as scalars, singletons or sequences expand to one value per variable. Hessian preconditioning leaves positive definite matrices unchanged and otherwise returns the matrix plus the same multiple of the identity that makes it positive definite. Packing primal and active dual variables into a vector and unpacking it is the identity, with zero for inactive duals. The default shift direction of a set is the unit vector without positive components whose components are proportional in absolute value to the normal of the hyperplane through the set's extreme points.",
 ["inputs"], "all points, boxes (also infinite or one-sided), bound formats, symmetric matrices and active sets",
 "No test targets these helpers; they are only exercised in the interior of ordinary runs.",
 ["hvd/utils.py", "hvd/mmd_newton.py"],
 [("reflection", "hvd/utils.py: handle_box_constraint"), ("bounds", "hvd/utils.py: set_bounds"),
  ("preconditioning", "hvd/utils.py: precondition_hessian"), ("packing", "hvd/utils.py: matrix_to_Nd_vector, Nd_vector_to_matrix")],
 ["handle_box_constraint()", "set_bounds()", "precondition_hessian()", "Nd_vector_to_matrix()"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
