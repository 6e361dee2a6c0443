"""What each check decides, proves, assumes and only samples: the source of levels.json and of DESIGN.md's per-property part.
  python3 tools/docs.py      rewrites levels.json and DESIGN.md (= tools/design_head.md + the table below + tools/design_tail.md)"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification of the real code (own verifier: syn AST -> obligations -> finite-sum normal form + z3)"
TB = T + "; bounded executable contracts for the labelled rest"

OPAQUE = "hypotheses are opaque functions of (hypothesis, sample, row) and the weak learner is arbitrary"
SOLVER = "clarabel is a trusted dependency: any answer (x, z, obj_val) of the right sizes; that its answer optimises the program handed to it (and LP duality for the reported weights) is assumed in the contracts and only sampled by the harness"

# id: (level, proved, assumed, bounded only)
D = {}
D["D01"] = ("proof",
 "Feature::{weighted_mean, weighted_mean_and_variance, _for_label x2} for dense and for sparse storage equal the sums of the definition over all rows (the sparse ones by a gap-walking loop invariant: entries visited + absent rows so far), for every length, every strictly increasing set of entries and all weights; utils::total_weight_for_label; Sample::{weighted_*}: one entry per feature, in order, with the caller's weights, label and targets.",
 ["a label of total weight 0 divides by MINIMAL_WEIGHT_SUM = 1e-100 as in the code"], "nothing")
D["D02"] = ("other",
 "Feature::index on a sparse column returns the stored value at a stored row and 0 at every other row (binary search by its contract), and all four weighted statistics of a sparse column equal those of its dense expansion (same obligations as D01).",
 ["entries are strictly increasing row numbers below n (the data invariant established by the readers)"],
 "rows, distinct-value counts, bins, trained models and predictions of sparse against dense storage (harness, mixed layouts, entries at first/last row)")
D["D03"] = ("other",
 "Sample::at returns the row's value of every feature in order with its label; Sample::shape; Sample::set_target: the labels are the chosen column, the other columns keep their order and their data, the shape counts one column less, and every remaining name still leads to its column; Sample::replace_names: old names returned in order, every column keeps its data and gets its new name, and the new name of a column leads to that column.",
 ["Feature::{into_target, name, replace_name} are represented by their interfaces (one label per row; the name last given)", "column names are pairwise different"], "reading CSV / SVMlight text and data frames (file and polars I/O are outside of the verifier's reach); set_target and replace_names are sampled as well")
D["D04"] = ("proof",
 "Sample::unique_target is sorted, duplicate-free and complete; is_valid_binary_instance returns normally exactly when there is one label per row, every label is integral and exactly two distinct labels occur, and panics otherwise (both refusals are separate obligations on the panic condition).",
 ["`as i32` is treated as exact, so labels beyond the 32-bit range are only sampled"], "that each classification booster makes the check before its first round is an obligation of its preprocess only through the call being made; the harness runs the boosters on refused samples")
D["D05"] = ("other",
 "CrossValidation::fold_at tests exactly positions [i*test, min((i+1)*test, n)) of the current order, folds are pairwise disjoint, next() yields the folds 0..n_folds in turn; the settings; Sample::at.",
 [], "Sample::split copying the rows (both storages), and the shuffle being a permutation determined by the seed (rand is a dependency)")
D["E01"] = ("proof",
 "WeightedMajority::{from_slices, push, normalize, decompose, confidence, predict (regressor)} and utils::normalize: exactly the members of non-zero weight, in order (compaction handled by a rank argument), weights divided by the sum of absolute values, confidence/prediction the weighted sum.",
 ["some weight is non-zero"], "nothing")
D["E02"] = ("proof",
 "Classifier::predict is +1 iff confidence >= 0 else -1; confidence_all, predict_all (Classifier and Regressor) list the single-row answers for every row in order; WeightedMajority::confidence.",
 ["implementors that override the trait's defaults are checked by the harness"], "NBayes, NaiveAggregation and network overrides")
BOOST = "preprocess (uniform start, everything of an earlier run forgotten, round limit), boost (regular round / |edge| >= 1 / past the limit), postprocess and current_hypothesis (normalised vote), the setters, init and max_loop"
D["A01"] = ("proof", BOOST + ": the weak learner is asked exactly once, on the training sample, with the current distribution; the new distribution equals d_i exp(-a y_i h_i)/Z and the vote a = ln((1+edge)/(1-edge))/2, for every n, history and hypothesis.",
 [OPAQUE, "entries of the distribution are positive (kept by the update over the reals; in f64 they can underflow, see Notes)"], "nothing")
D["A02"] = ("proof", BOOST + ": as AdaBoost with the margin correction, rho = smallest edge seen - tolerance.", [OPAQUE], "nothing")
D["A03"] = ("proof", BOOST + ": distribution proportional to min(1, B_i) with the stated B, vote -ln beta.", [OPAQUE], "nothing")
D["A04"] = ("proof", "preprocess, boost (regular / small mass / past the limit), postprocess, current_hypothesis, settings: M_i, N_i, the stop at sum M < kappa n, the number of rounds, equal weights; no probability exceeds 1/(kappa n).", [OPAQUE], "nothing")
D["A05"] = ("proof", "GraphSepBoost::{preprocess, update_params, boost, postprocess}: the edge sets are the opposite-label pairs, an update removes exactly the pairs separated by the member (set semantics of HashSet::retain), the distribution is each row's share of the remaining pairs, training ends when no pair is left or none was separated; NaiveAggregation::{new, confidence}: +1 iff the pattern of predictions equals that of a positive training row.",
 [OPAQUE, "HashSet/HashMap as mathematical sets/maps; equal patterns are equal sequences of i64"], "nothing")
D["A06"] = ("proof", "utils::project_log_distribution_to_capped_simplex: entries sum to one, lie in [0, 1/nu], uncapped entries keep their exponential ratio and a larger score never gets less, for every n, scores and nu (loop invariant over the sorted order, tail-sum induction); log_exp_distribution, exp_distribution, exp_distribution_from_margins, margins and edges; CERLPBoost::{preprocess, boost (new member / member seen before / optimal / past the limit), postprocess, current_hypothesis}; every distribution MLPBoost shows (A11).",
 [OPAQUE, "hypothesis equality (PartialEq) is identity of the opaque hypothesis"], "nothing")
D["A07"] = ("other", "SoftBoost/TotalBoost::{preprocess, boost, after the limit, postprocess, current_hypothesis, init, nu, tolerance} around the solver interface; the constraint matrices (CSC, entry by entry), right-hand sides, cones and objectives of softboost's QPModel (quadratic program of the distribution, linear program of the weights).",
 [OPAQUE, SOLVER, "the sequential quadratic loop of QPModel::update is represented by its interface"], "that the distribution handed over satisfies all past edges and the final weights maximise the soft margin (harness, against an independent solver of the same program)")
D["A08"] = ("other", "LPBoost::{preprocess, boost, postprocess, current_hypothesis, init, nu, tolerance}: the smallest edge seen, one solver update per round with the new member, stop iff optimum >= smallest edge - tolerance, next distribution = solver's answer; LPModel::{init, update}: the program handed to clarabel is max rho - (1/nu) sum xi s.t. y_i sum_t w_t h_t(i) >= rho - xi_i, sum w = 1, w >= 0, xi >= 0 over the members obtained (its dual is the capped edge minimisation); weights are its variables, the distribution its dual variables of the margin rows.",
 [OPAQUE, SOLVER], "optimality and the agreement of both optima")
D["A09"] = ("other", "ERLPBoost::{preprocess, boost (stops / goes on), postprocess, current_hypothesis, init, nu, tolerance}: eta, smallest regularised edge, stopping rule, sequence of solver calls; QPModel's constraint matrix, right-hand side, cones and quadratic objective (diagonal 1/(eta d_i), linear part from the current point).",
 [OPAQUE, SOLVER, "QPModel::update's sequential loop is represented by its interface"], "optimality up to the tolerance")
D["A10"] = ("other", "frank_wolfe::interior_point; FrankWolfe::next_iterate for classic, short-step and line-search rules: exact step, result in the simplex; the line search keeps a bracket of the maximiser (bisection invariant) and ends within 1e-9 of it or at a stationary point.",
 ["concavity of the smoothed objective along a segment (its derivative does not increase)", "short step: some margin changes (0/0 otherwise)"],
 "blended-pairwise steps; 'never decreases the objective' in f64")
D["A11"] = ("other", "MLPBoost::{objval, better_weight, preprocess, boost (first round / new member / member seen before / optimal / past the limit), postprocess, current_hypothesis}: objective = edge + relative entropy / eta on the capped exponential distribution, the better of the Frank-Wolfe and the LP weighting is kept, stop iff smallest edge - objective <= tolerance/2; perturbed LPModel::{init, update (with and without a new member), build_*}: the capped program handed to clarabel.",
 [OPAQUE, SOLVER, "the random perturbation is any number in (0,1)"], "that the clamped and rescaled solver weights lie in the simplex in f64; the members' equality test on real hypotheses")
D["A12"] = ("proof", "GBM::{preprocess, boost (regular / zero coefficient / past the limit), postprocess, current_hypothesis, settings, init}: predictions are the additive model before and after every round, the weak learner sees them, residuals and direction handed to best_coefficient, members and coefficients of the returned model are unscaled and its prediction on any row of any sample is the accumulated sum.",
 [OPAQUE, "the loss minimised along the member is best_coefficient's contract (L01)"], "'training loss never increases' for the absolute loss")
D["A13"] = ("proof", "Booster::run (the trait's provided method): preprocess once, boost with 1, 2, ... until the first Break, no further round, postprocess once, its result returned; every preprocess of AdaBoost, AdaBoostV, MadaBoost, SmoothBoost and GBM resets the whole training state independent of the earlier run (those of the other boosters are obligations of A05-A11).",
 ["the rounds of a booster that never breaks do not end (partial correctness)"], "equality of two complete runs (harness, all boosters)")
D["L01"] = ("proof", "LossFunction::eval is the mean of GBMLoss::eval_at_point; gradient and hessian per point; best_coefficient for the squared loss minimises the sum (closed form, zero direction included); weighted_median returns an item such that no other value has a smaller weighted distance (sorting by its contract, partial-sum loop with early exit, any number of items), and best_coefficient for the absolute loss hands it the ratios with their weights, so no other coefficient has a smaller total absolute error.",
 ["sort_by yields a permutation in the comparator's order (contract of the standard library)"], "nothing")
D["L02"] = ("proof", "SoftMarginObjective::eval is attained by a capped distribution and no capped distribution has a smaller average margin (exchange argument as a ghost-state proof, real nu); HardMarginObjective = soft margin at nu = 1; ExponentialLoss = mean of exp(-y prediction).",
 [OPAQUE], "monotonicity in nu and the mean at nu = n follow from the minimum proved; they are sampled too")
D["T01"] = ("other", "Bins::cut (dense and sparse columns): the requested number of adjacent non-empty bins from the least to the largest number; Criterion::best_split for every criterion: the column and threshold returned have the best score among all columns, each scanned with its own bins and the same rows, labels and weights; split_by_{edge, entropy, gini}: the returned boundary attains the best score of the criterion among all boundaries offered (loop invariant: best so far over a prefix, weights of both sides = sums over the rows' bins); gini_impurity, entropic_impurity, twoing_score equal their definitions.",
 ["rows of weight 0 are dropped before the scan (an obligation of produce), so every entry has positive weight"],
 "split_by_twoing's scan, Bins::pack (the rows placed in the bins by a binary search, empty bins merged); ties between columns are nondeterministic in rayon and any of the best is accepted")
D["T02"] = ("proof", "Splitter::split (left iff value < threshold), Node::confidence routing, DecisionTree::{produce, full_tree}, confidence_and_loss, Node::from, TrainNode::remove_redundant_nodes: a leaf iff loss 0, no level left or an empty side; every row of a node goes to exactly one side; subtrees get depth - 1; leaf values and losses; pruning replaces a branch only when the training error does not grow.",
 ["structural induction over trees: the contract of the recursive call is assumed for the two subtrees, which are opaque"], "nothing")
D["T03"] = ("proof", "prediction_and_loss, best_split_at, Bins::cut, best_split (the best score among all columns), Splitter::split, Node::predict, RegressionTree::{produce, full_tree}, Node::from: leaf value, the best score over all boundaries of a feature, a leaf iff loss 0 / max_depth <= 1 / an empty side, subtrees get max_depth - 1.",
 ["structural induction over trees", "sum of second derivatives plus regularisation is positive"], "Bins::pack (the rows placed in the bins by a binary search)")
D["N01"] = ("proof", "GaussianNB::produce (prior, per-label mean and variance for every label, HashMap keyed by label), Gaussian::log_probability = log prior + sum of log normal densities, NBayesClassifier::confidence picks the label of maximal score.",
 ["HashMap iteration order is arbitrary; ties between labels are nondeterministic", "variances are positive"], "nothing")
D["N02"] = ("other", "Activation::{eval, diff} for sigmoid, ReLU, identity, softmax; Layer::{affine, forward, backward}; matrix products; NNLoss::diff; task::{binarize, discretize, vectorize}; NNClassifier::confidence; NNHypothesis::{eval, train} for one, two and three layers of any widths, any batch and any entrywise activation: every weight and bias moves by rate times the back-propagated derivative with the weights before the step; NeuralNetwork::produce: rows drawn with the given weights, the configured loss, rate / batch size, epochs times iterations training steps.",
 ["the derivative table (d/dx exp = exp, ...) is part of the contract", "rand's weighted sampling and normal initial weights are arbitrary values", "networks of more than three layers follow the same loop but are not covered by the contracts of eval and train"], "networks of more than three layers (harness links the private sources; finite-difference comparison)")
D["W01"] = ("proof", "BadClassifier::confidence (first, middle, last) entry by entry, BadBaseLearner::{new, produce} and the builder's range check: the pool and its member of largest edge.",
 ["row counts are exact in f64"], "nothing")
D["R01"] = ("proof", "Logger::run: the same sequence of booster calls as Booster::run (the time limit aside), a header and one line per completed round whose fields are the objective and the two losses of the hypothesis current at that round, losses = mean of the given pointwise loss over the respective sample.",
 ["writing the file succeeds; clock readings are arbitrary numbers, one per code place and round; format! is an uninterpreted function of its arguments", "print_every >= 1 (0 panics: remainder by zero)"], "the text of the written file (harness parses it)")

ORDER = ["D01", "D02", "D03", "D04", "D05", "E01", "E02"] + ["A%02d" % i for i in range(1, 14)] + ["L01", "L02", "T01", "T02", "T03", "N01", "N02", "W01", "R01"]


def main():
    props = {p["id"]: p for p in map(json.loads, open(H + "/properties.jsonl"))}
    L = {}; out = []
    for k in ORDER:
        level, proved, assumed, bounded = D[k]
        note = "Proved for all inputs: " + proved + " Assumed: f64 as reals" + "".join("; " + a for a in assumed) + ". Bounded only (sampled on the real crate, never counted as proved): " + bounded + "."
        L[k] = {"level": level, "technique": T if level == "proof" else TB, "note": note, "assumptions": assumed,
                "explanation": ("all clauses by discharged obligations" if level == "proof" else "some clauses by discharged obligations, the rest by a bounded run of executable contracts: " + bounded)}
        out.append("### %s - %s  (%s)\n\n* Proved: %s\n* Assumed: %s.\n* Bounded only: %s.\n" % (k, props[k]["title"], level, proved, "; ".join(["f64 as reals"] + assumed), bounded))
    json.dump(L, open(H + "/levels.json", "w"), indent=1)
    rd = lambda f: open(H + "/tools/" + f).read()
    rows = ["| bug | property | where | breaks | needs |", "|---|---|---|---|---|"]
    for d in sorted(glob.glob(H + "/seeded/*/")):
        m = json.load(open(d + "meta.json")); p = open(d + "patch.diff").read()
        rows.append("| %s | %s | %s | %s | %s |" % (d.split("/")[-2], m["property"], ", ".join(re.findall(r"\+\+\+ b/src/(\S+)", p)), m["what_it_breaks"], m["needs"]))
    open(H + "/DESIGN.md", "w").write(rd("design_head.md") + "\n## The properties, one by one\n\n" + "\n".join(out) + "\n" + rd("design_tail.md").replace("@SEEDS@", "\n".join(rows)))


main()
