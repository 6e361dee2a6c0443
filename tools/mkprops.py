#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that titles, anchors and ids stay in step)."""
import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
W="The only test that runs prints the output of one classifier on seven points; "
S="src/sample/"; B="src/booster/"; K="src/weak_learner/"
p("D01","Weighted feature statistics equal their definitions",
 "For every dataset and every distribution over its rows, the weighted mean and variance reported for each feature are the sums of weight*value and weight*(value-mean)^2 over all rows. The per-label versions restrict both sums to the rows carrying that label and divide them by that label's total weight.",
 ["inputs"],"every dataset (dense or sparse storage), label and weight vector",
 W+"no test evaluates any statistic, and the claim ranges over all data, labels and weights.",
 [S+"feature_struct.rs",S+"sample_struct.rs","src/common/utils.rs"],
 [("weighted_mean*, weighted_variance*, total_weight_for_label",S+"feature_struct.rs")],["Sample::weighted_mean","Sample::weighted_mean_and_variance","Sample::weighted_mean_for_label","Sample::weighted_mean_and_variance_for_label"])
p("D02","Sparse storage is observationally equal to dense storage",
 "A dataset stored sparsely answers every question (value of any cell, whole rows, weighted mean and variance, overall and per label, trained model and prediction) exactly as the same data stored densely. Absent sparse entries count as zeros everywhere, including at the first and last rows.",
 ["inputs"],"every matrix of values, including all-absent prefixes/suffixes, explicit zeros and rows missing in every column",
 W+"no test loads sparse data; equality must hold for every placement of zeros.",
 [S+"feature_struct.rs",S+"sample_struct.rs",K+"decision_tree/bin.rs",K+"regression_tree/bin.rs"],
 [("Index for SparseFeature",S+"feature_struct.rs"),("SparseFeature::weighted_*",S+"feature_struct.rs"),("cut_sparse",K+"decision_tree/bin.rs")],["Sample::at","Sample::weighted_*","Feature indexing"])
p("D03","Loading keeps every cell, column name and label",
 "Reading a CSV or SVMlight file, or converting a data frame, yields one row per record with every cell, label and column name in its original place; choosing a label column removes exactly that column and leaves name lookup of every other column pointing at its own data. Renaming columns keeps data in place, returns the old names and redirects lookup to the new names.",
 ["inputs","configurations"],"every well-formed table, header setting, label column and renaming",
 W+"file-based tests need absent datasets; the index arithmetic must be right for every column count and label position.",
 [S+"sample_struct.rs",S+"sample_reader.rs",S+"feature_struct.rs"],
 [("from_csv/from_svmlight/from_dataframe/set_target/replace_names/remove_allzero_features",S+"sample_struct.rs"),("SampleReader::read",S+"sample_reader.rs")],["SampleReader::read","Sample::from_dataframe","Sample::set_target","Sample::replace_names","Sample[name]"],
 [("name_to_index","column name -> position",S+"sample_struct.rs")])
p("D04","Only two-valued integer labels are accepted for binary boosting",
 "A dataset passes the binary-classification check, and can be boosted by a classification booster, exactly when it has one label per row, every label is a 32-bit integer, and exactly two distinct labels occur; otherwise the check refuses it before any training step. The reported list of distinct labels is sorted, duplicate-free and complete.",
 ["inputs"],"every label vector",
 W+"no test feeds invalid labels.",
 [S+"sample_struct.rs"],[("is_valid_binary_instance, target_is_specified, unique_target",S+"sample_struct.rs")],["Sample::is_valid_binary_instance","Sample::unique_target"])
p("D05","Cross-validation folds are a faithful partition",
 "Every fold splits the dataset into a training and a test part such that each row, with its own feature values, column names and label, appears in exactly one of the two and the parts' sizes add up; test parts of different folds never share a row, and with enough folds every row is tested once. Shuffling only permutes rows and is a function of the seed.",
 ["inputs","configurations"],"every dataset (dense or sparse), ratio, fold count and seed",
 W+"cross validation is never tested; sizes that do not divide evenly and sparse columns need all cases.",
 ["src/research/cross_validation.rs",S+"sample_struct.rs"],[("fold_at, Iterator::next, shuffle","src/research/cross_validation.rs"),("Sample::split/append",S+"sample_struct.rs")],["CrossValidation iterator"])
p("E01","The weighted vote is the normalised sum of its members",
 "A combined hypothesis built from weights and members keeps exactly the members of non-zero weight in order, scales the weights so that their absolute values sum to one without changing their ratios or signs, and its confidence (or regression value) on a row is the sum of weight times member value. Adding a member appends it; normalising divides each weight by the sum of absolute weights.",
 ["inputs"],"every list of weights and members, every row",
 W+"combination is only exercised through dataset-dependent tests that cannot run.",
 ["src/hypothesis/weighted_majority.rs","src/common/utils.rs"],[("from_slices/push/normalize/confidence/predict","src/hypothesis/weighted_majority.rs"),("normalize","src/common/utils.rs")],["WeightedMajority"])
p("E02","Labels follow the sign of confidence, batch equals pointwise",
 "Every classifier predicts +1 exactly when its confidence on the row is non-negative and -1 otherwise, and the batch forms of confidence and prediction list, for every row in order, exactly the single-row answers.",
 ["inputs"],"every hypothesis, dataset and row, including zero confidence",
 W+"agreement on one dataset does not give agreement for all.",
 ["src/hypothesis/hypothesis_traits.rs"],[("predict/confidence_all/predict_all","src/hypothesis/hypothesis_traits.rs")],["Classifier","Regressor"])
p("A01","AdaBoost maintains the exponential distribution and vote weights",
 "At each AdaBoost round the weak learner receives a probability distribution: uniform at first, then proportional to the previous one times exp(-a*y*h(x)), where a = 0.5*ln((1+edge)/(1-edge)) and edge is the previous member's weighted margin; a is also that member's vote. Training stops at once with that single member when the absolute edge reaches one, and otherwise after ln(n)/tolerance^2 rounds or at the requested forced-quit round.",
 ["inputs","histories"],"every dataset, every sequence of weak hypotheses with confidences in [-1,1], every round",
 W+"the AdaBoost test needs a missing dataset and checks nothing about distributions.",
 [B+"adaboost/adaboost_algorithm.rs","src/common/utils.rs"],[("update_params/boost/preprocess/postprocess",B+"adaboost/adaboost_algorithm.rs")],["WeakLearner::produce's distribution argument","Booster::run result","Research::current_hypothesis"],
 [("dist","distribution over rows",B+"adaboost/adaboost_algorithm.rs")])
p("A02","AdaBoostV maintains its margin-corrected update",
 "At each AdaBoostV round the distribution is uniform at first and then proportional to the previous one times exp(-a*y*h(x)), with a = 0.5*ln((1+edge)/(1-edge)) - 0.5*ln((1+rho)/(1-rho)) and rho the smallest edge seen so far minus the tolerance; a is also that member's vote. Training stops at once with that single member when the absolute edge reaches one, and otherwise after 2*ln(n)/tolerance^2 rounds or at the requested forced-quit round.",
 ["inputs","histories"],"every dataset, every weak-hypothesis sequence whose edges exceed tolerance - 1, every round",
 W+"the AdaBoostV test does not even compile.",
 [B+"adaboostv/adaboostv_algorithm.rs","src/common/utils.rs"],[("update_params/boost",B+"adaboostv/adaboostv_algorithm.rs")],["WeakLearner::produce's distribution argument","Booster::run result"])
p("A03","MadaBoost caps the exponential weight of every example at one",
 "At each MadaBoost round the distribution is proportional to min(1, B_i), where B_i multiplies, over earlier members, beta raised to y*h(x), with beta = sqrt(e/(1-e)), e = sqrt(eps/2) and eps = (1-edge)/2; each member's vote is -ln(beta). Training stops at once with that single member when the absolute edge reaches one, and otherwise after (n-1)/tolerance^2 rounds or at the requested forced-quit round.",
 ["inputs","histories"],"every dataset, every weak-hypothesis sequence with edges below one, every round",
 W+"the MadaBoost test needs a missing dataset.",
 [B+"madaboost/madaboost_algorithm.rs","src/common/utils.rs"],[("update_params/beta2distribution/boost",B+"madaboost/madaboost_algorithm.rs")],["WeakLearner::produce's distribution argument","Booster::run result"])
p("A04","SmoothBoost keeps distributions smooth and averages all members",
 "At each SmoothBoost round the distribution is proportional to M_i, which is 1 while N_i <= 0 and (1-gamma)^(N_i/2) otherwise, with N_i starting at one and gaining y*h(x) - gamma/(2+gamma) per member. Training stops when the sum of M falls below kappa*n or after 2/(kappa*gamma^2*sqrt(1-gamma)) rounds, so no probability ever exceeds 1/(kappa*n), and the result weights every member obtained equally.",
 ["inputs","histories","configurations"],"every dataset, gamma, kappa and weak-hypothesis sequence",
 W+"the SmoothBoost test does not compile.",
 [B+"smoothboost/smoothboost_algorithm.rs"],[("boost/postprocess/max_loop",B+"smoothboost/smoothboost_algorithm.rs")],["WeakLearner::produce's distribution argument","Booster::run result"])
p("A05","Graph-separation boosting tracks exactly the unseparated pairs",
 "At each round the distribution gives row i the share of still-unseparated opposite-label pairs that contain i, where a pair counts as separated once some member predicts its two rows differently; training ends when no pair is left or a member separates none. The result answers +1 on a row exactly when the members' prediction pattern there equals that of some positive training row, hence it is correct on all training rows once all pairs are separated.",
 ["inputs","histories"],"every dataset and weak-hypothesis sequence",
 W+"the graph-separation test needs a missing dataset.",
 [B+"graph_separation_boosting/graph_separation_algorithm.rs","src/hypothesis/naive_aggregation.rs"],[("preprocess/boost/update_params",B+"graph_separation_boosting/graph_separation_algorithm.rs"),("NaiveAggregation","src/hypothesis/naive_aggregation.rs")],["WeakLearner::produce's distribution argument","NaiveAggregation::confidence"])
p("A06","Entropic boosters show the capped exponential distribution of margins",
 "In the corrective and modified entropic LP boosters every distribution given to the weak learner is the capped-simplex projection of exp(-eta*margin) for the current combined hypothesis: entries sum to one, lie in [0, 1/nu], uncapped entries keep their exponential ratios, and capped entries are exactly those that would exceed the cap. Consequently a row with a smaller margin never gets less weight.",
 ["inputs","histories","configurations"],"every margin vector, eta and nu in [1,n], including ties and nu=n",
 W+"the CERLPBoost test does not compile and MLPBoost's needs a missing dataset.",
 ["src/common/utils.rs","src/common/checker.rs",B+"cerlpboost/cerlpboost_algorithm.rs",B+"mlpboost/mlpboost_algorithm.rs"],[("project_log_distribution_to_capped_simplex, exp_distribution","src/common/utils.rs"),("check_capped_simplex_condition","src/common/checker.rs")],["WeakLearner::produce's distribution argument of CERLPBoost and MLPBoost"])
p("A07","SoftBoost/TotalBoost distributions respect the cap and all past edges",
 "Every distribution SoftBoost or TotalBoost gives to the weak learner after the first is a probability distribution with entries at most 1/nu under which every earlier member has edge at most the smallest edge seen so far. The final weights are non-negative, sum to one and maximise the soft margin over the members obtained.",
 ["inputs","histories","configurations"],"every dataset, nu and weak-hypothesis sequence (up to the solver's tolerance)",
 W+"its test needs a missing dataset; nothing checks a constraint.",
 [B+"softboost/softboost_algorithm.rs",B+"softboost/qp_model.rs",B+"totalboost/totalboost_algorithm.rs"],[("QPModel::build_*",B+"softboost/qp_model.rs"),("boost",B+"softboost/softboost_algorithm.rs")],["WeakLearner::produce's distribution argument","Booster::run result"])
p("A08","LPBoost solves the capped soft-margin linear program",
 "After each LPBoost round the distribution lies in the simplex capped at 1/nu and minimises the largest edge over the members obtained so far, and the reported weights lie in the simplex and maximise the soft margin, so both values agree. Training ends once the optimum is within the tolerance of the smallest edge seen.",
 ["inputs","histories","configurations"],"every dataset, nu and weak-hypothesis sequence (up to the solver's tolerance)",
 W+"its test needs a missing dataset and nu=1.",
 [B+"lpboost/lp_model.rs",B+"lpboost/lpboost_algorithm.rs"],[("LPModel::init/update",B+"lpboost/lp_model.rs"),("boost",B+"lpboost/lpboost_algorithm.rs")],["WeakLearner::produce's distribution argument","Booster::run result"])
p("A09","ERLPBoost solves the entropy-regularised capped program",
 "After each ERLPBoost round the distribution lies in the simplex capped at 1/nu and minimises, up to tolerance, the largest edge over the members plus relative entropy from uniform divided by eta = max(1/2, ln(n/nu)/(tolerance/2)). Training ends when the best regularised edge seen exceeds the attained optimum by at most half the tolerance.",
 ["inputs","histories","configurations"],"every dataset, nu, tolerance and weak-hypothesis sequence (up to the solver's tolerance)",
 W+"its test needs a missing dataset.",
 [B+"erlpboost/qp_model.rs",B+"erlpboost/erlpboost_algorithm.rs","src/common/utils.rs"],[("QPModel::build_*",B+"erlpboost/qp_model.rs"),("update_gamma_hat_mut/update_gamma_star_mut",B+"erlpboost/erlpboost_algorithm.rs")],["WeakLearner::produce's distribution argument","Booster::run result"])
p("A10","Frank-Wolfe steps stay in the simplex and do not lose objective",
 "After every round of the corrective entropic booster the combination weights are non-negative and sum to one for each step rule; the classic rule moves by 2/(t+1) toward the new member, the short-step rule by the clipped gradient ratio, and line search by the step maximising the smoothed margin objective. Line-search and blended-pairwise steps never decrease that objective.",
 ["inputs","histories","configurations"],"every dataset, step rule, nu, tolerance and member sequence, including repeated members",
 W+"its test does not compile.",
 ["src/common/frank_wolfe.rs",B+"cerlpboost/cerlpboost_algorithm.rs"],[("next_iterate, classic, short_step, line_search, blended_pairwise, interior_point","src/common/frank_wolfe.rs")],["Research::current_hypothesis of CERLPBoost","WeakLearner::produce's distribution argument"])
p("A11","MLPBoost keeps the better of its two candidate weightings",
 "After every round of the modified LP booster the weights are non-negative and sum to one, and their smoothed soft-margin objective is at least that of the primary Frank-Wolfe step and of the secondary linear-program solution, which itself optimises the program capped at 1/nu. Training stops only when the smallest edge seen is within half the tolerance of that objective or the round bound is reached.",
 ["inputs","histories","configurations"],"every dataset, step rule, nu and member sequence (up to the solver's tolerance)",
 W+"its test needs a missing dataset.",
 [B+"mlpboost/mlpboost_algorithm.rs",B+"mlpboost/perturbed_lp_model.rs","src/common/frank_wolfe.rs"],[("better_weight/objval/boost",B+"mlpboost/mlpboost_algorithm.rs"),("LPModel::build_*",B+"mlpboost/perturbed_lp_model.rs")],["WeakLearner::produce's distribution argument","Research::current_hypothesis"])
p("A12","Gradient boosting trains and returns one additive model",
 "Each round of gradient boosting hands the weak learner the current additive predictions, starting from zero, chooses the new member's coefficient to minimise the training loss along it, and adds coefficient times member to the predictions, so training loss never increases. The returned model's prediction on any row is exactly that accumulated sum over the members.",
 ["inputs","histories"],"every regression dataset, loss and weak-hypothesis sequence",
 W+"the regression test needs a missing dataset.",
 [B+"gradient_boost/gbm.rs","src/common/loss_functions.rs","src/hypothesis/weighted_majority.rs"],[("boost/postprocess",B+"gradient_boost/gbm.rs")],["WeakLearner::produce's distribution argument","Booster::run result"])
p("A13","A boosting run is preparation, rounds 1,2,..., then assembly, repeatably",
 "Running any booster performs its preparation once, then rounds numbered 1, 2, ... until the first round that signals termination and no further, then assembles the result once. Running the same booster again forgets everything from the earlier run: the same weak learner sees the same distributions and the same result is returned.",
 ["histories","inputs"],"every booster, dataset and deterministic weak learner; any number of repeated runs",
 W+"no test runs a booster twice or observes rounds.",
 [B+"core.rs",B+"adaboost/adaboost_algorithm.rs",B+"adaboostv/adaboostv_algorithm.rs",B+"madaboost/madaboost_algorithm.rs",B+"smoothboost/smoothboost_algorithm.rs",B+"graph_separation_boosting/graph_separation_algorithm.rs",B+"gradient_boost/gbm.rs"],[("Booster::run",B+"core.rs"),("preprocess of each booster",B)],["Booster::run"])
p("L01","Regression losses, gradients and coefficients are mutually consistent",
 "The mean loss is the average of pointwise losses (absolute or squared difference); the gradient and second derivative are those of the pointwise loss with respect to the prediction (up to the documented constant factor for squared loss). The best coefficient of a direction minimises the total loss of residual minus coefficient times direction.",
 ["inputs"],"every prediction, target, residual and direction vector",
 W+"no test evaluates a loss.",
 ["src/common/loss_functions.rs"],[("eval/gradient/hessian/best_coefficient/weighted_median","src/common/loss_functions.rs")],["LossFunction for GBMLoss"])
p("L02","Research objectives equal the quantities they are named after",
 "The soft-margin objective is the smallest average margin over distributions capped at 1/nu, the hard-margin objective is the smallest margin, and the exponential loss is the average of exp(-y*prediction), for every hypothesis and dataset. The soft-margin value never decreases as nu grows, equals the minimum margin at nu=1 and the mean margin at nu=n.",
 ["inputs","configurations"],"every hypothesis, dataset and nu in [1,n]",
 W+"no test evaluates an objective.",
 ["src/research/objective_functions.rs"],[("eval","src/research/objective_functions.rs")],["ObjectiveFunction::eval"])
p("T01","Classification-tree splits are optimal for the chosen criterion",
 "At every internal node the chosen feature and threshold attain the best value of the configured criterion (entropy, Gini, edge or twoing) of the rows reaching the node among all features and bin boundaries, and a node is split only if that improves on not splitting. Bins cover the whole real line without gap or overlap, so every row falls in exactly one bin and no row's weight is lost.",
 ["inputs","configurations"],"every dataset (dense or sparse), distribution, criterion, bin count and depth",
 W+"the tree test does not compile.",
 [K+"decision_tree/bin.rs",K+"decision_tree/criterion.rs",K+"decision_tree/decision_tree_algorithm.rs"],[("Bins::cut/pack",K+"decision_tree/bin.rs"),("split_by_*, best_split",K+"decision_tree/criterion.rs")],["DecisionTree::produce (serialised tree)"])
p("T02","Classification-tree leaves hold the weighted majority and route correctly",
 "A row goes left exactly when its feature value is below the node's threshold; each leaf's confidence is the majority label of the weighted rows reaching it times (2*majority share - 1), so confidences lie in [-1,1]. Depth never exceeds the configured maximum, and pruning never increases the weighted training error.",
 ["inputs","configurations"],"every dataset, distribution (including zero weights), depth and row",
 W+"the tree test does not compile.",
 [K+"decision_tree/decision_tree_algorithm.rs",K+"decision_tree/node.rs",K+"decision_tree/train_node.rs",K+"common/split_rule.rs",K+"common/type_and_struct.rs"],[("full_tree/confidence_and_loss",K+"decision_tree/decision_tree_algorithm.rs"),("Splitter::split",K+"common/split_rule.rs"),("remove_redundant_nodes",K+"decision_tree/train_node.rs")],["DecisionTreeClassifier::confidence"])
p("T03","Regression-tree leaves and splits optimise the regularised loss",
 "Each regression-tree leaf value is minus the sum of gradients of its rows divided by the sum of second derivatives plus the regularisation, and each split maximises the total score gradient_sum^2/(hessian_sum+lambda) of the two sides over all features and bin boundaries. The number of node levels never exceeds the configured maximum depth, and routing compares with the threshold as for classification trees.",
 ["inputs","configurations"],"every regression dataset, current prediction vector, loss and regularisation",
 W+"the regression test needs a missing dataset.",
 [K+"regression_tree/bin.rs",K+"regression_tree/regression_tree_algorithm.rs",K+"regression_tree/node.rs",K+"regression_tree/train_node.rs"],[("best_split_at/full_tree/prediction_and_loss",K+"regression_tree/regression_tree_algorithm.rs"),("Bins",K+"regression_tree/bin.rs")],["RegressionTree::produce (serialised tree)","RegressionTreeRegressor::predict"])
p("N01","Gaussian naive Bayes predicts the maximum-posterior label",
 "The naive-Bayes learner fits, for every label, its total weight as prior and each feature's weighted mean and variance among rows of that label, and predicts on every row the label maximising log prior plus the sum over features of the log normal density. The answer does not depend on storage form or on the order of labels.",
 ["inputs"],"every dataset, distribution and row",
 W+"that test only prints predictions and checks none.",
 [K+"naive_bayes/nbayes.rs",K+"naive_bayes/nbayes_classifier.rs",K+"naive_bayes/probability.rs"],[("produce",K+"naive_bayes/nbayes.rs"),("confidence/predict",K+"naive_bayes/nbayes_classifier.rs"),("log_probability",K+"naive_bayes/probability.rs")],["GaussianNB::produce","NBayesClassifier::confidence"])
p("N02","Network activations, derivatives and prediction conventions agree",
 "Every activation's reported derivative is the mathematical derivative of its forward map, softmax outputs form a probability vector, and a layer computes activation(W*x + b). Class and confidence read-outs pick the most confident output (one output is the probability of +1), and each training step moves every parameter by the learning rate times the derivative, with output-layer signal prediction minus target, of the configured loss.",
 ["inputs","configurations"],"every input vector, layer shape, activation and loss",
 W+"the neural-network test does not compile.",
 [K+"neural_network/activation.rs",K+"neural_network/layer.rs",K+"neural_network/nn_loss.rs",K+"neural_network/nn_hypothesis.rs","src/common/task.rs"],[("eval/diff",K+"neural_network/activation.rs"),("forward/backward",K+"neural_network/layer.rs")],["NeuralNetwork::produce","NNClassifier","NNRegressor"])
p("W01","The adversarial base learner returns its best member by edge",
 "The worst-case base learner always returns the member of its fixed pool whose edge under the given distribution is largest, its members output fixed confidences in [-1,1] times the label, and every capping parameter nu in [1, n] is accepted. With half=(n+1)/2, s=ceil(nu), e=tolerance/(2n), rows in order: the first member is +1 on half rows, -1+2e on the next s, -1+3e after; member k>=1 (gap=3+2k, k<half) is +1 on s rows from half+k-1, -1+(gap-1)e on the next s, -1+gap*e elsewhere; the last is -1+e on half rows, 1-e after.",
 ["inputs","configurations"],"every sample size, tolerance, capping parameter and distribution",
 W+"it is never tested.",
 [K+"bad_learner/worstcase_lpboost.rs",K+"bad_learner/worstcase_classifier.rs",K+"bad_learner/builder.rs"],[("produce/new",K+"bad_learner/worstcase_lpboost.rs"),("confidence",K+"bad_learner/worstcase_classifier.rs")],["BadBaseLearner::produce"])
p("R01","The logger records every round faithfully without changing training",
 "Running a booster under the logger yields the same final hypothesis as running it directly (unless the time limit strikes), and writes a header plus one row per completed round with the objective value and the train and test losses of the hypothesis current at that round. The loss written is the given loss averaged over the respective sample.",
 ["inputs","histories"],"every booster, dataset, objective and loss",
 W+"the logger is never tested.",
 ["src/research/logger.rs","src/research/logger_builder.rs"],[("Logger::run/log","src/research/logger.rs")],["Logger::run output file and result"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
