#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
CG = "col_gen_estimator/_col_gen_classifier.py"
BD = "col_gen_estimator/_bdr_classifier.py"
DT = "col_gen_estimator/_dtree_classifier.py"
PT = "col_gen_estimator/_parameter_tuner.py"
EX = "examples/dtree_experiment.py"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


# ---------------------------------------------------------------- framework
p("C01", "The optimality and time-limit flags never lie",
  "After training, the optimality flag is true exactly when the final iteration asked every subproblem of every level for columns and the master problem accepted none. It is never true when training was stopped by the iteration limit or by the time limit. The time-limit flag is true exactly when the time limit stopped the pricing.",
  ["histories", "configurations"],
  "every sequence of accept/reject answers of the master, every number of levels and subproblems, every limit setting and every point at which the clock runs out",
  "The tests fit three tiny instances that all end optimal; no test ends by a limit, rejects a column, or has several subproblems per level with mixed outcomes.",
  [CG], [("ColGenClassifier.fit main loop", CG)], ["mp_optimal_", "time_limit_reached_"],
  [("mp_optimal_", "no subproblem could generate a column", CG), ("time_limit_reached_", "stopped by the clock", CG)])
p("C02", "Every iteration prices with that iteration's duals, level by level",
  "In every iteration, after the restricted master is solved, every subproblem of every level is updated exactly once with the duals of that solve before any subproblem is asked for columns. Subproblems are then asked in increasing level order, each with those same duals, the training data and its own parameters. Once a column was accepted in an iteration no further subproblem is asked before the master is solved again, so a level is reached only when every lower subproblem was asked in vain.",
  ["histories", "configurations"],
  "every level structure, every pattern of accepted and rejected columns, every number of iterations",
  "Tests use one or two levels and check only counts after a complete fit on one data set.",
  [CG], [("ColGenClassifier.fit update and pricing loops", CG)], ["calls to update_subproblem / generate_columns"])
p("C03", "Every generated column is offered to the master once and counted",
  "Every column returned by a subproblem is offered to the master exactly once and unmodified, before any other subproblem is asked and before the master is solved again. The per-subproblem column counter grows by one for each column the master accepted and by nothing for a rejected one.",
  ["histories", "inputs"],
  "every list of columns (of any length, with any mix of accepted and rejected ones) from every subproblem",
  "Tests generate at most a handful of columns, all accepted.",
  [CG], [("ColGenClassifier.fit column insertion", CG)], ["num_col_added_sp_", "calls to add_column"])
p("C04", "Iteration and time limits are respected",
  "With a positive iteration limit the master is solved in at most that many iterations and training stops for this reason only once they are used up; a non-positive limit imposes no bound. With a positive time limit no subproblem is asked for columns unless a clock reading taken since the previous solve or pricing call showed that the time spent since the start of training was within the limit; a non-positive time limit never stops training. The clock is not restarted during training except when the master asks for it.",
  ["configurations", "histories"],
  "every limit value (negative, zero, one, large) and every run length",
  "No test sets a time limit; the iteration limits used are never hit.",
  [CG], [("max_iterations / time_limit tests in ColGenClassifier.fit", CG)], ["iter_", "time_limit_reached_"])
p("C05", "Training protocol: validate, build, price, integer solve, mark fitted",
  "Training validates the input and rejects single-class targets with a ValueError before any model is built, builds the master exactly once before its first solve, and solves at least one restricted master before pricing. The integer master is solved exactly once, after the last pricing step and whatever stopped the loop, if and only if the classifier asks for it, and an unsolved integer master is an error, never a fitted estimator. The estimator is marked fitted only at the very end and training returns the estimator itself.",
  ["inputs", "configurations", "fault_sequences"],
  "every input, every stop reason, and integer solves that fail",
  "Tests only see successful fits and one single-class input.",
  [CG], [("ColGenClassifier.fit", CG)], ["is_fitted_", "return value", "ValueError"])
p("C06", "Labels are encoded for training and decoded by the same encoder",
  "Master and subproblems only ever see integer class indices produced by the label encoder fitted on the training targets, together with the validated training matrix. Prediction first checks that the estimator is fitted, computes one integer class index per input row, and returns them decoded by that same encoder.",
  ["inputs"], "every label alphabet (strings, negative or non-contiguous integers) and every input matrix",
  "All tests use labels that are already 0 and 1, for which encoding and decoding are the identity.",
  [CG, BD, DT], [("LabelEncoder in fit, inverse_transform in predict", CG)], ["predict return value"])
p("C07", "Reported training statistics are truthful",
  "After training, both iteration counters equal the number of restricted-master solves, and the number of improving iterations is the number of solves after which the master reported an improvement. The per-subproblem column counts equal the number of that subproblem's columns the master accepted. Every documented statistic is re-initialised by each training run, the per-subproblem ones with one entry per subproblem of each level, and the documented time totals are only ever increased by measured durations, each into the slot of the subproblem that was timed.",
  ["histories", "configurations"], "every number of iterations, level structure and repeated training",
  "Tests look at two counters after one two-iteration fit; the documented number of performed iterations is asserted nowhere.",
  [CG], [("statistics in ColGenClassifier.fit", CG)], ["performed_iter_", "iter_", "num_improving_iter_", "time_spent_sp_"])
p("C08", "Constructor arguments are kept unmodified under their own names",
  "Every constructor argument of every estimator is afterwards readable as an attribute of the same name holding the very object that was passed, so that parameter listing, cloning, pipelines and hyperparameter search work.",
  ["configurations"], "every estimator class and every value of every constructor argument",
  "The estimator checks skip cloning for these estimators; only default values of one classifier are asserted.",
  [CG, BD, DT], [("__init__ of the estimators", DT)], ["get_params()", "sklearn.base.clone"])
p("C09", "Training uses the current hyperparameters and only the current data",
  "A boolean decision rule classifier trains with the hyperparameter values its attributes hold when training starts, also when they were changed after construction. Training the same estimator again yields models built only from the new data, with no variable, clause or coefficient left over from an earlier training run.",
  ["histories", "configurations"], "every sequence of set_params and fit calls on one estimator",
  "No test changes a parameter after construction or fits one estimator twice with different data.",
  [BD, DT, CG], [("creation of master and subproblems", BD), ("generated_ guards", BD)], ["fit after set_params", "second fit"])
p("C10", "Training does not alter the caller's lists",
  "Building and training a decision tree classifier never adds, removes or reorders elements of the lists passed to the constructor (initial paths, leaves, nodes, splits, targets, data rows), nor of the lists and sets their elements hold: candidate splits of a node, nodes and splits of a path, left and right nodes of a leaf, recorded left and right rows of a split. Columns generated during training are kept by the master problem only.",
  ["histories", "inputs"], "every training run that accepts at least one column",
  "Tests never look at the constructor lists after training.",
  [DT], [("DTreeMasterProblem path list", DT)], ["get_params()['initial_paths']"])
# ---------------------------------------------------------------- BDR
p("B01", "Rule master problem: every clause column has the right coefficients",
  "For every clause, whether part of the initial model or added later, its objective coefficient is the number of negative samples satisfying it, its coefficient in the row of each positive sample is 1 if that sample satisfies the clause and 0 otherwise, and its coefficient in the complexity row is its length plus one. Every positive sample has one row with lower bound 1 and one non-negative penalty variable with objective weight p and coefficient 1 in that row only, the complexity row is bounded above by C, and the objective is minimised.",
  ["inputs", "histories"], "every 0/1 data matrix, label vector, clause and order of additions",
  "Tests check the coefficient helpers for a few clauses on one 4x4 matrix, not the model built from them.",
  [BD], [("BDRMasterProblem.generate_mp / add_column", BD)], ["solver model"])
p("B02", "Rule pricing problem encodes exactly the reduced cost of a clause",
  "For every dual vector, the first time as well as after any number of later calls, the pricing model minimises the complexity dual times one plus the number of selected features, minus the dual of each covered positive sample, plus one for each covered negative sample, where a sample counts as covered only consistently with the selected features, and at most the allowed number of features is selected. A clause is returned only if this minimum is below a small negative tolerance, and it consists of exactly the selected features.",
  ["inputs", "histories"], "every data matrix, every sequence of dual vectors",
  "Tests price one 4x4 matrix with two dual vectors.",
  [BD], [("BDRSubProblem.create_submip / update_objective / generate_columns", BD)], ["generate_columns return value", "solver model"])
p("B03", "Rule heuristic returns exactly the clauses with negative reduced cost",
  "The heuristic examines every clause of every length from one up to its maximum and returns precisely those whose reduced cost is below a small negative tolerance, where the reduced cost is the complexity dual times one plus the clause length, plus one per satisfied negative sample, minus the dual of each satisfied positive sample.",
  ["inputs"], "every data matrix, label order, dual vector and maximum length",
  "Tests use one matrix whose positives come first and length one (the length-two test does not run).",
  [BD], [("BDRHeuristic.generate_columns", BD)], ["generate_columns return value"])
p("B04", "Rule master never stores an empty or repeated clause and keeps its books",
  "Adding an empty clause is refused and changes nothing; adding a clause that is already present is never accepted as a new column. Every accepted clause creates exactly one new non-negative integer variable, is recorded as the clause of that variable, and is reported as added.",
  ["histories"], "every sequence of added clauses",
  "Tests add one clause or one empty clause.",
  [BD], [("BDRMasterProblem.add_column", BD)], ["add_column return value"])
p("B05", "Rule master returns each dual in its place, with the sign the pricing expects",
  "Solving the restricted rule master returns the non-negative magnitude of the complexity row's dual, followed by the duals of the rows of the positive samples, one per positive sample and in the order in which those samples appear in the data.",
  ["inputs"], "every data matrix and label order",
  "One test, with positives first and a zero complexity dual.",
  [BD], [("BDRMasterProblem.solve_rmp", BD)], ["solve_rmp return value"])
p("B06", "The reported rule is exactly the set of selected clauses",
  "The explanation stored after the integer master is solved consists of exactly those clauses, of all clauses present, whose variable is positive in the integer solution of the complete current model; solving again replaces it. A model without an integer solution is an error.",
  ["inputs", "histories"], "every set of generated clauses and every integer solution",
  "One test with a single selected clause.",
  [BD], [("BDRMasterProblem.solve_ip", BD)], ["explanation"])
p("B07", "Rule prediction is the disjunction of its clauses",
  "A sample is predicted as the positive class if and only if it satisfies at least one clause of the explanation, and it satisfies a clause if and only if none of the clause's features is zero in the sample (so the empty clause is satisfied by every sample).",
  ["inputs"], "every explanation and every 0/1 sample",
  "Tests predict the training data of one instance.",
  [BD], [("BooleanDecisionRuleClassifier.predict, satisfies_clause", BD)], ["predict return value"])
p("B08", "Rule learning is binary: three or more classes are rejected",
  "Training a boolean decision rule model on more than two classes is refused with a ValueError before a model is built. For two classes every sample is treated either as positive or as negative, and as the same one, by the master rows, the master objective, the pricing model and the heuristic.",
  ["inputs"], "every label vector",
  "No test passes more than two classes to a rule classifier.",
  [BD], [("label tests in BDRMasterProblem, BDRSubProblem, BDRHeuristic", BD)], ["fit on three classes"])
# ---------------------------------------------------------------- DTree
p("D01", "Tree geometry: children, parents, leaves and branch sides agree everywhere",
  "In a complete tree the left child of node i is 2i+1, the right child is 2i+2, the parent of node i is (i-1)/2 rounded down (the root has none), and leaves are numbered from 0 left to right. Leaf creation, path creation and row preprocessing all use this numbering, and list exactly the nodes from the leaf's parent up to the root with the side the leaf lies on.",
  ["inputs"], "every depth, node and leaf",
  "Tests enumerate the four leaves of depth two.",
  [DT, EX], [("Path.set_leaf, Leaf.create_leaf, preprocess_rows", DT)], ["node_ids", "left_nodes", "right_nodes"])
p("D02", "A row goes left exactly when its feature value is at most the threshold",
  "Everywhere a row is compared with a split (following a path, building pricing models, preprocessing rows), a value less than or equal to the threshold means the left branch and any larger value the right branch, so every row takes exactly one branch of every split.",
  ["inputs"], "every data value, including values equal to a threshold",
  "Test data never contains a value equal to a threshold.",
  [DT, EX], [("row_satisfies_path, row_satisfies_split, preprocess_rows", DT)], ["predict", "coefficients"])
p("D03", "All path-membership tests agree",
  "A row (or cut) follows a path if and only if at every node of the path it takes the branch on which the path's leaf lies under the split chosen for that node. The direct test, the set-based computation of rows and the set-based computation of cuts are the same predicate, also where the master uses them.",
  ["inputs"], "every path, leaf, split assignment and row",
  "The set-based and the direct computation are never compared by a test.",
  [DT, EX], [("row_satisfies_path, get_satisfied_rows, get_satisfied_cuts", DT)], ["return values"])
p("D04", "Tree master problem is the documented model",
  "The restricted tree master maximises the sum of path costs subject to: exactly one path per leaf; at most one path per data row that is neither removed nor handled as a cut, containing every path the row follows; and for every leaf, node on its path and candidate split, equality between the chosen paths using that split there and one selection variable per node and split that all leaves share. Path and selection variables are non-negative integers and one variable exists per path.",
  ["inputs", "configurations"], "every set of initial paths, tree, data matrix and option setting",
  "Tests check leaf duals of one depth-two instance.",
  [DT], [("DTreeMasterProblem.generate_mp", DT)], ["solver model"])
p("D05", "A path added later gets the same coefficients as an initial path",
  "A path added to the tree master receives one new non-negative integer variable with its cost as objective coefficient, coefficient 1 in its leaf's row, in every present row of a data row that follows it, in every present cut followed by it and in the consistency rows of its leaf for its own node and split pairs, and no other coefficient; it is recorded among the paths each following data row can reach, and in the cut generation model with the same defining condition as an initial path.",
  ["inputs", "histories"], "every path, in every state of rows and cuts already present",
  "One test adds one path to a model without cuts and looks at leaf duals.",
  [DT], [("DTreeMasterProblem.add_column", DT)], ["solver model"])
p("D06", "Rows and cuts added lazily contain every current path that follows them",
  "When a data row is separated as a violated row its new constraint (at most one) has coefficient 1 for exactly the paths known to be followed by that row, initial and generated alike; only rows that are not removed and not yet present are added. A row counts as violated when the current solution values of its paths do not sum to one.",
  ["inputs", "histories"], "every LP solution and every history of added paths",
  "No test enables row cuts.",
  [DT], [("add_beta_cuts, violated_row_constraint, compute_satisfied_paths, preprocess_rows", DT)], ["solver model"])
p("D07", "Generated cuts: valid, indexed consistently, and known to all parties",
  "The cut model has one indicator per path that is true exactly when the cut's split assignment follows the path, and split assignments of the same feature respect the order of thresholds. A generated cut is accepted only if its paths' current values sum to more than one, becomes an equality row over exactly those paths, and is registered under its row's index on the left or right side of every split according to its assignment; pricing problems number the cuts in the same order.",
  ["inputs", "histories"], "every sequence of cut rounds",
  "No test generates a cut.",
  [DT], [("create_cut_gen_model, add_cuts, CutGenerator, add_cut_rows, update_subproblem", DT)], ["solver model", "left_cuts/right_cuts"])
p("D08", "Tree master returns every dual in its place",
  "Solving the restricted tree master returns, from the last LP solve, the leaf duals in leaf order, one dual per data row (zero for rows without a constraint), the consistency duals by leaf, node and split, the cut duals in cut order, and exactly the split assignments of the cuts added during this call. The model is never changed between that last solve and the reading of the duals.",
  ["inputs", "histories"], "every state of the master, including calls that add rows or cuts",
  "Tests look at leaf and row duals of two tiny models without cuts.",
  [DT], [("DTreeMasterProblem.solve_rmp", DT)], ["solve_rmp return value"])
p("D09", "Tree pricing model (MIP) encodes exactly the reduced cost of a path",
  "For every dual vector, initially and after any number of updates, the mixed-integer pricing model of a leaf maximises weighted correctly classified rows minus row duals of reached rows, minus cut duals of followed cuts, minus consistency duals of chosen splits, minus the leaf dual. It chooses exactly one candidate split per node and exactly one target, a row reaches the leaf if and only if it takes the leaf's branch at every node, and it counts as correct only if it reaches the leaf and the chosen target is its class; rows removed from pricing do not appear.",
  ["inputs", "histories"], "every data matrix, weights, removed rows and sequence of dual vectors",
  "Two tests price two leaves of one instance once.",
  [DT], [("DTreeSubProblem.create_submip / update_objective / add_cut_rows", DT)], ["solver model"])
p("D10", "Tree pricing model (CP-SAT) encodes exactly the reduced cost of a path",
  "For every dual vector, initially and after any number of updates, the CP-SAT pricing model of a leaf has the same objective (scaled uniformly) and the same constraints as the mathematical pricing problem: one candidate split per node, one target, a row or cut reaches the leaf if and only if it takes the leaf's branch at every node, and a row is correct only if it reaches the leaf with the chosen target; the unscaled objective used to accept a solution is the reduced cost itself.",
  ["inputs", "histories"], "every data matrix, weights, removed rows, cuts and sequence of dual vectors",
  "The only test of this class is one end-to-end fit.",
  [DT], [("DTreeSubProblemSat, PathGenerator", DT)], ["CP model", "generate_columns return value"])
p("D11", "Original per-target pricing model encodes exactly the reduced cost",
  "The per-leaf, per-target pricing model maximises, initially and after any number of updates, the weights of reached rows of its target minus row duals of reached rows, cut duals, consistency duals and the leaf dual, with one candidate split per node and rows reaching the leaf exactly when they take its branch at every node; the cost of the returned path is the total weight of reached rows of its target.",
  ["inputs", "histories"], "every data matrix, row weights, target and sequence of dual vectors",
  "No test uses this pricing problem.",
  [DT], [("DTreeSubProblemOld", DT)], ["solver model", "generate_columns return value"])
p("D12", "Only columns with positive reduced cost are generated",
  "Every path returned by any tree pricing problem or by the random heuristic has reduced cost above a small positive tolerance, where the reduced cost is its cost minus the leaf dual, minus the duals of the rows and cuts following it, minus the consistency duals of its node and split pairs.",
  ["inputs"], "every dual vector and every generated path",
  "Tests evaluate the reduced cost of one path and only its sign.",
  [DT], [("DTreeSubProblemHeuristic.get_reduced_cost / generate_columns, PathGenerator, generate_columns", DT)], ["generate_columns return value"])
p("D13", "Generated paths are well formed",
  "Every generated path names its leaf, lists each node on the way to that leaf once with, in the same position, one split chosen among that node's candidates, carries as target one of the declared targets even if no row reaches it, and as cost the total weight of the rows kept for pricing that reach it with that target.",
  ["inputs"], "every generated path, including paths no training row reaches",
  "Tests look at one path per generator on one instance; a path without rows is never tested.",
  [DT], [("Path construction in the pricing problems", DT)], ["generate_columns return value"])
p("D14", "The trained tree is the set of selected paths and predicts their targets",
  "After the integer master is solved, on the complete current model, the tree consists of exactly the paths whose variable is positive; solving again replaces it and an unsolved model is an error. A sample is predicted the target of a selected path that it follows.",
  ["inputs", "histories"], "every integer solution and every sample",
  "One instance, predicted on its training data.",
  [DT], [("DTreeMasterProblem.solve_ip, DTreeClassifier.predict", DT)], ["selected_paths", "predict return value"])
p("D15", "Row preprocessing only removes redundant rows and conserves weight",
  "Preprocessing records for each row the sides it takes and the nodes, leaves and current paths it can reach through any candidate split, and removes a row from the master only if it reaches at most two leaves or a kept row reaches the same nodes and takes the same branch of every candidate split there. Whatever rows it removes from pricing, the total weight of the rows kept for pricing equals the number of rows.",
  ["inputs"], "every data matrix, tree and candidate set",
  "No test runs the preprocessing with merging.",
  [DT], [("DTreeMasterProblem.preprocess_rows", DT)], ["data_rows"])
p("D16", "Tree classifier validates its inputs and wires one exact problem per leaf",
  "Construction fails unless node and leaf numbers are consecutive from zero and every initial path refers to known leaves, nodes, splits and targets and has as many nodes and as many splits as the tree depth. The classifier prices first with one random heuristic and then with one exact problem per leaf (one per leaf and target in the original formulation), all working on the same leaves, nodes, splits, targets, depth and preprocessed rows as the master; the row and cut options and the solver choice reach the master as given.",
  ["configurations"], "every constructor argument combination",
  "Tests construct valid trees only and never check the wiring.",
  [DT], [("DTreeClassifier.__init__", DT)], ["AssertionError", "subproblems"])
# ---------------------------------------------------------------- tuner
p("T01", "Running statistics are the exact mean and sample variance",
  "After any sequence of pushed values the reported count, mean and variance equal the count, the arithmetic mean and the sample variance (zero for fewer than two values) of the values pushed since the last clear, and the standard deviation is the square root of the variance.",
  ["histories", "inputs"], "every sequence of pushes and clears",
  "One test pushes two values.",
  [PT], [("RunningStat.push / mean / variance / clear", PT)], ["mean()", "variance()"])
p("T02", "Parameter tuning credits the value that was used",
  "A parameter always proposes one of its registered values and a score reported without an explicit index is credited to the value proposed last; counts, scores and final scores of the other values are unchanged. The exploration budget decreases by one with each exploring proposal and never becomes negative; the final score of a value is its mean score plus the exploration factor divided by its count.",
  ["histories"], "every sequence of proposals and scores",
  "Tests follow two-valued parameters through at most eleven proposals.",
  [PT], [("Parameter", PT)], ["get_best_value()", "final_scores_"])
p("T03", "Every pricing solve is tuned, timed and scored exactly once",
  "Each CP-SAT pricing solve runs under the given time limit with every tunable parameter set to a freshly proposed value of that same parameter, and afterwards every tunable parameter receives exactly one score, the negated sum of time score and gap score, and solve time and gap are recorded once. A solve proved optimal has gap zero and a time score of its wall time over the limit; every other solve has time score one. A feasible solve has the absolute gap between objective and bound relative to the larger of their magnitudes as its gap, or one where their signs differ; an unsolved one has gap one.",
  ["histories", "inputs"], "every solver outcome and every set of tunable parameters",
  "No test looks at tuning after a solve.",
  [CG], [("BaseSubproblem.solve_model / get_tunable_params", CG)], ["solve_times_", "gaps_"])
# ---------------------------------------------------------------- experiment driver
p("E01", "Every documented command line option takes effect",
  "Every option the experiment driver accepts, in its short and its long form, is handled and sets the setting it is documented for, with the documented type; an unknown option ends the program with an error status.",
  ["inputs"], "every combination of options",
  "No test runs the driver.",
  [EX], [("main option loop", EX)], ["settings used by main"])
p("E02", "Preprocessing never turns a time limit into no limit",
  "If the user sets a positive time limit, the classifier is given a positive limit that is not larger, however long preprocessing took; only a non-positive user limit means unlimited training.",
  ["inputs", "schedules"], "every time limit and every preprocessing duration",
  "No test runs the driver, and the overrun depends on machine speed.",
  [EX], [("time_limit in main", EX)], ["time_limit passed to the classifier"])
p("E03", "Every node keeps at least one candidate split",
  "For every tree depth the experiment driver's reduction of candidate splits is asked to keep at least one split at the root and at every other node.",
  ["inputs"], "every tree depth",
  "No test runs the driver; small depths never show it.",
  [EX], [("q_root, q_node in main, reduce_splits", EX)], ["arguments of reduce_splits"])
p("E04", "The driver sees rows, sides and reachable nodes as the classifier does",
  "The driver's path test and the rows it adds to each split follow the rule that a row goes left exactly when its value is at most the threshold; its row preprocessing without merging records for each row its class, the sides it takes and the nodes and leaves it can reach, sets parents and children of the nodes, and removes from the master exactly the rows reaching at most two leaves, none from pricing, with weight one each.",
  ["inputs"], "every training set, tree depth and candidate set",
  "No test calls these functions.",
  [EX], [("row_satisfies_path, add_rows_to_splits, preprocess, preprocess_nodes", EX)], ["split rows, data rows, nodes"])
p("E05", "Merged splits and nodes keep consistent numbering",
  "Merging candidate splits keeps exactly one split per feature and threshold pair with consecutive numbers and never renumbers an existing one; merging nodes keeps candidate splits without repetition aligned with their counts. Reducing candidates keeps at each node the most frequently seen ones and marks exactly the splits used at no node as removed.",
  ["inputs", "histories"], "every sequence of merged trees",
  "No test calls these functions.",
  [EX], [("get_all_splits, merge_all_splits, merge_all_nodes, reduce_splits", EX)], ["return values"])
p("E06", "Initial paths are consistent with the candidate splits and rows",
  "Every initial path built by the driver has the splits chosen for its nodes in node order, as cost the number of training rows following it with its target, and as target the most frequent class among the rows following it. A path taken from a sampled tree is used only if each of its splits is still a candidate of the node it is used at.",
  ["inputs"], "every sampled tree and training set",
  "No test calls these functions.",
  [EX], [("get_all_leaves_paths, get_path_for_leaf, main", EX)], ["initial paths"])
# ---------------------------------------------------------------- declined
p("N01", "Column generation terminates",
  "Without limits, training ends after finitely many iterations for every data set.",
  ["inputs"], "every data set and solver behaviour",
  "Tests fit a few tiny instances.", [CG], [("ColGenClassifier.fit", CG)])
p("N02", "The trained tree is never worse than the initial tree",
  "The training accuracy of the column generation tree is at least that of the tree formed by the initial paths.",
  ["inputs"], "every data set and every set of initial paths",
  "Only one instance is checked.", [DT], [("DTreeMasterProblem.solve_ip", DT)])
p("N03", "The relaxed optimum bounds the integer optimum",
  "When the optimality flag is set, the value of the last restricted master is a bound for every decision rule or tree over the candidate clauses or splits.",
  ["inputs"], "every data set and dual solution",
  "Tests do not compare with enumeration.", [CG, BD, DT], [("fit", CG)])
p("N04", "Reduced-cost tolerances are adequate for solver round-off",
  "Solver round-off never makes a generator return a column the master already contains, nor miss a column whose reduced cost exceeds the tolerance.",
  ["inputs"], "every instance and floating-point solver result",
  "Round-off depends on instances tests do not reach.", [BD, DT], [("tolerances", BD)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
