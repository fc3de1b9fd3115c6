From e09220a2a868702e9fdd4653ba26ffaae1108a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 1/7] fix: give generated paths a declared target even if no
 row follows them

The random heuristic returned target -1 for such paths and the MIP pricing
problem could leave the target unset; predict then failed to decode -1.
---
 col_gen_estimator/_dtree_classifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 849dc8a..3db7d78 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1298,7 +1298,7 @@ class DTreeSubProblem(BaseSubproblem):
         # only one class selected
         # Binary variables indicating that the class is selected.
         self.w_vars_ = [None]*len(self.targets_)
-        single_target_cons = self.solver_.Constraint(0, 1, 'single_target')
+        single_target_cons = self.solver_.Constraint(1, 1, 'single_target')
         for i in range(len(self.targets_)):
             target = self.targets_[i]
             w_var = self.solver_.BoolVar('w_' + str(target))
@@ -1971,7 +1971,8 @@ class DTreeSubProblemHeuristic(BaseSubproblem):
             n_rows = X.shape[0]
 
             possible_targets = {}
-            best_target = -1
+            # A path followed by no row keeps this (valid) target.
+            best_target = self.targets_[0]
             best_target_count = 0
             row_satisfies_path_array = [False]*n_rows
 
-- 
2.43.0


From 20fd85d423bd899679ae5c83fcd9124e19876c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 2/7] fix: count the performed iterations

---
 col_gen_estimator/_col_gen_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 07b27fe..7907d31 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -380,6 +380,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
             if self.max_iterations > 0 and self.iter_ >= self.max_iterations:
                 break
             self.iter_ += 1
+            self.performed_iter_ += 1
             print("Iteration number: ", self.iter_)
             print("Time elapsed: ", time() - t_start)
             master_time_start = time()
-- 
2.43.0


From 1e3ea7e759238af37f40a71f3b83c16edb1d1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 3/7] fix: use the row weights in the original pricing problem

---
 col_gen_estimator/_dtree_classifier.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 3db7d78..2ccc677 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2110,7 +2110,7 @@ class DTreeSubProblemOld(BaseSubproblem):
             y_var = self.solver_.BoolVar('y_'+str(i))
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
             self.y_vars_[i] = y_var.index()
@@ -2209,12 +2209,12 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
 
             y_var = self.solver_.variable(self.y_vars_[i])
             row_dual = row_duals[i]
             if self.y_[i] == self.target_:
-                objective.SetCoefficient(y_var, 1-row_dual)
+                objective.SetCoefficient(y_var, obj_coeff-row_dual)
             else:
                 objective.SetCoefficient(y_var, -row_dual)
 
@@ -2335,10 +2335,10 @@ class DTreeSubProblemOld(BaseSubproblem):
             if self.data_rows != None:
                 if self.data_rows[i].removed_from_sp:
                     continue
-                # obj_coeff = self.data_rows[i].weight
+                obj_coeff = self.data_rows[i].weight
             y_var = self.solver_.variable(self.y_vars_[i])
             if self.y_[i] == self.target_:
-                path.cost += 1 * y_var.solution_value()
+                path.cost += obj_coeff * y_var.solution_value()
         return [path]
 
     def update_subproblem(self, X, y, dual_costs):
-- 
2.43.0


From 9b94b148b5b3425554c09fb3d19784bef6d32e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 4/7] fix: do not append generated paths to the caller's list

---
 col_gen_estimator/_dtree_classifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 2ccc677..22d0667 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -546,7 +546,8 @@ class DTreeMasterProblem(BaseMasterProblem):
         self.cut_gen_model_ = cp_model.CpModel()
         self.cut_obj_scale = 1000000
         self.generated_ = False
-        self.paths_ = initial_paths
+        # Copy the list. Generated paths are appended to it.
+        self.paths_ = list(initial_paths)
         self.generated_paths_ = set()
         self.leaves_ = leaves
         self.nodes_ = nodes
-- 
2.43.0


From 5f639d846ce91a7c32f935542fa5d103834d4c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 5/7] fix: keep the constructor arguments of DTreeClassifier

get_params, clone and repr failed because use_old_sp and master_solver_type
were not stored and subproblem_params was overwritten.
---
 col_gen_estimator/_col_gen_classifier.py | 6 +++++-
 col_gen_estimator/_dtree_classifier.py   | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 7907d31..31b2f0a 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -326,6 +326,10 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
         for level in range(len(subproblems)):
             assert len(subproblems[level]) == len(subproblem_params[level])
 
+    def _get_subproblem_params(self, sp_level, sp_ind):
+        """ Returns the parameters of the given subproblem."""
+        return self.subproblem_params[sp_level][sp_ind]
+
     def fit(self, X, y):
         """Runs the column generation loop.
 
@@ -420,7 +424,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
                     generated_columns = self.subproblems[sp_level][sp_ind] \
                         .generate_columns(
                         X, self.processed_y_, dual_costs,
-                        self.subproblem_params[sp_level][sp_ind])
+                        self._get_subproblem_params(sp_level, sp_ind))
                     sp_time_end = time()
                     self.time_spent_sp_[
                         sp_level][sp_ind] += sp_time_end - sp_time_start
diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 22d0667..507b2f5 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2440,6 +2440,8 @@ class DTreeClassifier(ColGenClassifier):
         self.master_beta_constraints_as_cuts = master_beta_constraints_as_cuts
         self.master_generate_cuts = master_generate_cuts
         self.data_rows = data_rows
+        self.use_old_sp = use_old_sp
+        self.master_solver_type = master_solver_type
         split_ids = []
         for split in splits:
             split_ids.append(split.id)
@@ -2512,6 +2514,11 @@ class DTreeClassifier(ColGenClassifier):
                          self.master_problem, self.subproblems,
                          rmp_is_ip, rmp_solver_params, master_ip_solver_params,
                          all_subproblem_params)
+        # The same parameters are used for all exact subproblems.
+        self.subproblem_params = subproblem_params
+
+    def _get_subproblem_params(self, sp_level, sp_ind):
+        return "" if sp_level == 0 else self.subproblem_params
 
     def _more_tags(self):
         return {'X_types': ['categorical'],
-- 
2.43.0


From 891c2c5e5e68b905ab6606645138c9a0b66fdd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 6/7] fix: train rule classifiers with the current parameters
 and data only

---
 col_gen_estimator/_bdr_classifier.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index d5ea232..250981c 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -669,6 +669,18 @@ class BooleanDecisionRuleClassifier(ColGenClassifier):
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
 
+    def _create_problems(self):
+        """Creates the master problem and subproblems for the current
+        parameters."""
+        self.master_problem = BDRMasterProblem(self.C, self.p, self.rmp_solver)
+        self.subproblems = [[BDRSubProblem(self.C, self.subproblem_solver)]]
+
+    def fit(self, X, y):
+        # Do not reuse the models of an earlier fit or of parameters that have
+        # changed since.
+        self._create_problems()
+        return super().fit(X, y)
+
     def _more_tags(self):
         return {'X_types': ['categorical'],
                 'non_deterministic': True,
@@ -842,3 +854,8 @@ class BooleanDecisionRuleClassifierWithHeuristic(
         self.p = p
         self.rmp_solver = rmp_solver
         self.subproblem_solver = subproblem_solver
+
+    def _create_problems(self):
+        self.master_problem = BDRMasterProblem(self.C, self.p, self.rmp_solver)
+        self.subproblems = [[BDRHeuristic(K=1)],
+                            [BDRSubProblem(self.C, self.subproblem_solver)]]
-- 
2.43.0


From 7a16b5e393fbabf9fbe58adbf6dd0887aa6f52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 7/7] fix: reject more than two classes in rule learning

---
 col_gen_estimator/_bdr_classifier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/col_gen_estimator/_bdr_classifier.py b/col_gen_estimator/_bdr_classifier.py
index 250981c..5f61e0f 100644
--- a/col_gen_estimator/_bdr_classifier.py
+++ b/col_gen_estimator/_bdr_classifier.py
@@ -177,6 +177,9 @@ class BDRMasterProblem(BaseMasterProblem):
         if self.generated_:
             return
 
+        if any(label not in (0, 1) for label in y):
+            raise ValueError("Only binary classification is supported.")
+
         self.X_ = X
         self.y__ = y
         infinity = self.solver_.infinity()
-- 
2.43.0

