from tests.bdr_cases import e, IDS

OBJ = """        num_entries_satisfying_clause = 0
        for i in range(len(self.X_)):
            entry = self.X_[i]
            target = self.y__[i]
            # Only consider zero examples.
            if target == 1:
                continue
            num_entries_satisfying_clause += self.satisfies_clause(
                entry, clause)
        return num_entries_satisfying_clause
"""
COEF = """        coeffs = []
        for i in range(len(self.X_)):
            entry = self.X_[i]
            target = self.y__[i]
            # Only consider positive examples.
            if target == 0:
                continue
            coeffs.append(self.satisfies_clause(entry, clause))
        # last constraint
        coeffs.append(len(clause) + 1)
        return coeffs
"""
CLAUSE = """        clause = []
        for i in range(len(self.z_vars_)):
            z_var = self.solver_.variable(self.z_vars_[i])
            if z_var.solution_value() > 0:
                clause.append(i)

        return [clause]
"""
HEUR = """                pos_ind = -1
                for j in range(n_samples):
                    entry = X[j]
                    target = y[j]
                    if target == 1:
                        pos_ind += 1
                    satisfied = BDRMasterProblem.satisfies_clause(
                        entry, clause)
                    if satisfied == 0:
                        continue

                    if target == 1:
                        reduced_cost -= cs_duals[pos_ind]
                    else:
                        reduced_cost += 1
"""
UPD = """        n_positive_examples = 0
        for i in range(n_samples):
            obj_coeff = 1
            target = self.y_[i]
            if target == 1:
                obj_coeff *= -cs_duals[n_positive_examples]
                n_positive_examples += 1
            delta_var = self.solver_.variable(self.delta_vars_[i])
            objective.SetCoefficient(delta_var, obj_coeff)
"""
PRED = """            for clause in explanation:
                if self.master_problem.satisfies_clause(X[i], clause):
                    y_predict[i] = 1
                    break
"""
IP = """        for i in range(num_xi_vars, len(all_vars)):
            if all_vars[i].solution_value() > 0:
                orig_var = self.solver_.variable(
                    self.clause_vars_[i-num_xi_vars])
                self.explanation.append(self.clause_dict_[orig_var.index()])
"""
CASES = [
    ("sat-le", {"B07"}, e(("            if entry[index] == 0:", "            if entry[index] <= 0:"))),
    ("sat-first", {"B07"}, e(("        for index in clause:\n            if entry", "        for index in clause[:3]:\n            if entry"))),
    ("price-not-one", {"B02"}, e(("            if self.y_[i] == 1:\n                for j in range(n_words):\n                    if self.X_[i, j] == 0:", "            if self.y_[i] == 1:\n                for j in range(n_words):\n                    if self.X_[i, j] != 1:"))),
    ("price-limit", {"B02"}, e(("self.solver_.Constraint(0, self.D_, \"clause", "self.solver_.Constraint(0, min(self.D_, n_words - 1), \"clause"))),
    ("price-full-neg", {"B02"}, e(("                cons = self.solver_.Constraint(1, infinity, \"zero_\" + str(i))", "                if self.X_[i].all():\n                    continue\n                cons = self.solver_.Constraint(1, infinity, \"zero_\" + str(i))"))),
    ("price-same-cc", {"B02"}, e(("        n_samples = self.X_.shape[0]\n        objective = self.solver_.Objective()\n        for i in range(n_words):\n            z_var = self.solver_.variable(self.z_vars_[i])\n            objective", "        n_samples = self.X_.shape[0]\n        objective = self.solver_.Objective()\n        if cc_dual == 0:\n            return\n        for i in range(n_words):\n            z_var = self.solver_.variable(self.z_vars_[i])\n            objective"))),
    ("price-zero-dual", {"B02"}, e((UPD, UPD.replace("            delta_var = ", "            if obj_coeff == 0:\n                continue\n            delta_var = ")))),
    ("price-pos-count", {"B02"}, e((UPD, UPD.replace("                n_positive_examples += 1\n", "                if cs_duals[n_positive_examples] > 0:\n                    n_positive_examples += 1\n")))),
    ("price-first-data", {"B02"}, e(("        self.X_ = X\n        self.y_ = y\n        cc_dual = dual_costs[0]\n        cs_duals = dual_costs[1]\n        # We assume the positive dual cost in this model.\n        assert cc_dual >= 0, \"Negative clause complexity dual\"\n        for cs_dual in cs_duals:\n            assert cs_dual >= 0, \"Negative clause satisfaction dual\"\n\n        if self", "        self.X_ = X\n        self.y_ = y\n        cc_dual = round(dual_costs[0], 6)\n        cs_duals = dual_costs[1]\n\n        if self"))),
    ("price-short", {"B02"}, e((CLAUSE, CLAUSE.replace("        return [clause]", "        return [clause] if len(clause) > 1 else []")))),
    ("heur-perm", {"B03"}, e(("itertools.combinations(all_words, clause_size)", "itertools.permutations(all_words, clause_size)"))),
    ("heur-break", {"B03"}, e(("                    neg_red_cost_clauses.append(list(clause))\n", "                    neg_red_cost_clauses.append(list(clause))\n                    break\n"))),
    ("heur-last-word", {"B03"}, e(("        all_words = range(n_words)", "        all_words = range(n_words - 1)"))),
    ("heur-pos-sat", {"B03"}, e((HEUR, HEUR.replace("                    if target == 1:\n                        pos_ind += 1\n                    satisfied", "                    satisfied").replace("                        reduced_cost -=", "                        pos_ind += 1\n                        reduced_cost -=")))),
    ("heur-len", {"B03"}, e(("reduced_cost = cc_dual * (1 + len(clause))", "reduced_cost = cc_dual * (1 + self.K_)"))),
    ("dup-keys", {"B04"}, e(("assert clause not in self.clause_dict_.values()", "assert tuple(clause) not in self.clause_dict_"))),
    ("key-number", {"B04", "B06"}, e(("        self.clause_dict_[clause_var.index()] = clause\n        obj_coeff", "        self.clause_dict_[n_clauses] = clause\n        obj_coeff"))),
    ("new-num", {"B04", "B01"}, e(("        clause_var = self.solver_.IntVar(\n            0.0, self.solver_.infinity(), 'c_'+str(n_clauses))", "        clause_var = self.solver_.NumVar(\n            0.0, self.solver_.infinity(), 'c_'+str(n_clauses))"))),
    ("new-bool", {"B04", "B01"}, e(("        clause_var = self.solver_.IntVar(\n            0.0, self.solver_.infinity(), 'c_'+str(n_clauses))", "        clause_var = self.solver_.IntVar(\n            0.0, 1.0, 'c_'+str(n_clauses))"))),
    ("alias-clause", {"B04", "B01", "B06"}, e(("        self.clause_dict_[clause_var.index()] = clause\n        obj_coeff", "        self.clause_dict_[clause_var.index()] = clause[:2]\n        obj_coeff"))),
    ("new-obj-pos", {"B01"}, e(("        obj_coeff = self.get_objective_coeff_mp(clause)\n        self.solver_.Objective().SetCoefficient(clause_var, obj_coeff)", "        obj_coeff = self.get_objective_coeff_mp(clause)\n        if n_clauses > 1:\n            self.solver_.Objective().SetCoefficient(clause_var, obj_coeff)"))),
    ("xi-bound", {"B01"}, e(("self.solver_.IntVar(0.0, infinity, 'p_'+str(i))", "self.solver_.IntVar(0.0, self.p_, 'p_'+str(i))"))),
    ("c-int", {"B01"}, e(("            -infinity, self.C_, \"clause_complexity\")", "            -infinity, max(self.C_, n_clauses + 1), \"clause_complexity\")"))),
    ("duals-abs", {"B05"}, e(("            cs_duals.append(clause_satisfaction_cons.dual_value())", "            cs_duals.append(round(clause_satisfaction_cons.dual_value(), 3))"))),
    ("duals-pos", {"B05"}, e(("            cs_duals.append(clause_satisfaction_cons.dual_value())", "            if clause_satisfaction_cons.dual_value() > 0:\n                cs_duals.append(clause_satisfaction_cons.dual_value())"))),
    ("duals-rows", {"B05"}, e(("            clause_satisfaction_cons = self.solver_.constraint(\n                self.clause_satisfaction_[i])\n            cs_duals", "            clause_satisfaction_cons = self.solver_.constraint(i)\n            cs_duals"))),
    ("ip-eq-one", {"B06"}, e(("            if all_vars[i].solution_value() > 0:", "            if all_vars[i].solution_value() == 1:"))),
    ("ip-nonempty", {"B06"}, e(("                self.explanation.append(self.clause_dict_[orig_var.index()])", "                if self.clause_dict_[orig_var.index()]:\n                    self.explanation.append(\n                        self.clause_dict_[orig_var.index()])"))),
    ("ip-feasible", {"B06"}, e(("        has_solution = (\n            result_status == pywraplp.Solver.OPTIMAL or\n            result_status == pywraplp.Solver.FEASIBLE)\n        assert has_solution", "        has_solution = result_status != pywraplp.Solver.INFEASIBLE\n        assert has_solution"))),
    ("ip-early", {"B06"}, e(("        self.explanation = []\n\n        has_solution", "        if not hasattr(self, 'explanation'):\n            self.explanation = []\n\n        has_solution"))),
    ("pred-toggle", {"B07"}, e((PRED, PRED.replace("y_predict[i] = 1\n                    break", "y_predict[i] ^= 1")))),
    ("pred-first", {"B07"}, e((PRED, PRED.replace("                    break\n", "                break\n")))),
    ("bin-max", {"B08"}, e(("if any(label not in (0, 1) for label in y):", "if max(y[:100]) > 1:"))),
    ("c09-cache", {"C09"}, e(("        self._create_problems()\n        return super().fit(X, y)", "        if not hasattr(self, 'is_fitted_'):\n            self._create_problems()\n        return super().fit(X, y)"))),
    # ---- refactorings
    ("x-obj-np", None, e((OBJ, "        return sum(self.satisfies_clause(entry, clause)\n                   for entry, target in zip(self.X_, self.y__)\n                   if target != 1)\n"))),
    ("x-coef-comp", None, e((COEF, "        coeffs = [self.satisfies_clause(self.X_[i], clause)\n                  for i in range(len(self.X_)) if self.y__[i] != 0]\n        return coeffs + [len(clause) + 1]\n"))),
    ("x-coef-enum", None, e((COEF, "        coeffs = []\n        for i, label in enumerate(self.y__):\n            if label:\n                coeffs.append(self.satisfies_clause(self.X_[i], clause))\n        coeffs.append(1 + len(clause))\n        return coeffs\n"))),
    ("x-clause-comp", None, e((CLAUSE, "        return [[i for i, index in enumerate(self.z_vars_)\n                 if self.solver_.variable(index).solution_value() > 0]]\n"))),
    ("x-heur-helper", None, e((HEUR, "                reduced_cost += self._gain(X, y, clause, cs_duals)\n"), ("    def generate_columns(self, X, y, dual_costs, params=\"\"):\n", "ALL:    def generate_columns(self, X, y, dual_costs, params=\"\"):\n")) if False else e((HEUR, "                positives = iter(cs_duals)\n                for j in range(n_samples):\n                    dual = next(positives) if y[j] == 1 else None\n                    if not BDRMasterProblem.satisfies_clause(X[j], clause):\n                        continue\n                    reduced_cost += 1 if dual is None else -dual\n"))),
    ("x-heur-rows", None, e(("        neg_red_cost_clauses = []\n", "        neg_red_cost_clauses = []\n        positive = [j for j in range(n_samples) if y[j] == 1]\n        negative = [j for j in range(n_samples) if y[j] != 1]\n"), (HEUR, "                for k, j in enumerate(positive):\n                    if BDRMasterProblem.satisfies_clause(X[j], clause):\n                        reduced_cost -= cs_duals[k]\n                for j in negative:\n                    reduced_cost += BDRMasterProblem.satisfies_clause(X[j], clause)\n"))),
    ("x-upd-iter", None, e((UPD, "        pos = [i for i in range(n_samples) if self.y_[i] == 1]\n        for i in range(n_samples):\n            objective.SetCoefficient(\n                self.solver_.variable(self.delta_vars_[i]), 1)\n        for i, dual in zip(pos, cs_duals):\n            objective.SetCoefficient(\n                self.solver_.variable(self.delta_vars_[i]), -dual)\n"))),
    ("x-upd-if", None, e((UPD, "        k = 0\n        for i in range(n_samples):\n            delta_var = self.solver_.variable(self.delta_vars_[i])\n            if self.y_[i] == 1:\n                objective.SetCoefficient(delta_var, -cs_duals[k])\n                k += 1\n            else:\n                objective.SetCoefficient(delta_var, 1)\n"))),
    ("x-pred-np", None, e((PRED, "            y_predict[i] = int(any(\n                self.master_problem.satisfies_clause(X[i], clause)\n                for clause in explanation))\n"))),
    ("x-pred-all", None, e(("        y_predict = np.zeros(X.shape[0], dtype=int)\n        for i in range(X.shape[0]):\n" + PRED, "        y_predict = np.array([\n            1 if any(self.master_problem.satisfies_clause(row, clause)\n                     for clause in explanation) else 0\n            for row in X], dtype=int)\n"))),
    ("x-ip-zip", None, e((IP, "        for var, index in zip(all_vars[num_xi_vars:], self.clause_vars_):\n            if var.solution_value() > 0:\n                self.explanation.append(self.clause_dict_[index])\n"))),
    ("x-ip-list", None, e((IP, "        self.explanation = [\n            self.clause_dict_[index]\n            for k, index in enumerate(self.clause_vars_)\n            if all_vars[num_xi_vars + k].solution_value() > 0]\n"))),
    ("x-sat-any", None, e(("        for index in clause:\n            if entry[index] == 0:\n                return 0\n        return 1", "        return 0 if any(entry[index] == 0 for index in clause) else 1"))),
    ("x-sat-np", None, e(("        for index in clause:\n            if entry[index] == 0:\n                return 0\n        return 1", "        return int(not any(entry[i] == 0 for i in clause))"))),
    ("x-cons-list", None, e(("        self.clause_satisfaction_ = [None]*n_positive_examples\n        clause_satisfaction_cons = [None]*n_positive_examples\n", "        self.clause_satisfaction_ = []\n        clause_satisfaction_cons = []\n"), ("            clause_satisfaction_cons[i] = self.solver_.Constraint(\n                1, infinity, \"clause_satisfaction_\" + str(i))\n            self.clause_satisfaction_[i] = clause_satisfaction_cons[i].index()\n", "            cons = self.solver_.Constraint(\n                1, infinity, \"clause_satisfaction_\" + str(i))\n            clause_satisfaction_cons.append(cons)\n            self.clause_satisfaction_.append(cons.index())\n"))),
    ("x-row-merge", None, e(("        clause_var = self.solver_.IntVar(\n            0.0, self.solver_.infinity(), 'c_'+str(n_clauses))", "        clause_var = self.solver_.Var(\n            0.0, self.solver_.infinity(), True, 'c_'+str(n_clauses))"))),
    ("x-duals-tuple", None, e(("        return (cc_dual, cs_duals)", "        duals = cc_dual, cs_duals\n        return duals"))),
    ("x-duals-len", None, e(("        cs_duals = []\n        for i in range(n_positive_examples):\n            clause_satisfaction_cons = self.solver_.constraint(\n                self.clause_satisfaction_[i])\n            cs_duals.append(clause_satisfaction_cons.dual_value())\n", "        cs_duals = [self.solver_.constraint(index).dual_value()\n                    for index in self.clause_satisfaction_]\n"))),
    ("x-price-new", None, e(("        if self.solver_.Objective().Value() >= -1e-6:\n            return []\n", "        improving = self.solver_.Objective().Value() < -1e-6\n        if not improving:\n            return []\n"))),
    ("x-price-create", None, e(("        if self.generated_:\n            self.update_objective(cc_dual, cs_duals)\n        else:\n            self.create_submip(cc_dual, cs_duals)\n", "        if not self.generated_:\n            self.create_submip(cc_dual, cs_duals)\n        self.update_objective(cc_dual, cs_duals)\n"))),
    ("x-early", None, e(("        # Try to generate the clause if negative objective\n", "        if cc_dual == 0 and not any(cs_duals):\n            # nothing to gain\n            return []\n\n        # Try to generate the clause if negative objective\n"))),
    ("x-labels", None, e(("        if any(label not in (0, 1) for label in y):\n            raise ValueError(\"Only binary classification is supported.\")", "        for label in y:\n            if label != 0 and label != 1:\n                raise ValueError(\n                    \"Only binary classification is supported.\")"))),
    ("x-problems", None, e(("        # Do not reuse the models of an earlier fit or of parameters that have\n        # changed since.\n        self._create_problems()\n        return super().fit(X, y)", "        self._create_problems()\n        fitted = super().fit(X, y)\n        return fitted"))),
]
