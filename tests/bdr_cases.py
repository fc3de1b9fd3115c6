F = "col_gen_estimator/_bdr_classifier.py"
IDS = ["B01", "B02", "B03", "B04", "B05", "B06", "B07", "B08", "C09"]


def e(*p):
    return [(F, a, b) for a, b in p]


CASES = [
    # bugs
    ("obj-includes-positive", {"B01"}, e(("            if target == 1:\n                continue\n            num_entries", "            if target == 2:\n                continue\n            num_entries"))),
    ("cc-len", {"B01"}, e(("coeffs.append(len(clause) + 1)", "coeffs.append(len(clause))"))),
    ("sat-any", {"B07"}, e(("            if entry[index] == 0:\n                return 0\n        return 1", "            if entry[index] != 0:\n                return 1\n        return 0"))),
    ("first-dual-off", {"B02"}, e(("        n_positive_examples = 0\n        for i in range(n_samples):\n            obj_coeff = 1\n", "        n_positive_examples = -1\n        for i in range(n_samples):\n            obj_coeff = 1\n"))),
    ("no-abs", {"B05"}, e(("abs(clause_comp_cons.dual_value())", "clause_comp_cons.dual_value()"))),
    ("skip-offset", {"B02"}, e(("            objective.SetCoefficient(delta_var, obj_coeff)\n\n        objective.SetOffset(cc_dual)\n        objective.SetMinimization()\n\n    def gen", "            objective.SetCoefficient(delta_var, obj_coeff)\n\n        objective.SetMinimization()\n\n    def gen"), )),
    ("tol", {"B02"}, e(("if self.solver_.Objective().Value() >= -1e-6:", "if self.solver_.Objective().Value() >= 1e-6:"))),
    ("xi-shared", {"B01"}, e(("xi_var = self.solver_.variable(self.xi_vars_[i])", "xi_var = self.solver_.variable(self.xi_vars_[0])"))),
    ("heur-range", {"B03"}, e(("for clause_size in range(1, self.K_+1)", "for clause_size in range(1, self.K_)"))),
    ("heur-dual", {"B03"}, e(("                    if target == 1:\n                        pos_ind += 1\n                    satisfied", "                    satisfied"), ("                    if target == 1:\n                        reduced_cost -= cs_duals[pos_ind]", "                    if target == 1:\n                        pos_ind += 1\n                        reduced_cost -= cs_duals[pos_ind]"))),
    ("ip-offset", {"B06"}, e(("self.clause_vars_[i-num_xi_vars]", "self.clause_vars_[i - num_xi_vars - 1]"))),
    ("ip-acc", {"B06"}, e(("        self.explanation = []\n", "        if not hasattr(self, 'explanation'):\n            self.explanation = []\n"))),
    ("no-label-check", {"B08"}, e(("if any(label not in (0, 1) for label in y):", "if any(label < 0 for label in y):"))),
    ("predict-all", {"B07"}, e(("                    y_predict[i] = 1\n                    break", "                    y_predict[i] = 1\n                else:\n                    y_predict[i] = 0"))),
    ("nofreshproblems", {"C09"}, e(("        self._create_problems()\n", ""))),
    ("stale-C", {"C09"}, e(("    def _create_problems(self):\n", "    def _create_problems(self):\n        if hasattr(self, 'built_'):\n            return\n        self.built_ = True\n"))),
    ("add-empty", {"B04"}, e(("        if len(clause) == 0:\n            return False\n", ""))),
    ("dup-accepted", {"B04"}, e(("        assert clause not in self.clause_dict_.values()\n", ""))),
    ("pos-row-wrong", {"B02"}, e(("self.solver_.Constraint(\n                            0, 1, \"pos_\"", "self.solver_.Constraint(\n                            0, 2, \"pos_\""))),
    # refactorings
    ("enumerate", None, e(("        for i in range(len(self.X_)):\n            entry = self.X_[i]\n            target = self.y__[i]\n            # Only consider zero examples.\n            if target == 1:", "        for entry, target in zip(self.X_, self.y__):\n            if target == 1:"))),
    ("sum-gen", None, e(("""        num_entries_satisfying_clause = 0
        for i in range(len(self.X_)):
            entry = self.X_[i]
            target = self.y__[i]
            # Only consider zero examples.
            if target == 1:
                continue
            num_entries_satisfying_clause += self.satisfies_clause(
                entry, clause)
        return num_entries_satisfying_clause""", """        return sum(self.satisfies_clause(entry, clause)
                   for entry, target in zip(self.X_, self.y__)
                   if target != 1)"""))),
    ("all-gen", None, e(("        for index in clause:\n            if entry[index] == 0:\n                return 0\n        return 1", "        return int(all(entry[index] != 0 for index in clause))"))),
    ("listcomp-duals", None, e(("""        cs_duals = []
        for i in range(n_positive_examples):
            clause_satisfaction_cons = self.solver_.constraint(
                self.clause_satisfaction_[i])
            cs_duals.append(clause_satisfaction_cons.dual_value())
""", """        cs_duals = [self.solver_.constraint(index).dual_value()
                    for index in self.clause_satisfaction_]
"""))),
    ("while-loop", None, e(("""        for i in range(len(self.z_vars_)):
            z_var = self.solver_.variable(self.z_vars_[i])
            if z_var.solution_value() > 0:
                clause.append(i)
""", """        i = 0
        while i < len(self.z_vars_):
            if self.solver_.variable(self.z_vars_[i]).solution_value() > 0.5:
                clause.append(i)
            i += 1
"""))),
    ("helper-objcoef", None, e(("""            obj_coeff = 1
            target = self.y_[i]
            if target == 1:
                obj_coeff *= -cs_duals[n_positive_examples]
                n_positive_examples += 1
            objective.SetCoefficient(delta_var, obj_coeff)""", """            if self.y_[i] == 1:
                objective.SetCoefficient(delta_var, -cs_duals[n_positive_examples])
                n_positive_examples += 1
            else:
                objective.SetCoefficient(delta_var, 1)"""))),
    ("nonzero-pos", None, e(("        n_positive_examples = len(list(filter(lambda x: (x > 0), y)))", "        n_positive_examples = sum(1 for label in y if label == 1)"))),
    ("predict-any", None, e(("""            for clause in explanation:
                if self.master_problem.satisfies_clause(X[i], clause):
                    y_predict[i] = 1
                    break
""", """            if any(self.master_problem.satisfies_clause(X[i], clause) for clause in explanation):
                y_predict[i] = 1
"""))),
    ("dup-return", None, e(("        assert clause not in self.clause_dict_.values()\n", "        if clause in self.clause_dict_.values():\n            return False\n"))),
    ("helper-method", None, e(("        if self.generated_:\n            self.update_objective(cc_dual, cs_duals)\n        else:\n            self.create_submip(cc_dual, cs_duals)\n", "        self._prepare(cc_dual, cs_duals)\n"), ("    def update_objective(self, cc_dual, cs_duals):", "    def _prepare(self, a, b):\n        if not self.generated_:\n            self.create_submip(a, b)\n        else:\n            self.update_objective(a, b)\n\n    def update_objective(self, cc_dual, cs_duals):"))),
]
