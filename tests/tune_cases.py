"""Variants of the parameter tuner."""
F = "col_gen_estimator/_parameter_tuner.py"
G = "col_gen_estimator/_col_gen_classifier.py"
IDS = ["T01", "T02"]


def e(*p, f=F):
    return [(f, a, b) for a, b in p]


CASES = [
    ("c-stale-std", {"T01"}, e(("            self.old_std_ = 0.0\n        else", "        else"))),
    ("c-population", {"T01"}, e(("self.new_std_ / (self.num_data_ - 1)", "self.new_std_ / self.num_data_"))),
    ("c-biased", {"T01"}, e(("(x - self.old_mean_) * (x - self.new_mean_)", "(x - self.old_mean_) * (x - self.old_mean_)"))),
    ("c-mean-late", {"T01"}, e(("(x - self.old_mean_) / self.num_data_", "(x - self.old_mean_) / max(self.num_data_, 3)"))),
    ("c-clear", {"T01"}, e(("    def clear(self):\n        self.num_data_ = 0\n", "    def clear(self):\n        self.num_data_ = 1 if self.num_data_ > 1 else 0\n"))),
    ("c-window", {"T01"}, e(("        self.num_data_ += 1\n", "        self.num_data_ = min(self.num_data_ + 1, 4)\n"))),
    ("c-std", {"T01"}, e(("math.sqrt(self.variance())", "math.sqrt(self.new_std_)"))),
    ("c-two", {"T01"}, e(("        if self.num_data_ > 1:\n            return", "        if self.num_data_ > 2:\n            return"))),
    ("c-sums", None, e(("            self.old_mean_ = x\n            self.new_mean_ = x\n            self.old_std_ = 0.0\n", "            self.old_mean_ = x\n            self.new_mean_ = x\n            self.old_std_ = x * x\n"),
        ("            self.new_mean_ = self.old_mean_ + \\\n                (x - self.old_mean_) / self.num_data_\n            self.new_std_ = self.old_std_ + \\\n                (x - self.old_mean_) * (x - self.new_mean_)\n", "            self.new_mean_ = (self.old_mean_ * (self.num_data_ - 1) + x) / self.num_data_\n            self.new_std_ = self.old_std_ + x * x\n"),
        ("return self.new_std_ / (self.num_data_ - 1)", "return (self.new_std_ - self.num_data_ * self.new_mean_ ** 2) / (self.num_data_ - 1)"))),
    ("c-delta", None, e(("            self.new_mean_ = self.old_mean_ + \\\n                (x - self.old_mean_) / self.num_data_\n", "            delta = x - self.old_mean_\n            self.new_mean_ = self.old_mean_ + delta / self.num_data_\n"),
        ("(x - self.old_mean_) * (x - self.new_mean_)", "delta * (x - self.new_mean_)"))),
    ("c-one-branch", None, e(("        if self.num_data_ == 1:\n            self.old_mean_ = x\n            self.new_mean_ = x\n            self.old_std_ = 0.0\n        else:\n", "        if self.num_data_ == 1:\n            self.old_mean_ = 0.0\n            self.old_std_ = 0.0\n        if True:\n"))),
    ("c-list", None, e(("        self.new_std_ = 0.0\n\n    def clear(self):\n        self.num_data_ = 0\n", "        self.new_std_ = 0.0\n        self.all_ = []\n\n    def clear(self):\n        self.num_data_ = 0\n        self.all_ = []\n"), ("        self.num_data_ += 1\n", "        self.num_data_ += 1\n        self.all_.append(x)\n"), ("return self.new_mean_ if self.num_data_ > 0 else 0.0", "return sum(self.all_) / len(self.all_) if self.all_ else 0.0"))),
]

CASES += [
    ("p-credit-first", {"T02"}, e(("            index = self.current_index_\n", "            index = 0\n"))),
    ("p-falsy-index", {"T02"}, e(("        if index is None:\n", "        if not index:\n"))),
    ("p-current-late", {"T02"}, e(("        self.current_index_ = best_index\n        return", "        if self.explore_count_ > 0:\n            self.current_index_ = best_index\n        return"))),
    ("p-exploit-only", {"T02"}, e(("                best_index = bucket[0]\n\n        self.current_index_ = best_index\n", "                best_index = bucket[0]\n            self.current_index_ = best_index\n\n"))),
    ("p-final-total", {"T02"}, e(("self.c_fac_ / self.counts_[index]", "self.c_fac_ / self.total_counts_"))),
    ("p-final-before", {"T02"}, e(("        self.counts_[index] += 1\n        self.total_counts_ += 1\n", "        self.total_counts_ += 1\n"), ("(self.c_fac_ / self.counts_[index])", "(self.c_fac_ / max(1, self.counts_[index]))\n        self.counts_[index] += 1"))),
    ("p-budget-neg", {"T02"}, e(("            self.explore_count_ -= 1\n        else:  # Exploit", "        else:  # Exploit"), ("        self.current_index_ = best_index\n", "        self.explore_count_ -= 1\n        self.current_index_ = best_index\n"))),
    ("p-off-by-one", {"T02"}, e(("best_index = self.mt_.randrange(len(self.values_))", "best_index = self.mt_.randint(0, len(self.values_))"))),
    ("p-bucket-pos", {"T02"}, e(("best_index = bucket[self.mt_.randrange(len(bucket))]", "best_index = self.mt_.randrange(len(bucket))\n                self.current_index_ = best_index\n                return self.values_[bucket[best_index]]"))),
    ("p-reset-after", {"T02"}, e(("        self.total_counts_ += 1\n", "        self.total_counts_ += 1\n        if index == self.current_index_:\n            self.current_index_ = 0\n"))),
    ("p-choice", None, e(("best_index = self.mt_.randrange(len(self.values_))", "best_index = self.mt_.choice(range(len(self.values_)))"))),
    ("p-helper", None, e(("        self.current_index_ = best_index\n        return self.values_[best_index]", "        return self._propose(best_index)\n\n    def _propose(self, index):\n        self.current_index_ = index\n        return self.values_[index]"))),
    ("p-bucket-choice", None, e(("            if len(bucket) > 1:\n                best_index = bucket[self.mt_.randrange(len(bucket))]\n            else:\n                best_index = bucket[0]\n", "            best_index = bucket[self.mt_.randrange(len(bucket))]\n"))),
    ("p-early", None, e(("        best_index = 0\n\n        if self.explore_count_ > 0:\n            if len", "        best_index = 0\n        exploring = self.explore_count_ > 0\n        if exploring:\n            if len"))),
    ("p-order", None, e(("        self.scores_[index].push(score)\n        self.counts_[index] += 1\n", "        self.counts_[index] += 1\n        stat = self.scores_[index]\n        stat.push(score)\n"))),
]

CASES += [
    ("s-twice", {"T03"}, e(("            self.tunable_params_[key].adjust_score(-total_score)\n", "            self.tunable_params_[key].adjust_score(-total_score)\n            if status == cp_model.OPTIMAL:\n                self.tunable_params_[key].adjust_score(-total_score)\n"), f=G)),
    ("s-sign", {"T03"}, e(("            self.tunable_params_[key].adjust_score(-total_score)", "            self.tunable_params_[key].adjust_score(\n                total_score if status == cp_model.FEASIBLE else -total_score)"), f=G)),
    ("s-early-return", {"T03"}, e(("            time_score = 1\n            gap_score = 1\n", "            return\n"), f=G)),
    ("s-gap-abs", {"T03"}, e(("max(abs(objective), abs(bound))", "max(1, abs(objective), abs(bound))"), f=G)),
    ("s-gap-bound", {"T03"}, e(("max(abs(objective), abs(bound))", "abs(bound)"), f=G)),
    ("s-wrong-key", {"T03"}, e(("self.tunable_params_['cp_model_probing_level'].get_best_value()", "self.tunable_params_['max_presolve_iterations'].get_best_value()"), f=G)),
    ("s-limit-fixed", {"T03"}, e(("max_time_in_seconds = time_limit", "max_time_in_seconds = min(time_limit, 2)"), f=G)),
    ("s-late-param", {"T03"}, e(("        status = self.cp_solver_.Solve(model, callback)\n", ""), ("        self.cp_solver_.parameters.max_presolve_iterations = \\\n", "        status = self.cp_solver_.Solve(model, callback)\n        self.cp_solver_.parameters.max_presolve_iterations = \\\n"), f=G)),
    ("s-new-param", {"T03"}, e(("        return params\n", "        ls = Parameter(0.3, 'linearization_level', 5)\n        ls.add_value(1)\n        ls.add_value(2)\n        params['linearization_level'] = ls\n        return params\n"), f=G)),
    ("s-infeasible", {"T03"}, e(("        else:\n            time_score = 1\n            gap_score = 1\n", "        else:\n            gap_score = 1\n"), f=G)),
    ("s-gap-only-opt", {"T03"}, e(("        self.gaps_.append(gap_score)\n", "        if status == cp_model.OPTIMAL or status == cp_model.FEASIBLE:\n            self.gaps_.append(gap_score)\n"), f=G)),
    ("s-direct", {"T03"}, e(("        self.solve_model(self.model_, time_limit=2, callback=path_generator)\n", "        self.cp_solver_.Solve(self.model_, path_generator)\n"), f="col_gen_estimator/_dtree_classifier.py")),
    ("s-loop", None, e(("        self.cp_solver_.parameters.min_num_lns_workers = self.tunable_params_[\n            'min_num_lns_workers'].get_best_value()\n        self.cp_solver_.parameters.cp_model_probing_level = \\\n            self.tunable_params_['cp_model_probing_level'].get_best_value()\n        self.cp_solver_.parameters.max_presolve_iterations = \\\n            self.tunable_params_['max_presolve_iterations'].get_best_value()\n", "        for key, param in self.tunable_params_.items():\n            setattr(self.cp_solver_.parameters, key, param.get_best_value())\n"), f=G)),
    ("s-helper", None, e(("        for key in self.tunable_params_:\n            self.tunable_params_[key].adjust_score(-total_score)\n", "        self._score(total_score)\n"), ("    def solve_model(self, model", "    def _score(self, total):\n        for param in self.tunable_params_.values():\n            param.adjust_score(-total)\n\n    def solve_model(self, model"), f=G)),
    ("s-reorder", None, e(("        gap_score = 1\n        if status == cp_model.OPTIMAL:\n            gap_score = 0\n        elif status == cp_model.FEASIBLE:", "        gap_score = 1\n        if status != cp_model.FEASIBLE and status != cp_model.OPTIMAL:\n            time_score = 1\n        elif status == cp_model.OPTIMAL:\n            gap_score = 0\n        elif True:"), f=G)),
    ("s-params-var", None, e(("        self.cp_solver_.parameters.num_search_workers = 7\n", "        parameters = self.cp_solver_.parameters\n        parameters.num_search_workers = 8\n"), ("        self.cp_solver_.parameters.max_time_in_seconds = time_limit", "        parameters.max_time_in_seconds = time_limit"), f=G)),
    ("s-div-guard", None, e(("                gap_score = gap / max(abs(objective), abs(bound))\n", "                biggest = max(abs(objective), abs(bound))\n                gap_score = gap / biggest if biggest > 0 else 0\n"), f=G)),
]
IDS = ["T01", "T02", "T03"]
