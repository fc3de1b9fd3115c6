"""Variants of ColGenClassifier.fit used to test the checker both ways.
(name, set of properties that must be reported or empty, [(old, new), ...])"""
F = "col_gen_estimator/_col_gen_classifier.py"
UPD = '''            for sp_level in range(len(self.subproblems)):
                for sp_ind in range(len(self.subproblems[sp_level])):
                    sp_time_start = time()
                    self.subproblems[sp_level][sp_ind] \\
                        .update_subproblem(
                            X, self.processed_y_, dual_costs)
                    sp_time_end = time()
                    self.time_spent_sp_[
                        sp_level][sp_ind] += sp_time_end - sp_time_start
'''
PRICE = '''            for sp_level in range(len(self.subproblems)):
                # TODO: do this in parallel.
                rmp_updated = False
                for sp_ind in range(len(self.subproblems[sp_level])):
                    self.time_elapsed_ = time() - t_start
                    if has_time_limit and self.time_elapsed_ > self.time_limit:
                        self.time_limit_reached_ = True
                        break
                    sp_time_start = time()
                    generated_columns = self.subproblems[sp_level][sp_ind] \\
                        .generate_columns(
                        X, self.processed_y_, dual_costs,
                        self._get_subproblem_params(sp_level, sp_ind))
                    sp_time_end = time()
                    self.time_spent_sp_[
                        sp_level][sp_ind] += sp_time_end - sp_time_start

                    col_add_start = time()
                    for column in generated_columns:
                        col_added = self.master_problem.add_column(column)
                        self.num_col_added_sp_[
                            sp_level][sp_ind] += 1 if col_added else 0
                        rmp_updated = rmp_updated or col_added
                    self.time_add_col_ += time() - col_add_start
                    if rmp_updated:
                        break
                self.time_elapsed_ = time() - t_start
                if self.time_limit_reached_:
                    print("Time limit reached!")
                    break
                if rmp_updated:
                    break
'''
COL = '''                    for column in generated_columns:
                        col_added = self.master_problem.add_column(column)
                        self.num_col_added_sp_[
                            sp_level][sp_ind] += 1 if col_added else 0
                        rmp_updated = rmp_updated or col_added
'''
LIM = '''            if self.max_iterations > 0 and self.iter_ >= self.max_iterations:
                break
            self.iter_ += 1
            self.performed_iter_ += 1
'''
BUGS = [
    ("opt_on_timeout", {"C01"}, [(F, "                if not self.time_limit_reached_:\n                    self.mp_optimal_ = True", "                self.mp_optimal_ = True")]),
    ("opt_never", {"C01"}, [(F, "                if not self.time_limit_reached_:\n                    self.mp_optimal_ = True\n", "")]),
    ("opt_default_true", {"C01"}, [(F, "self.mp_optimal_ = False", "self.mp_optimal_ = True")]),
    ("tl_not_flagged", {"C01"}, [(F, "                        self.time_limit_reached_ = True\n", "")]),
    ("tl_stale", {"C01", "C07"}, [(F, "        self.time_limit_reached_ = False\n", "")]),
    ("iter_limit_off", {"C04"}, [(F, "self.iter_ >= self.max_iterations", "self.iter_ > self.max_iterations")]),
    ("iter_limit_early", {"C04"}, [(F, "self.iter_ >= self.max_iterations", "self.iter_ + 1 >= self.max_iterations")]),
    ("iter_limit_zero", {"C04"}, [(F, "self.max_iterations > 0 and", "self.max_iterations >= 0 and")]),
    ("no_time_check", {"C04"}, [(F, "if has_time_limit and self.time_elapsed_ > self.time_limit:", "if sp_ind == 0 and has_time_limit and self.time_elapsed_ > self.time_limit:")]),
    ("stale_clock", {"C04"}, [(F, "                    self.time_elapsed_ = time() - t_start\n                    if has_time", "                    if has_time"), (F, "                rmp_updated = False\n                for", "                rmp_updated = False\n                self.time_elapsed_ = time() - t_start\n                for")]),
    ("has_tl_ge", {"C04"}, [(F, "self.time_limit > 0", "self.time_limit >= 0")]),
    ("clock_restart", {"C04"}, [(F, "            rmp_updated = False\n            # Update", "            rmp_updated = False\n            t_start = time()\n            # Update")]),
    ("stale_duals", {"C02"}, [(F, "            dual_costs = self.master_problem.solve_rmp(self.rmp_solver_params)", "            new_duals = self.master_problem.solve_rmp(self.rmp_solver_params)\n            if self.performed_iter_ == 1:\n                dual_costs = new_duals")]),
    ("update_first_level_only", {"C02"}, [(F, UPD, UPD.replace("range(len(self.subproblems)):", "range(1):", 1))]),
    ("update_skip_last", {"C02"}, [(F, UPD, UPD.replace("range(len(self.subproblems[sp_level]))", "range(len(self.subproblems[sp_level]) - 1)"))]),
    ("update_inside_price", {"C02"}, [(F, UPD, ""), (F, "                    sp_time_start = time()\n                    generated", "                    self.subproblems[sp_level][sp_ind].update_subproblem(X, self.processed_y_, dual_costs)\n                    sp_time_start = time()\n                    generated")]),
    ("no_break_after_accept", {"C02"}, [(F, "                    if rmp_updated:\n                        break\n                self.time_el", "                self.time_el")]),
    ("next_level_after_accept", {"C02"}, [(F, "                if rmp_updated:\n                    break\n\n            if not", "\n            if not")]),
    ("descending", {"C02"}, [(F, PRICE, PRICE.replace("range(len(self.subproblems))", "reversed(range(len(self.subproblems)))"))]),
    ("wrong_params", {"C02"}, [(F, "self._get_subproblem_params(sp_level, sp_ind)", "self._get_subproblem_params(sp_level, 0)")]),
    ("only_first_col", {"C03"}, [(F, "                        rmp_updated = rmp_updated or col_added\n", "                        rmp_updated = rmp_updated or col_added\n                        if col_added:\n                            break\n")]),
    ("lost_or", {"C01"}, [(F, "rmp_updated = rmp_updated or col_added", "rmp_updated = col_added")]),
    ("short_circuit", {"C03"}, [(F, "col_added = self.master_problem.add_column(column)", "col_added = rmp_updated or self.master_problem.add_column(column)")]),
    ("count_all", {"C03"}, [(F, "+= 1 if col_added else 0", "+= 1")]),
    ("count_once", {"C03"}, [(F, COL, COL.replace('''                        self.num_col_added_sp_[
                            sp_level][sp_ind] += 1 if col_added else 0
''', "") + "                    self.num_col_added_sp_[sp_level][sp_ind] += 1 if rmp_updated else 0\n")]),
    ("count_wrong_slot", {"C03"}, [(F, "sp_level][sp_ind] += 1 if", "0][sp_ind] += 1 if")]),
    ("modified_col", {"C03"}, [(F, "self.master_problem.add_column(column)", "self.master_problem.add_column(column[:1])")]),
    ("build_twice", {"C05"}, [(F, "        self.iter_ = 0\n", "        self.iter_ = 0\n        self.master_problem.generate_mp(X, self.processed_y_)\n")]),
    ("single_class_late", {"C05"}, [(F, '''        if len(self.classes_) <= 1:
            raise ValueError(
                "Classifier can't train when only one class is present.")
''', ""), (F, "        self.iter_ = 0\n", "        self.iter_ = 0\n        if len(self.classes_) <= 1:\n            raise ValueError('x')\n")]),
    ("single_class_ok", {"C05"}, [(F, "len(self.classes_) <= 1", "len(self.classes_) < 1")]),
    ("two_class_reject", {"C05"}, [(F, "len(self.classes_) <= 1", "len(self.classes_) <= 2")]),
    ("ip_only_if_optimal", {"C05"}, [(F, "        if self.rmp_is_ip:\n", "        if self.rmp_is_ip and not self.time_limit_reached_:\n")]),
    ("ip_always", {"C05"}, [(F, "        if self.rmp_is_ip:\n", "        if True:\n")]),
    ("ip_unsolved_ok", {"C05"}, [(F, '            assert solved, "RMP integer program couldn\'t be solved."\n', "")]),
    ("fitted_early", {"C05"}, [(F, "        self.is_fitted_ = True\n", ""), (F, "        self.iter_ = 0\n", "        self.iter_ = 0\n        self.is_fitted_ = True\n")]),
    ("no_return_self", {"C05"}, [(F, "        # Return the classifier\n        return self\n", "")]),
    ("early_return", {"C05"}, [(F, "                break\n            self.iter_ += 1", "                return self\n            self.iter_ += 1")]),
    ("raw_labels", {"C06"}, [(F, "self.master_problem.generate_mp(X, self.processed_y_)", "self.master_problem.generate_mp(X, y)")]),
    ("raw_labels_update", {"C06"}, [(F, "                            X, self.processed_y_, dual_costs)", "                            X, self.y_, dual_costs)")]),
    ("raw_x", {"C06"}, [(F, "        X, y = check_X_y(X, y)", "        X_raw = X\n        X, y = check_X_y(X, y)"), (F, "                        X, self.processed_y_, dual_costs,\n", "                        X_raw, self.processed_y_, dual_costs,\n")]),
    ("refit_encoder", {"C06"}, [(F, "        self.is_fitted_ = True\n", "        self.is_fitted_ = True\n        self.label_encoder_ = LabelEncoder().fit(self.classes_[::-1])\n")]),
    ("perf_iter", {"C07"}, [(F, "            self.performed_iter_ += 1\n", "")]),
    ("iter_after_break", {"C07"}, [(F, LIM, "            self.iter_ += 1\n            self.performed_iter_ += 1\n            if self.max_iterations > 0 and self.iter_ > self.max_iterations:\n                break\n")]),
    ("improv_once", {"C07"}, [(F, "                self.num_improving_iter_ += 1", "                self.num_improving_iter_ = 1")]),
    ("improv_stale", {"C07"}, [(F, "        self.num_improving_iter_ = 0\n", "")]),
    ("stat_len", {"C07"}, [(F, "self.time_spent_sp_.append([0.0]*len(self.subproblems[level]))", "self.time_spent_sp_.append([0.0]*len(self.subproblems[0]))")]),
    ("timer_slot", {"C07"}, [(F, UPD, UPD.replace("sp_level][sp_ind] +=", "sp_ind][sp_level] +="))]),
    ("timer_overwrite", {"C07"}, [(F, "self.time_spent_master_ += time()", "self.time_spent_master_ = time()")]),
    ("timer_start", {"C07"}, [(F, "self.time_spent_master_ += time() - master_time_start", "self.time_spent_master_ += time() - t_start")]),
    ("add_timer_total", {"C07"}, [(F, "self.time_add_col_ += time() - col_add_start", "self.time_add_col_ += time() - sp_time_start")]),
    ("stats_not_reset", {"C07"}, [(F, "        self.time_add_col_ = 0.0\n", "        if not hasattr(self, 'time_add_col_'):\n            self.time_add_col_ = 0.0\n")]),
]
SAME = [
    ("zip_levels", [(F, UPD, '''            for sp_level, problems in enumerate(self.subproblems):
                for sp_ind, problem in enumerate(problems):
                    start = time()
                    problem.update_subproblem(X, self.processed_y_, dual_costs)
                    self.time_spent_sp_[sp_level][sp_ind] += time() - start
''')]),
    ("helper_update", [(F, UPD, "            self._update_all(X, dual_costs)\n"), (F, "    def predict(self, X):", '''    def _update_all(self, X, duals):
        for i in range(len(self.subproblems)):
            for j in range(len(self.subproblems[i])):
                begin = time()
                self.subproblems[i][j].update_subproblem(
                    X, self.processed_y_, duals)
                self.time_spent_sp_[i][j] += time() - begin

    def predict(self, X):''')]),
    ("helper_price", [(F, PRICE, "            rmp_updated = self._price(X, dual_costs, t_start, has_time_limit)\n"), (F, "    def predict(self, X):", '''    def _price(self, X, dual_costs, t_start, has_time_limit):
        for level, problems in enumerate(self.subproblems):
            updated = False
            for ind, problem in enumerate(problems):
                self.time_elapsed_ = time() - t_start
                if has_time_limit and self.time_elapsed_ > self.time_limit:
                    self.time_limit_reached_ = True
                    return False
                start = time()
                cols = problem.generate_columns(
                    X, self.processed_y_, dual_costs,
                    self._get_subproblem_params(level, ind))
                self.time_spent_sp_[level][ind] += time() - start
                updated = self._insert(cols, level, ind)
                if updated:
                    return True
        return False

    def _insert(self, cols, level, ind):
        start = time()
        updated = False
        for column in cols:
            if self.master_problem.add_column(column):
                self.num_col_added_sp_[level][ind] += 1
                updated = True
        self.time_add_col_ += time() - start
        return updated

    def predict(self, X):''')]),
    ("count_sum", [(F, COL, '''                    n_added = 0
                    for column in generated_columns:
                        if self.master_problem.add_column(column):
                            n_added += 1
                    self.num_col_added_sp_[sp_level][sp_ind] += n_added
                    rmp_updated = rmp_updated or n_added > 0
''')]),
    ("count_comp", [(F, COL, '''                    added = [self.master_problem.add_column(c) for c in generated_columns]
                    self.num_col_added_sp_[sp_level][sp_ind] += sum(added)
                    rmp_updated = any(added)
''')]),
    ("count_comp2", [(F, COL, '''                    added = [c for c in generated_columns
                             if self.master_problem.add_column(c)]
                    self.num_col_added_sp_[sp_level][sp_ind] += len(added)
                    if added:
                        rmp_updated = True
''')]),
    ("while_limit", [(F, "        while True:\n" + LIM, "        while self.max_iterations <= 0 or self.iter_ < self.max_iterations:\n            self.iter_ += 1\n            self.performed_iter_ += 1\n")]),
    ("iter_later", [(F, LIM, LIM.replace("            self.iter_ += 1\n            self.performed_iter_ += 1\n", "")), (F, "            if self.master_problem.rmp_objective_improved():", "            self.performed_iter_ = self.performed_iter_ + 1\n            self.iter_ = self.performed_iter_\n            if self.master_problem.rmp_objective_improved():"), (F, 'print("Iteration number: ", self.iter_)', 'print("Iteration number: ", self.iter_ + 1)')]),
    ("stats_comp", [(F, '''        self.num_col_added_sp_ = []
        self.time_spent_sp_ = []
''', '''        self.num_col_added_sp_ = [[0]*len(sps) for sps in self.subproblems]
        self.time_spent_sp_ = [[0.0 for _ in sps] for sps in self.subproblems]
'''), (F, '''        for level in range(len(self.subproblems)):
            self.num_col_added_sp_.append([0]*len(self.subproblems[level]))
            self.time_spent_sp_.append([0.0]*len(self.subproblems[level]))
''', "")]),
    ("raise_unsolved", [(F, '            assert solved, "RMP integer program couldn\'t be solved."\n', '            if not solved:\n                raise RuntimeError("RMP integer program could not be solved.")\n')]),
    ("flag_expr", [(F, "                if not self.time_limit_reached_:\n                    self.mp_optimal_ = True\n", "                self.mp_optimal_ = not self.time_limit_reached_\n")]),
    ("no_has_tl", [(F, "if has_time_limit and self.time_elapsed_ > self.time_limit:", "if 0 < self.time_limit < self.time_elapsed_:")]),
    ("timed_out_method", [(F, "                    self.time_elapsed_ = time() - t_start\n                    if has_time_limit and self.time_elapsed_ > self.time_limit:", "                    self.time_elapsed_ = time() - t_start\n                    if self._timed_out(self.time_elapsed_):"), (F, "    def predict(self, X):", '''    def _timed_out(self, elapsed):
        if self.time_limit <= 0:
            return False
        return elapsed > self.time_limit

    def predict(self, X):''')]),
    ("pairs", [(F, UPD, '''            pairs = [(i, j) for i in range(len(self.subproblems))
                     for j in range(len(self.subproblems[i]))]
            for sp_level, sp_ind in pairs:
                sp_time_start = time()
                self.subproblems[sp_level][sp_ind].update_subproblem(
                    X, self.processed_y_, dual_costs)
                self.time_spent_sp_[sp_level][sp_ind] += time() - sp_time_start
''')]),
    ("single_class_len", [(F, "len(self.classes_) <= 1", "len(self.label_encoder_.classes_) < 2")]),
    ("locals", [(F, "        t_start = time()\n        # Check", "        t_start = time()\n        master = self.master_problem\n        # Check"), (F, "col_added = self.master_problem.add_column(column)", "col_added = master.add_column(column)"), (F, "dual_costs = self.master_problem.solve_rmp(self.rmp_solver_params)", "dual_costs = master.solve_rmp(solver_params=self.rmp_solver_params)")]),
    ("for_else", [(F, '''                    if rmp_updated:
                        break
                self.time_elapsed_ = time() - t_start
                if self.time_limit_reached_:
                    print("Time limit reached!")
                    break
                if rmp_updated:
                    break
''', '''                    if rmp_updated:
                        break
                else:
                    continue
                if self.time_limit_reached_:
                    print("Time limit reached!")
                break
''')]),
    ("stop_flag", [(F, "        while True:\n", "        stop = False\n        while not stop:\n"), (F, '''                    self.mp_optimal_ = True
                break
''', '''                    self.mp_optimal_ = True
                stop = True
''')]),
    ("reset_order", [(F, "        self.performed_iter_ = 0\n        self.num_improving_iter_ = 0\n", "        self.performed_iter_ = self.num_improving_iter_ = 0\n")]),
    ("init_stats_helper", [(F, '''        self.performed_iter_ = 0
        self.num_improving_iter_ = 0
        self.mp_optimal_ = False
        self.time_limit_reached_ = False
''', "        self._init_stats()\n"), (F, "    def predict(self, X):", '''    def _init_stats(self):
        self.performed_iter_ = 0
        self.num_improving_iter_ = 0
        self.mp_optimal_ = False
        self.time_limit_reached_ = False

    def predict(self, X):''')]),
    ("bool_added", [(F, COL, '''                    for column in generated_columns:
                        added = bool(self.master_problem.add_column(column))
                        self.num_col_added_sp_[sp_level][sp_ind] += int(added)
                        rmp_updated |= added
''')]),
    ("timer_ctx", [(F, '''            master_time_start = time()
            dual_costs = self.master_problem.solve_rmp(self.rmp_solver_params)
            self.time_spent_master_ += time() - master_time_start
''', '''            dual_costs = self._solve_master()
'''), (F, "    def predict(self, X):", '''    def _solve_master(self):
        begin = time()
        duals = self.master_problem.solve_rmp(self.rmp_solver_params)
        self.time_spent_master_ = self.time_spent_master_ + (time() - begin)
        return duals

    def predict(self, X):''')]),
    ("np_zeros", [(F, "        self.iter_ = 0\n", "        self.iter_ = 0\n        unused = list(range(3))\n        del unused\n")]),
    ("local_flags", [(F, "        self.mp_optimal_ = False\n        self.time_limit_reached_ = False\n", "        optimal = False\n        out_of_time = False\n"),
        (F, "                        self.time_limit_reached_ = True\n", "                        out_of_time = True\n"),
        (F, "                if self.time_limit_reached_:\n                    print", "                if out_of_time:\n                    print"),
        (F, "                if not self.time_limit_reached_:\n                    self.mp_optimal_ = True\n", "                optimal = not out_of_time\n"),
        (F, "        self.time_spent_master_ip_ = 0.0\n", "        self.time_spent_master_ip_ = 0.0\n        self.mp_optimal_ = optimal\n        self.time_limit_reached_ = out_of_time\n")]),
]
