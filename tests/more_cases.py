from tests.dt_cases import F, inc, e

IDS = ["D05", "D06", "D07", "D08", "D14"]
M = "DTreeMasterProblem"
ROWS = ("            if not self.added_row[r]:\n                continue\n            self.row_cons_[r].SetCoefficient(xp_var, 1)\n\n")
CASES = [
    # ---- bugs
    ("n-break", {"D05"}, inc(M, ("            if not self.added_row[r]:\n                continue\n            self.row_cons_[r]", "            if not self.added_row[r]:\n                break\n            self.row_cons_[r]"))),
    ("n-reach-late", {"D05", "D06"}, inc(M, ("            self.data_rows[r].reachable_paths.add(path.id)\n            if not self.added_row[r]:\n                continue\n", "            if not self.added_row[r]:\n                continue\n            self.data_rows[r].reachable_paths.add(path.id)\n"))),
    ("b-sp-flag", {"D06"}, inc(M, ("            if self.data_rows[r].removed_from_master:\n                continue\n            if num_cuts", "            if self.data_rows[r].removed_from_sp:\n                continue\n            if num_cuts"))),
    ("b-positive-only", {"D06"}, inc(M, ("                for path_id in satisfied_path_ids:\n                    xp_var = self.solver_.variable(path_id)\n                    self.row_cons_[r]", "                for path_id in satisfied_path_ids:\n                    if self.path_solution_values[path_id] <= 0:\n                        continue\n                    xp_var = self.solver_.variable(path_id)\n                    self.row_cons_[r]"))),
    ("b-count-late", {"D06"}, inc(M, ("                num_cuts += 1\n                self.added_row[r] = True\n", "                num_cuts += 1\n"))),
    ("b-all-flags", {"D06"}, inc(M, ("            satisfied_path_ids = self.get_satisfied_path_ids(r)\n", "            self.added_row[r] = True\n            satisfied_path_ids = self.get_satisfied_path_ids(r)\n"))),
    ("b-only-over", {"D06"}, inc(M, ("if abs(path_sum - 1) > 1e-6:", "if path_sum > 1 + 1e-6:"))),
    ("b-stale-values", {"D07", "D06"}, inc(M, ("                    self.store_lp_solution()\n                    t_start", "                    if i == 0:\n                        self.store_lp_solution()\n                    t_start"))),
    ("r-status-dropped", {"D08"}, inc(M, ("                        self.rmp_result_status = self.solver_.Solve(\n                            cuts_params)", "                        self.solver_.Solve(\n                            cuts_params)"))),
    ("r-sp-duals", {"D08"}, inc(M, ("                if self.added_row[r]:\n                    row_duals", "                if self.added_row[r] and not self.data_rows[r].removed_from_sp:\n                    row_duals"))),
    ("r-neg-duals", {"D08"}, inc(M, ("leaf_duals.append(self.leaf_cons_[lid].dual_value())", "leaf_duals.append(max(0, self.leaf_cons_[lid].dual_value()))"))),
    ("r-cuts-twice", {"D08"}, inc(M, ("                            newly_added_cuts.extend(cut_rows)", "                            newly_added_cuts.extend(cut_rows[i:])"))),
    ("r-row-skip", {"D08"}, inc(M, ("                else:\n                    row_duals.append(0)\n", ""))),
    ("r-ns-flat", {"D08"}, inc(M, ("                        ns_duals[leaf.id][node.id][split] = \\\n                            self.ns_constraints_[\n                            leaf.id][node.id][split].dual_value()", "                        ns_duals[leaf.id][node.id][split] = \\\n                            self.ns_constraints_[\n                            0][node.id][split].dual_value() if node.id == 0 else self.ns_constraints_[\n                            leaf.id][node.id][split].dual_value()"))),
    ("c-existing", {"D07"}, inc(M, ("num_existing_cuts = len(self.cut_cons_)", "num_existing_cuts = self.total_cuts_added"))),
    ("i-enumerate", {"D14"}, inc(M, ("        for path in self.paths_:\n            path_var = solver.variable(path.id)", "        for i, path in enumerate(self.paths_):\n            path_var = solver.variable(i)"))),
    ("i-first-copy", {"D14"}, inc(M, ("        self.selected_paths = []\n", "        self.selected_paths = getattr(self, 'selected_paths', [])\n"))),
    ("i-generated", {"D14"}, inc(M, ("            if path_var.solution_value() > 0:", "            if path_var.solution_value() > 0 and path.cost > 0:"))),
    ("a-flag-before", {"D04", "D05", "D08"}, inc(M, ("            if self.data_rows[r].removed_from_master:\n                continue\n            self.added_row[r] = True\n", "            self.added_row[r] = True\n            if self.data_rows[r].removed_from_master:\n                continue\n"))),
    ("n-obj-target", {"D05"}, inc(M, ("objective.SetCoefficient(xp_var, path.cost)\n        self.paths_", "objective.SetCoefficient(xp_var, max(path.cost, 1))\n        self.paths_"))),
    # ---- refactorings
    ("x-leaf-direct", None, inc(M, ("        for leaf in self.leaves_:\n            if path.leaf_id == leaf.id:\n                self.leaf_cons_[leaf.id].SetCoefficient(xp_var, 1)\n\n", "        self.leaf_cons_[path.leaf_id].SetCoefficient(xp_var, 1)\n\n"))),
    ("x-ns-zip", None, inc(M, ("                    for i in range(len(path.node_ids)):\n                        if path.leaf_id == leaf.id\\\n                            and path.node_ids[i] == node.id \\\n                                and path.splits[i] == split:\n                            ns_constraint.SetCoefficient(xp_var, 1)\n\n        ", "                    if path.leaf_id != leaf.id:\n                        continue\n                    for nid, sid in zip(path.node_ids, path.splits):\n                        if nid == node.id and sid == split:\n                            ns_constraint.SetCoefficient(xp_var, 1)\n\n        "))),
    ("x-ns-path", None, inc(M, ("        for leaf in self.leaves_:\n            nodes = leaf.left_nodes + leaf.right_nodes\n            for node_id in nodes:\n                node = self.nodes_[node_id]\n                for split in node.candidate_splits:\n\n                    ns_constraint = self.ns_constraints_[\n                        leaf.id][node.id][split]\n\n                    for i in range(len(path.node_ids)):\n                        if path.leaf_id == leaf.id\\\n                            and path.node_ids[i] == node.id \\\n                                and path.splits[i] == split:\n                            ns_constraint.SetCoefficient(xp_var, 1)\n\n", "        for node_id, split_id in zip(path.node_ids, path.splits):\n            self.ns_constraints_[path.leaf_id][node_id][split_id].SetCoefficient(xp_var, 1)\n\n"))),
    ("x-duals-none", None, inc(M, ("                if self.added_row[r]:\n                    row_duals.append(self.row_cons_[r].dual_value())\n                else:\n                    row_duals.append(0)\n", "                cons = self.row_cons_[r]\n                row_duals.append(cons.dual_value() if cons is not None else 0)\n"))),
    ("x-duals-comp", None, inc(M, ("            for lid in range(len(self.leaves_)):\n                leaf_duals.append(self.leaf_cons_[lid].dual_value())\n", "            leaf_duals = [c.dual_value() for c in self.leaf_cons_]\n"))),
    ("x-duals-late", None, inc(M, ("            for r in range(n_rows):\n                if self.added_row[r]:\n                    row_duals.append(self.row_cons_[r].dual_value())\n                else:\n                    row_duals.append(0)\n", "            row_duals = [0] * n_rows\n            for r in range(n_rows):\n                if self.added_row[r]:\n                    row_duals[r] = self.row_cons_[r].dual_value()\n"))),
    ("x-ns-helper", None, inc(M, ("            for leaf in self.leaves_:\n                ns_duals[leaf.id] = {}\n                nodes = leaf.left_nodes + leaf.right_nodes\n                for node_id in nodes:\n                    node = self.nodes_[node_id]\n                    ns_duals[leaf.id][node.id] = {}\n                    for split in node.candidate_splits:\n                        ns_duals[leaf.id][node.id][split] = \\\n                            self.ns_constraints_[\n                            leaf.id][node.id][split].dual_value()\n", "            for leaf_id, per_node in self.ns_constraints_.items():\n                ns_duals[leaf_id] = {}\n                for node_id, per_split in per_node.items():\n                    ns_duals[leaf_id][node_id] = {}\n                    for split_id, cons in per_split.items():\n                        ns_duals[leaf_id][node_id][split_id] = cons.dual_value()\n"))),
    ("x-ns-dictcomp", None, inc(M, ("                    ns_duals[leaf.id][node.id] = {}\n                    for split in node.candidate_splits:\n                        ns_duals[leaf.id][node.id][split] = \\\n                            self.ns_constraints_[\n                            leaf.id][node.id][split].dual_value()\n", "                    ns_duals[leaf.id][node.id] = {\n                        split: self.ns_constraints_[leaf.id][node.id][split].dual_value()\n                        for split in node.candidate_splits}\n"))),
    ("x-sum", None, inc(M, ("        path_sum = 0.0\n        for path_id in satisfied_path_ids:\n            path_sum += self.path_solution_values[path_id]\n", "        path_sum = sum(self.path_solution_values[p] for p in satisfied_path_ids)\n"))),
    ("x-return-test", None, inc(M, ("        if abs(path_sum - 1) > 1e-6:\n            return True\n        return False\n", "        return abs(path_sum - 1) > 1e-6\n"))),
    ("x-beta-helper", None, inc(M, ("                self.row_cons_[r] = self.solver_.Constraint(\n                    -infinity, 1, \"row_\"+str(r))\n                for path_id in satisfied_path_ids:\n                    xp_var = self.solver_.variable(path_id)\n                    self.row_cons_[r].SetCoefficient(xp_var, 1)\n        return num_cuts\n", "                self._add_row(r, satisfied_path_ids)\n        return num_cuts\n\n    def _add_row(self, r, path_ids):\n        cons = self.solver_.Constraint(\n            -self.solver_.infinity(), 1, \"row_\"+str(r))\n        for path_id in path_ids:\n            cons.SetCoefficient(self.solver_.variable(path_id), 1)\n        self.row_cons_[r] = cons\n"))),
    ("x-ip-half", None, inc(M, ("            if path_var.solution_value() > 0:", "            if path_var.solution_value() > 0.5:"))),
    ("x-ip-comp", None, inc(M, ("        all_vars = solver.variables()\n", ""))),
    ("x-sorted-rows", None, inc(M, ("        for r in satisfied_rows:\n            self.data", "        for r in sorted(satisfied_rows):\n            self.data"))),
    ("x-rows-if", None, inc(M, ("            if not self.added_row[r]:\n                continue\n            self.row_cons_[r].SetCoefficient(xp_var, 1)\n\n", "            if self.added_row[r]:\n                self.row_cons_[r].SetCoefficient(xp_var, 1)\n\n"))),
    ("x-var-handle", None, inc(M, ("                for path_id in satisfied_path_ids:\n                    xp_var = self.solver_.variable(path_id)\n                    self.row_cons_[r]", "                row = self.row_cons_[r]\n                for path_id in sorted(satisfied_path_ids):\n                    xp_var = self.solver_.variable(path_id)\n                    row"))),
    ("x-cut-model-first", None, inc(M, ("        satisfied_cuts = get_satisfied_cuts(\n            path, self.leaves_[path.leaf_id], self.splits_)\n        for c in satisfied_cuts:\n            self.cut_cons_[c].SetCoefficient(xp_var, 1)\n", "        leaf = self.leaves_[path.leaf_id]\n        for c in get_satisfied_cuts(path, leaf, self.splits_):\n            cut = self.cut_cons_[c]\n            cut.SetCoefficient(xp_var, 1)\n"))),
    ("x-literals-helper", None, inc(M, ("        literals = []\n        split_ids = path.splits\n        node_ids = path.node_ids\n        leaf = self.leaves_[path.leaf_id]\n        for j in range(len(node_ids)):\n            split_id = split_ids[j]\n            if node_ids[j] in leaf.left_nodes:\n                literals.append(self.cut_split_vars_[split_id])\n            else:  # Right node in the path\n                literals.append(self.cut_split_vars_[split_id].Not())\n        negated_literals = [x.Not() for x in literals]\n\n", "        leaf = self.leaves_[path.leaf_id]\n        literals = [self.cut_split_vars_[s] if n in leaf.left_nodes else self.cut_split_vars_[s].Not()\n                    for n, s in zip(path.node_ids, path.splits)]\n        negated_literals = [x.Not() for x in literals]\n\n"))),
    ("x-status-early", None, inc(M, ("        leaf_duals = []\n        row_duals = []\n        cut_duals = []\n        ns_duals = {}\n        if self.rmp_result_status == pywraplp.Solver.OPTIMAL:\n            self.store_lp_solution()\n", "        leaf_duals = []\n        row_duals = []\n        cut_duals = []\n        ns_duals = {}\n        optimal = self.rmp_result_status == pywraplp.Solver.OPTIMAL\n        if optimal:\n            self.store_lp_solution()\n"))),
    ("x-solution-comp", None, inc(M, ("        self.path_solution_values = {}\n        for xp_var_id in self.path_vars_:\n            xp_var = self.solver_.variable(xp_var_id)\n            self.path_solution_values[xp_var_id] = xp_var.solution_value()\n", "        self.path_solution_values = {\n            v: self.solver_.variable(v).solution_value() for v in self.path_vars_}\n"))),
]
