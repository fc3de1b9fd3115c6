F = "col_gen_estimator/_dtree_classifier.py"
IDS = ["D03", "D04", "D05", "D06", "D08", "D09", "D10", "D11"]


def e(*p):
    return [(F, a, b) for a, b in p]


def src():
    import os
    return open(os.path.join(os.environ.get("SA_REPO", "/repo"), F)).read()


def inc(cls, *p):
    """Edits inside one class (or function)."""
    t = src()
    i = t.index("\nclass %s" % cls if "def " not in cls else "\n" + cls)
    j = t.find("\nclass ", i + 5)
    old = t[i:j if j > 0 else len(t)]
    body = "\n".join(x for x in old.split("\n") if not x.strip().startswith("#"))
    for a, b in p:
        if a not in body:
            return [(F, "EDIT MISSING " + a[:50], "")]
        body = body.replace(a, b[4:]) if b.startswith("ALL:") else body.replace(a, b, 1)
    return [(F, old, body)]


SAT = "DTreeSubProblemSat"
CASES = [
    # ---- CP-SAT pricing
    ("s-orig-u-stale", {"D10", "D12"}, inc(SAT, ("                self.orig_obj_coeffs[u_var] = \\\n                    -ns_duals[self.leaf_id_][node.id][split]\n                obj_vars.append(u_var)\n                obj_coeffs.append(u_coeff)\n\n        obj = cp_model.LinearExpr.WeightedSum(obj_vars, obj_coeffs) - leaf_dual\n        self.model_.Maximize(obj)\n        return", "                obj_vars.append(u_var)\n                obj_coeffs.append(u_coeff)\n\n        obj = cp_model.LinearExpr.WeightedSum(obj_vars, obj_coeffs) - leaf_dual\n        self.model_.Maximize(obj)\n        return"))),
    ("s-orig-y-scaled", {"D10"}, inc(SAT, ("            self.orig_obj_coeffs[y_var] = -row_duals[i]\n            obj_vars", "            self.orig_obj_coeffs[y_var] = y_coeff\n            obj_vars"))),
    ("s-start-index", {"D10"}, inc(SAT, ("self.cut_rows_starting_index += n_cut_rows", "self.cut_rows_starting_index = n_cut_rows"))),
    ("s-z-no-class", {"D10"}, inc(SAT, ("self.w_vars_[correct_class]", "self.w_vars_[0]"))),
    ("s-le-lt", {"D10", "D02"}, inc(SAT, ("if self.X_[row, feature] <= threshold:", "if self.X_[row, feature] < threshold:"))),
    ("s-cut-side", {"D10"}, inc(SAT, ("if not cut_rows[i][split]:", "if cut_rows[i][split]:"))),
    ("s-depth", {"D10"}, inc(SAT, ("self.model_.Add(yc_lb_expr <= self.tree_depth_-1)", "self.model_.Add(yc_lb_expr <= self.tree_depth_)"))),
    ("s-no-lb", {"D10"}, inc(SAT, ("            self.model_.Add(y_lb_expr <= self.tree_depth_-1)\n", ""))),
    ("s-y-coeff-positive", {"D10"}, inc(SAT, ("y_coeff = self.scale_obj_coeff(-row_duals[i])", "y_coeff = self.scale_obj_coeff(abs(row_duals[i]))"))),
    ("s-clamped", {"D10"}, inc(SAT, ("return int(round(value * self.objective_scale))", "return int(round(max(value, -1) * self.objective_scale))"))),
    ("s-other-scale", None, inc(SAT, ("self.objective_scale = 100000", "self.objective_scale = 1000000"))),
    ("s-removed-row-skipped-late", None, inc(SAT, ("            if self.data_rows != None:\n                if self.data_rows[i].removed_from_sp:\n                    continue\n            self.model_.Add(self.z_vars_[i] <= self.y_vars_[i])", "            if self.z_vars_[i] is None:\n                continue\n            self.model_.Add(self.z_vars_[i] <= self.y_vars_[i])"))),
    ("s-shared-objective", None, inc(SAT, ("    def update_objective(self,", "    def _u(self, node, split, ns_duals):\n        u_var = self.u_vars_[node.id][split]\n        self.orig_obj_coeffs[u_var] = -ns_duals[self.leaf_id_][node.id][split]\n        return u_var\n\n    def update_objective(self,"), ("                u_var = self.u_vars_[node.id][split]\n                self.orig_obj_coeffs[u_var] = \\\n                    -ns_duals[self.leaf_id_][node.id][split]\n", "                u_var = self._u(node, split, ns_duals)\n"))),
    ("g-no-cuts", {"D10", "D12"}, inc("PathGenerator", ("        for yc_var in self.yc_vars:\n            original_objective += self.orig_obj_coeffs[yc_var] * \\\n                self.Value(yc_var)\n", ""))),
    ("g-ge-zero", {"D10", "D12"}, inc("PathGenerator", ("if original_objective <= 1e-6:", "if original_objective < 0:"))),
    ("g-cost-objective", {"D10", "D13"}, inc("PathGenerator", ("path.cost = path_cost", "path.cost = original_objective"))),
    ("g-leaf-dual-late", {"D10", "D12"}, inc("PathGenerator", ("        original_objective -= self.leaf_dual\n\n        self.original_objective = original_objective\n        if original_objective <= 1e-6:\n            return\n", "        self.original_objective = original_objective\n        if original_objective <= 1e-6:\n            return\n"))),
    ("g-left-only", {"D10", "D13"}, inc("PathGenerator", ("            path.node_ids.append(node.id)\n", "            if node.id in self.leaf.left_nodes or self.leaf.left_nodes == []:\n                path.node_ids.append(node.id)\n"))),
    ("g-target-last", None, inc("PathGenerator", ("                path.target = target\n                break\n", "                path.target = target\n"))),
    ("g-merged-loops", None, inc("PathGenerator", ("        for node_id in nodes:\n            node = self.nodes[node_id]\n            for split in node.candidate_splits:\n                u_var = self.u_vars[node.id][split]\n                original_objective += self.orig_obj_coeffs[u_var] * \\\n                    self.Value(u_var)\n", "        for node_id in nodes:\n            for split, u_var in self.u_vars[node_id].items():\n                original_objective += self.orig_obj_coeffs[u_var] * self.Value(u_var)\n"))),
    # ---- bugs, pricing (the first occurrence is DTreeSubProblem's)
    ("p-update-z-weight-dropped", {"D09"}, e(("                obj_coeff = self.data_rows[i].weight\n            z_var = self.solver_.variable(self.z_vars_[i])\n            objective.SetCoefficient(z_var, obj_coeff)", "            z_var = self.solver_.variable(self.z_vars_[i])\n            objective.SetCoefficient(z_var, obj_coeff)"))),
    ("p-update-no-offset", {"D09"}, e(("                objective.SetCoefficient(u_var, -ns_dual)\n\n        objective.SetOffset(-leaf_dual)\n        objective.SetMaximization()\n        return", "                objective.SetCoefficient(u_var, -ns_dual)\n\n        objective.SetMaximization()\n        return"))),
    ("p-cut-index", {"D09"}, e(("            cut_index = i + self.cut_rows_starting_index\n", "            cut_index = i\n"))),
    ("p-start-not-advanced", {"D09"}, e(("        self.cut_rows_starting_index += n_cut_rows\n", "        self.cut_rows_starting_index = n_cut_rows\n"))),
    ("p-removed-master", {"D09"}, e(("                if self.data_rows[i].removed_from_sp:\n                    continue\n            y_lb_cons", "                if self.data_rows[i].removed_from_master:\n                    continue\n            y_lb_cons"))),
    ("p-depth", {"D09"}, e(("-infinity, self.tree_depth_-1, \"row_\" + str(i))", "-infinity, self.tree_depth_, \"row_\" + str(i))"))),
    ("p-cut-depth", {"D09"}, e(("-infinity, self.tree_depth_-1, \"cut_\" + str(cut_index))", "-infinity, self.tree_depth_, \"cut_\" + str(cut_index))"))),
    ("p-cut-side", {"D09"}, e(("                        if not cut_rows[i][split]:", "                        if cut_rows[i][split]:"))),
    ("p-existing", {"D09"}, e(("                if i >= existing_cuts:", "                if i > existing_cuts:"))),
    ("p-old-wrong-class", {"D11"}, [(F, "self.y_[i] == self.target_", "ALL:self.y_[i] != self.target_")]),
    # ---- bugs, master
    ("m-cost-1", {"D04"}, e(("objective.SetCoefficient(xp_var, self.paths_[i].cost)", "objective.SetCoefficient(xp_var, self.paths_[i].cost + 1)"))),
    ("m-row-eq", {"D04"}, e(("r] = self.solver_.Constraint(-infinity, 1, \"row_\"+str(r))", "r] = self.solver_.Constraint(1, 1, \"row_\"+str(r))"))),
    ("m-vars-first", None, e(("        for i in range(len(self.paths_)):\n            xp_var = self.solver_.IntVar(0.0, infinity, 'p_'+str(i))\n            self.path_vars_[i] = xp_var.index()\n            self.paths_[i].id = xp_var.index()\n", "        for i, path in enumerate(self.paths_):\n            xp_var = self.solver_.IntVar(0.0, infinity, 'p_'+str(i))\n            path.id = self.path_vars_[i] = xp_var.index()\n"))),
    ("m-ns-not-shared", {"D04"}, e(("self.ns_vars[(node.id, split)] = ns_var_ind", "self.ns_vars[(leaf.id, split)] = ns_var_ind"))),
    ("m-add-no-reach", {"D05", "D06"}, e(("            self.data_rows[r].reachable_paths.add(path.id)\n            if not", "            if not"))),
    ("m-add-reach-late", {"D05", "D06"}, e(("            self.data_rows[r].reachable_paths.add(path.id)\n            if not self.added_row[r]:\n                continue\n", "            if not self.added_row[r]:\n                continue\n            self.data_rows[r].reachable_paths.add(path.id)\n"))),
    ("m-add-ns-any-leaf", {"D05"}, e(("                        if path.leaf_id == leaf.id\\\n                            and path.node_ids[i] == node.id \\\n", "                        if path.node_ids[i] == node.id \\\n"))),
    ("m-beta-violation", {"D06"}, e(("if abs(path_sum - 1) > 1e-6:", "if path_sum - 1 > 1e-6:"))),
    ("m-beta-removed", {"D06"}, e(("            if self.data_rows[r].removed_from_master:\n                continue\n            if num_cuts", "            if num_cuts"))),
    ("m-beta-limit-9", {"D06"}, e(("            if num_cuts >= 10:", "            if num_cuts > 10:"))),
    ("m-dual-removed", {"D08"}, e(("                if self.added_row[r]:\n                    row_duals", "                if self.added_row[r] and r > 0:\n                    row_duals"))),
    ("m-ns-dual-first-leaf", {"D08"}, e(("                            self.ns_constraints_[\n                            leaf.id][node.id][split].dual_value()", "                            self.ns_constraints_[\n                            0][node.id][split].dual_value()"))),
    ("m-rows-by-set", None, e(("            for path in self.paths_:\n                if row_satisfies_path(X[r], self.leaves_[path.leaf_id],\n                                      self.splits_, path):\n                    xp_var = self.solver_.variable(path.id)\n                    self.row_cons_[r].SetCoefficient(xp_var, 1)\n", "            for path in self.paths_:\n                follows = row_satisfies_path(self.X_[r], self.leaves_[path.leaf_id], self.splits_, path)\n                if not follows:\n                    continue\n                self.row_cons_[r].SetCoefficient(self.solver_.variable(path.id), 1)\n"))),
    ("m-get-rows-loop", None, e(("            self.row_cons_[r].SetCoefficient(xp_var, 1)\n\n        # consistency", "            cons = self.row_cons_[r]\n            cons.SetCoefficient(xp_var, 1)\n\n        # consistency"))),
    # ---- refactorings
    ("r-side-merged", None, e(("""                if node.id in self.leaf_.left_nodes:
                    for split in node.candidate_splits:
                        if self.row_satisfies_split(i, self.splits_[split]):
                            u_var = self.solver_.variable(
                                self.u_vars_[node.id][split])
                            rn_cons.SetCoefficient(u_var, -1)
                            y_lb_cons.SetCoefficient(u_var, 1)
                elif node.id in self.leaf_.right_nodes:
                    for split in node.candidate_splits:
                        if not self.row_satisfies_split(i,
                                                        self.splits_[split]):
                            u_var = self.solver_.variable(
                                self.u_vars_[node.id][split])
                            rn_cons.SetCoefficient(u_var, -1)
                            y_lb_cons.SetCoefficient(u_var, 1)
""", """                goes_left = node.id in self.leaf_.left_nodes
                for split in node.candidate_splits:
                    if bool(self.row_satisfies_split(i, self.splits_[split])) == goes_left:
                        u_var = self.solver_.variable(self.u_vars_[node.id][split])
                        rn_cons.SetCoefficient(u_var, -1)
                        y_lb_cons.SetCoefficient(u_var, 1)
"""))),
    ("r-helper-active", None, e(("""        for i in range(n_rows):
            if self.data_rows != None:
                if self.data_rows[i].removed_from_sp:
                    continue
            y_lb_cons""", """        for i in range(n_rows):
            if self._skips(i):
                continue
            y_lb_cons"""), ("""    def update_objective(self, leaf_dual, row_duals, ns_duals, cut_duals):
""", """    def _skips(self, i):
        return self.data_rows is not None and self.data_rows[i].removed_from_sp

    def update_objective(self, leaf_dual, row_duals, ns_duals, cut_duals):
"""))),
    ("r-cuts-enumerate", None, e(("""        if num_cuts > 0:
            for i in range(num_cuts):
                yc_var = None
                if i >= existing_cuts:
                    yc_var = self.solver_.BoolVar('yc_'+str(i))
                    self.yc_vars_.append(yc_var.index())
                else:
                    yc_var = self.solver_.variable(self.yc_vars_[i])
                cut_dual = cut_duals[i]
                objective.SetCoefficient(yc_var, -cut_dual)
""", """        for i in range(existing_cuts, num_cuts):
            self.yc_vars_.append(self.solver_.BoolVar('yc_'+str(i)).index())
        for i, cut_dual in enumerate(cut_duals):
            objective.SetCoefficient(self.solver_.variable(self.yc_vars_[i]), -cut_dual)
"""))),
    ("r-cut-start-from-len", None, e(("            cut_index = i + self.cut_rows_starting_index\n", "            cut_index = len(self.yc_vars_) - n_cut_rows + i\n"))),
    ("r-targets-enumerate", None, e(("""        for i in range(len(self.targets_)):
            target = self.targets_[i]
            w_var = self.solver_.BoolVar('w_' + str(target))
            self.w_vars_[i] = w_var.index()
            single_target_cons.SetCoefficient(w_var, 1)
""", """        for i, target in enumerate(self.targets_):
            w_var = self.solver_.BoolVar('w_' + str(target))
            self.w_vars_[i] = w_var.index()
            single_target_cons.SetCoefficient(w_var, 1)
"""))),
    ("r-two-loops", None, e(("""            self.z_vars_[i] = z_var.index()

            y_var = self.solver_.BoolVar('y_'+str(i))
""", """            self.z_vars_[i] = z_var.index()

        for i in range(n_rows):
            if self.data_rows != None and self.data_rows[i].removed_from_sp:
                continue
            y_var = self.solver_.BoolVar('y_'+str(i))
"""))),
    ("r-reset-objective", None, e(("        objective = self.solver_.Objective()\n        n_rows = self.X_.shape[0]\n        for i in range(n_rows):\n            obj_coeff = 1\n            if self.data_rows != None:\n                if self.data_rows[i].removed_from_sp:\n                    continue\n                obj_coeff = self.data_rows[i].weight\n            z_var = self.solver_.variable(self.z_vars_[i])\n            objective.SetCoefficient(z_var, obj_coeff)\n", "        objective = self.solver_.Objective()\n        n_rows = self.X_.shape[0]\n        for i in range(n_rows):\n            if self.data_rows != None:\n                if self.data_rows[i].removed_from_sp:\n                    continue\n"))),
    ("r-vars-kept", None, e(("        nodes = self.leaf_.left_nodes + self.leaf_.right_nodes\n        for node_id in nodes:\n            node = self.nodes_[node_id]\n            for split in node.candidate_splits:\n                u_var = self.solver_.variable(self.u_vars_[node.id][split])\n                ns_dual", "        for node_id, us in self.u_vars_.items():\n            node = self.nodes_[node_id]\n            for split, index in us.items():\n                u_var = self.solver_.variable(index)\n                ns_dual"))),
    ("r-cost-sum", None, e(("""        for i in range(n_rows):
            obj_coeff = 1
            if self.data_rows != None:
                if self.data_rows[i].removed_from_sp:
                    continue
                obj_coeff = self.data_rows[i].weight
            z_var = self.solver_.variable(self.z_vars_[i])

            path.cost += obj_coeff * z_var.solution_value()
""", """        path.cost = sum((1 if self.data_rows is None else self.data_rows[i].weight)
                        * self.solver_.variable(self.z_vars_[i]).solution_value()
                        for i in range(n_rows) if self.z_vars_[i] is not None)
"""))),
]
