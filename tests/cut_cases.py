"""Variants of cut generation (D07, D08)."""
from tests.dt_cases import F, inc
IDS = ["D07", "D08"]
MST, CUT = "DTreeMasterProblem", "CutGenerator"
CASES = [
    ("c-side", {"D07"}, inc(MST, ("                if node_ids[j] in leaf.left_nodes:\n                    literals.append(self.cut_split_vars_[split_id])", "                if node_ids[j] not in leaf.right_nodes[:1]:\n                    literals.append(self.cut_split_vars_[split_id])"))),
    ("c-half-model", {"D07"}, inc(MST, ("            self.cut_gen_model_.AddBoolOr(\n                negated_literals).OnlyEnforceIf(self.cut_path_vars_[i].Not())\n", ""))),
    ("c-first-literal", {"D07"}, inc(MST, ("            self.cut_gen_model_.AddBoolOr(\n                negated_literals)", "            self.cut_gen_model_.AddBoolOr(\n                negated_literals[:1])"))),
    ("c-implication", {"D07"}, inc(MST, ("if threshold_i < threshold_j:\n                    self.cut_gen_model_.AddImplication(\n                        split_i_var, split_j_var)", "if threshold_i < threshold_j:\n                    self.cut_gen_model_.AddImplication(\n                        split_j_var, split_i_var)"))),
    ("c-any-feature", {"D07"}, inc(MST, ("                if split_i.feature != split_j.feature:\n                    continue\n", ""))),
    ("c-adjacent", {"D07"}, inc(MST, ("for j in range(i+1, len(self.splits_)):", "for j in range(i+1, min(i+2, len(self.splits_))):"))),
    ("c-added-half", {"D07"}, inc(MST, ("        self.cut_gen_model_.AddBoolOr(\n            negated_literals).OnlyEnforceIf(new_cut_path_var.Not())\n", ""))),
    ("c-added-side", {"D07"}, inc(MST, ("            else:  # Right node in the path\n                literals.append(self.cut_split_vars_[split_id].Not())\n        negated", "            else:  # Right node in the path\n                literals.append(self.cut_split_vars_[split_id])\n        negated"))),
    ("g-ge-one", {"D07"}, inc(CUT, ("orig_obj > 1 + 1e-6", "orig_obj > 1 - 1e-6"))),
    ("g-weaker", None, inc(CUT, ("orig_obj > 1 + 1e-6", "not orig_obj <= 1 + 1e-6"))),
    ("g-count", {"D07"}, inc(CUT, ("orig_obj += self.orig_path_coeffs[i]", "orig_obj += 1"))),
    ("g-shared-row", {"D07"}, inc(CUT, ("            self.cut_rows.append(cut_row)", "            self.cut_rows.append(cut)"))),
    ("g-only-active", {"D07"}, inc(CUT, ("                cut[i] = True\n", "                cut[i] = self.orig_path_coeffs[i] > 0\n"))),
    ("g-helper", None, inc(CUT, ("        for i in range(len(self.split_vars)):\n            v = self.split_vars[i]\n            if self.Value(v) > 0:\n                cut_row[i] = True\n", "        cut_row = self._row()\n"), ("    def cuts(self):", "    def _row(self):\n        row = []\n        for v in self.split_vars:\n            row.append(self.Value(v) > 0)\n        return row\n\n    def cuts(self):"))),
    ("a-index", {"D07"}, inc(MST, ("cut_index = num_existing_cuts + i", "cut_index = i"))),
    ("a-index-moved", None, inc(MST, ("        for i, cut_row in enumerate(cut_rows):\n            cut_index = num_existing_cuts + i\n", "        cut_index = num_existing_cuts - 1\n        for cut_row in cut_rows:\n            cut_index += 1\n"))),
    ("a-right-missing", {"D07"}, inc(MST, ("                else:\n                    split.right_cuts.add(cut_index)\n", "                elif not split.removed:\n                    split.right_cuts.add(cut_index)\n"))),
    ("a-swapped", {"D07"}, inc(MST, ("                if cut_row[split.id]:\n                    split.left_cuts.add(cut_index)\n                else:\n                    split.right_cuts.add(cut_index)\n", "                if not cut_row[split.id]:\n                    split.left_cuts.add(cut_index)\n                else:\n                    split.right_cuts.add(cut_index)\n"))),
    ("a-inequality", {"D07"}, inc(MST, ("                1, 1, \"cut_\"+str(r)))", "                -self.solver_.infinity(), 1, \"cut_\"+str(r)))"))),
    ("a-initial-only", {"D07"}, inc(MST, ("                if cut[i]:\n                    xp_var", "                if cut[i] and self.path_solution_values[path.id] > 0:\n                    xp_var"))),
    ("a-path-number", {"D07"}, inc(MST, ("                    xp_var = self.solver_.variable(path.id)\n                    self.cut_cons_", "                    xp_var = self.solver_.variable(i)\n                    self.cut_cons_"))),
    ("a-row-last", None, inc(MST, ("                    self.cut_cons_[r].SetCoefficient(xp_var, 1)\n\n        return cut_rows", "                    self.cut_cons_[-1].SetCoefficient(xp_var, 1)\n\n        return cut_rows"))),
    ("a-local-row", None, inc(MST, ("            self.cut_cons_.append(self.solver_.Constraint(\n                1, 1, \"cut_\"+str(r)))", "            row = self.solver_.Constraint(1, 1, \"cut_\" + str(r))\n            self.cut_cons_.append(row)"), ("                    self.cut_cons_[r].SetCoefficient(xp_var, 1)\n\n        return cut_rows", "                    row.SetCoefficient(xp_var, 1)\n\n        return cut_rows"))),
    ("a-one-loop", None, inc(MST, ("        for i, cut_row in enumerate(cut_rows):\n            cut_index = num_existing_cuts + i\n            for split in self.splits_:\n                if cut_row[split.id]:", "        for i in range(len(cut_rows)):\n            cut_index = i + num_existing_cuts\n            for split in self.splits_:\n                if cut_rows[i][split.id]:"))),
    ("a-return-all", {"D07"}, inc(MST, ("        return cut_rows\n", "        return cut_rows[:1]\n"))),
    ("s-returned-last", {"D08"}, inc(MST, ("                            newly_added_cuts.extend(cut_rows)", "                            newly_added_cuts = cut_rows"))),
    ("s-no-resolve", {"D08"}, inc(MST, ("if (len(cut_rows) > 0) or num_beta_cuts > 0:", "if len(cut_rows) > 0 or num_beta_cuts > 1:"))),
    ("s-cut-duals-first", {"D08"}, inc(MST, ("            for cut_cons in self.cut_cons_:\n                cut_duals.append(cut_cons.dual_value())\n", "            for cut_cons in self.cut_cons_:\n                if cut_cons.dual_value() != 0:\n                    cut_duals.append(cut_cons.dual_value())\n"))),
    ("s-status-kept", {"D08"}, inc(MST, ("                        self.rmp_result_status = self.solver_.Solve(\n                            cuts_params)", "                        self.solver_.Solve(\n                            cuts_params)"))),
    ("s-duals-reversed", {"D08"}, inc(MST, ("            for cut_cons in self.cut_cons_:\n", "            for cut_cons in reversed(self.cut_cons_):\n"))),
    ("s-extend-plus", None, inc(MST, ("                        if len(cut_rows) > 0:\n                            newly_added_cuts.extend(cut_rows)", "                        newly_added_cuts += cut_rows"))),
    ("s-comp-duals", None, inc(MST, ("            for cut_cons in self.cut_cons_:\n                cut_duals.append(cut_cons.dual_value())\n", "            cut_duals = [c.dual_value() for c in self.cut_cons_]\n"))),
]
