"""Variants of path generation (D12, D13)."""
from tests.dt_cases import F, e, inc, SAT
IDS = ["D12", "D13"]
MIP, OLD, GEN, HEU = "DTreeSubProblem(", "DTreeSubProblemOld", "PathGenerator", "DTreeSubProblemHeuristic"
CASES = [
    ("m-threshold", {"D12"}, inc(MIP, ("self.solver_.Objective().Value() <= 1e-6", "self.solver_.Objective().Value() < -1e-6"))),
    ("m-abs", {"D12"}, inc(MIP, ("self.solver_.Objective().Value() <= 1e-6", "abs(self.solver_.Objective().Value()) <= 1e-6"))),
    ("m-optimal-only", None, inc(MIP, ("        if self.solver_.Objective().Value() <= 1e-6:", "        value = self.solver_.Objective().Value()\n        if not value > 1e-6:"))),
    ("m-higher-tolerance", None, inc(MIP, ("self.solver_.Objective().Value() <= 1e-6", "self.solver_.Objective().Value() <= 1e-4"))),
    ("m-target-index", {"D13"}, inc(MIP, ("path.target = target\n", "path.target = self.targets_[0]\n"))),
    ("m-cost-y", {"D13"}, inc(MIP, ("            z_var = self.solver_.variable(self.z_vars_[i])\n\n            path.cost", "            z_var = self.solver_.variable(self.y_vars_[i])\n\n            path.cost"))),
    ("m-cost-unweighted", {"D13"}, inc(MIP, ("path.cost += obj_coeff * z_var.solution_value()", "path.cost += z_var.solution_value()"))),
    ("m-cost-objective", {"D13"}, inc(MIP, ("        return [path]", "        path.cost = self.solver_.Objective().Value()\n        return [path]"))),
    ("m-left-only", {"D13"}, inc(MIP, ("        nodes = self.leaf_.left_nodes + self.leaf_.right_nodes\n        path = Path()", "        nodes = self.leaf_.left_nodes or self.leaf_.right_nodes\n        path = Path()"))),
    ("m-split-pos", {"D13"}, inc(MIP, ("            for split in node.candidate_splits:\n                u_var = self.solver_.variable(self.u_vars_[node.id][split])\n                if u_var.solution_value() > 0.5:\n                    path.splits.append(split)", "            for pos, split in enumerate(node.candidate_splits):\n                u_var = self.solver_.variable(self.u_vars_[node.id][split])\n                if u_var.solution_value() > 0.5:\n                    path.splits.append(pos)"))),
    ("m-objective-sign", {"D12"}, inc(MIP, ("objective.SetOffset(-leaf_dual)", "ALL:objective.SetOffset(leaf_dual)"))),
    ("m-leafid", {"D13"}, inc(MIP, ("path.leaf_id = self.leaf_id_", "path.leaf_id = self.leaf_.left_nodes[0] if self.leaf_.left_nodes else self.leaf_id_"))),
    ("o-threshold", {"D12"}, inc(OLD, ("Value() <= 1e-6", "Value() < -1e-6"))),
    ("o-target", {"D13"}, inc(OLD, ("path.target = self.target_", "path.target = 0"))),
    ("g-dup", {"D12"}, inc(GEN, ("        if original_objective <= 1e-6:\n            return\n", "        if original_objective <= 1e-6 and self.paths:\n            return\n"))),
    ("g-no-u", {"D12"}, inc(GEN, ("                original_objective += self.orig_obj_coeffs[u_var] * \\\n                    self.Value(u_var)\n", "                if self.orig_obj_coeffs[u_var] > 0:\n                    original_objective += self.orig_obj_coeffs[u_var] * \\\n                        self.Value(u_var)\n"))),
    ("g-target-none", {"D13"}, inc(GEN, ("                path.target = target\n                break\n", "                path.target = target if path_cost > 0 else -1\n                break\n"))),
    ("h-threshold", {"D12"}, inc(HEU, ("if reduced_cost > 1e-6:", "if reduced_cost >= 0:"))),
    ("h-neg", {"D12"}, inc(HEU, ("if reduced_cost > 1e-6:", "if abs(reduced_cost) > 1e-6:"))),
    ("h-leaf", {"D12"}, inc(HEU, ("reduced_cost -= leaves_dual[path.leaf_id]", "reduced_cost += leaves_dual[path.leaf_id]"))),
    ("h-cuts", {"D12"}, inc(HEU, ("            reduced_cost -= cut_duals[c]\n", "            reduced_cost -= max(cut_duals[c], 0)\n"))),
    ("h-ns", {"D12"}, inc(HEU, ("ns_duals[path.leaf_id][node_id][split_id]", "ns_duals[0][node_id][split_id]"))),
    ("h-ns-len", {"D12"}, inc(HEU, ("for i in range(len(path.node_ids)):", "for i in range(1, len(path.node_ids)):"))),
    ("h-removed-flag", {"D12"}, inc(HEU, ("                row_satisfies_path_array[row] = True\n                row_weight = 1\n", "                row_weight = 1\n"), ("                target = y[row]\n", "                row_satisfies_path_array[row] = True\n                target = y[row]\n"))),
    ("h-weight", {"D13"}, inc(HEU, ("                    possible_targets[target] = row_weight", "                    possible_targets[target] = 1"))),
    ("h-removed-counted", {"D13"}, inc(HEU, ("                    if self.data_rows[row].removed_from_sp:\n                        continue\n", ""))),
    ("h-target-none", {"D13"}, inc(HEU, ("best_target = self.targets_[0]", "best_target = -1"))),
    ("h-last-target", {"D13"}, inc(HEU, ("                    best_target = target\n            path.target", "                best_target = target\n            path.target"))),
    ("h-cost-rows", {"D13"}, inc(HEU, ("path.cost = best_target_count", "path.cost = len(satisfied_rows)"))),
    ("h-splits-all", {"D13"}, inc(HEU, ("chosen_split = random.choice(candidate_splits)", "chosen_split = random.choice(self.splits_).id"))),
    ("h-index", {"D13"}, inc(HEU, ("chosen_split = random.choice(candidate_splits)", "chosen_split = random.randrange(len(candidate_splits))"))),
    ("h-continue-partial", {"D13"}, inc(HEU, ("                    success = False\n                    break\n", "                    break\n"))),
    ("h-get", None, inc(HEU, ("                if target in possible_targets.keys():\n                    possible_targets[target] += row_weight\n                else:\n                    possible_targets[target] = row_weight\n", "                possible_targets[target] = possible_targets.get(\n                    target, 0) + row_weight\n"))),
    ("h-filter", None, inc(HEU, ("                candidate_splits = node.candidate_splits.copy()\n                for used_split in path.splits:\n                    if used_split in candidate_splits:\n                        candidate_splits.remove(used_split)\n", "                candidate_splits = [\n                    s for s in node.candidate_splits if s not in path.splits]\n"))),
    ("h-helper", None, inc(HEU, ("                target = y[row]\n                if", "                target = self._label(y, row)\n                if"), ("    def update_subproblem", "    def _label(self, y, row):\n        return y[row]\n\n    def update_subproblem"))),
    ("h-total", None, inc(HEU, ("        reduced_cost += path.cost\n", ""), ("        reduced_cost = 0\n", "        reduced_cost = path.cost\n"))),
    ("h-weight-first", None, inc(HEU, ("                    row_weight = self.data_rows[row].weight\n                    if self.data_rows[row].removed_from_sp:\n                        continue\n", "                    data_row = self.data_rows[row]\n                    if data_row.removed_from_sp:\n                        continue\n                    row_weight = data_row.weight\n"))),
    ("m-next", None, inc(MIP, ("            path.cost += obj_coeff * z_var.solution_value()\n", "            value = z_var.solution_value()\n            path.cost = path.cost + value * obj_coeff\n"))),
    ("g-target-helper", None, inc(GEN, ("        for target in self.targets:\n            w_var = self.w_vars[target]\n            if self.Value(w_var) > 0.5:\n                path.target = target\n                break\n", "        path.target = self._target(path)\n"), ("    def on_solution_callback", "    def _target(self, path):\n        for target in self.targets:\n            if self.Value(self.w_vars[target]) > 0.5:\n                return target\n        return path.target\n\n    def on_solution_callback"))),
]
