"""Variants of threshold comparisons."""
from tests.dt_cases import F, e, inc, SAT
IDS = ["D02"]
CASES = [
    ("t-mip", {"D02"}, inc("DTreeSubProblem(", ("if self.X_[row, feature] <= threshold:", "if self.X_[row, feature] < threshold:"))),
    ("t-old", {"D02"}, inc("DTreeSubProblemOld", ("if self.X_[row, feature] <= threshold:", "if self.X_[row, feature] < threshold:"))),
    ("t-sat", {"D02"}, inc(SAT, ("if self.X_[row, feature] <= threshold:", "if self.X_[row, feature] < threshold:"))),
    ("t-swap", {"D02"}, inc(SAT, ("if self.X_[row, feature] <= threshold:", "if self.X_[row, feature] > threshold:"))),
    ("t-tol", {"D02"}, inc(SAT, ("if self.X_[row, feature] <= threshold:", "if self.X_[row, feature] <= threshold + 1e-9:"))),
    ("t-path", {"D02"}, inc("def row_satisfies_path", ("if X_row[feature] <= threshold:", "if X_row[feature] < threshold:"))),
    ("t-path2", {"D02"}, inc("def row_satisfies_path", ("if X_row[feature] > threshold:", "if X_row[feature] >= threshold:"))),
    ("t-pre", {"D02"}, inc("DTreeMasterProblem", ("if self.X_[r, feature] <= threshold:", "if self.X_[r, feature] < threshold:"))),
    ("t-inline", {"D02"}, inc(SAT, ("if not self.row_satisfies_split(", "if self.X_[i, self.splits_[split].feature] >= self.splits_[split].threshold or False and ("))),
    ("t-cons-other", None, inc(SAT, ("self.model_.Add(y_lb_expr <= self.tree_depth_-1)", "self.model_.Add(y_lb_expr <= self.tree_depth_)"))),
    ("t-ret", None, inc(SAT, ("        if self.X_[row, feature] <= threshold:\n            return True\n        return False\n", "        return not self.X_[row, feature] > threshold\n"))),
    ("t-diff", None, inc(SAT, ("if self.X_[row, feature] <= threshold:", "if threshold - self.X_[row, feature] >= 0:"))),
    ("t-lt-eq", None, inc(SAT, ("if self.X_[row, feature] <= threshold:", "if self.X_[row, feature] < threshold or self.X_[row, feature] == threshold:"))),
]
