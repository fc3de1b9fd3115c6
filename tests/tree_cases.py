"""Variants of tree geometry and row preprocessing."""
from tests.dt_cases import F, e, inc
IDS = ["D01", "D15"]

PRE = "DTreeMasterProblem"
L = "class Leaf"


def pre(*p):
    return inc("DTreeMasterProblem", *p)


CASES = [
    ("g-leaf-swap", {"D01"}, inc("Leaf", ("self.right_nodes.append(father)", "self.left_nodes.append(father)"))),
    ("g-offset", {"D01"}, inc("Leaf", ("2**(depth) - 1 + id", "2**(depth) + id"))),
    ("g-root-missed", {"D01"}, inc("Leaf", ("while (count > 0)", "while (count > 2)"))),
    ("g-path-parent", {"D01"}, inc("Path", ("(count-1) / 2", "count / 2"))),
    ("n-parent", {"D01"}, pre(("math.floor((node.id-1) / 2)", "math.floor(node.id / 2)"))),
    ("n-right", {"D01"}, pre(("node.right_child = 2 * node.id + 2", "node.right_child = 2 * node.id + 1"))),
    ("n-leaf-late", {"D01"}, pre(("if node.left_child >= 2**depth - 1:", "if node.left_child > 2**depth - 1:"))),
    ("n-right-unshifted", {"D01"}, pre(("                node.right_child -= (2**(depth) - 1)\n", ""))),
    ("r-two-leaves", {"D15"}, pre(("if len(data_row.reachable_leaves) <= 2:", "if len(data_row.reachable_leaves) <= 3:"))),
    ("r-fewer", None, pre(("if len(data_row.reachable_leaves) <= 2:", "if len(data_row.reachable_leaves) <= 1:"))),
    ("r-mismatch-last", None, pre(("                        found_mismatch_split = True\n                        break\n",
                                      "                        found_mismatch_split = True\n                        break\n                    found_mismatch_split = False\n"))),
    ("r-nodes-not-compared", None, pre(("                if data_rows[r1].reachable_nodes != \\\n                        data_rows[r2].reachable_nodes:\n                    continue\n\n", ""))),
    ("r-nodes-len", None, pre(("if data_rows[r1].reachable_nodes != \\\n                        data_rows[r2].reachable_nodes:", "if len(data_rows[r1].reachable_nodes) != len(data_rows[r2].reachable_nodes):"))),
    ("r-one-split", {"D15"}, pre(("                        valid_splits.add(split_id)\n", "                        valid_splits.add(split_id)\n                        break\n"))),
    ("r-earlier-removed", None, pre(("            if data_rows[r1].removed_from_master:\n                continue\n", ""))),
    ("r-reach-left-only", {"D15"}, pre(("                        else:\n                            if node.children_are_leaves:", "                        elif not data_row.reachable_leaves:\n                            if node.children_are_leaves:"))),
    ("r-root-candidates", None, pre(("valid_splits = set()\n", "valid_splits = set()\n                if not data_rows[r1].reachable_leaves:\n                    break\n"))),
    ("r-weight", {"D15"}, pre(("                    data_rows[r2].removed_from_master = True\n", "                    data_rows[r2].removed_from_master = True\n                    data_rows[r2].removed_from_sp = self.y_[r1] == self.y_[r2]\n"))),
    ("r-weight-ok", None, pre(("                    data_rows[r2].removed_from_master = True\n", "                    data_rows[r2].removed_from_master = True\n                    if self.y_[r1] == self.y_[r2]:\n                        data_rows[r2].removed_from_sp = True\n                        data_rows[r1].weight += 1\n"))),
    # ---- refactorings
    ("q-int-div", None, pre(("math.floor((node.id-1) / 2)", "(node.id - 1) // 2"))),
    ("q-root-test", None, pre(("if node.parent == -1 or", "if node.id == 0 or"))),
    ("q-helper", None, pre(("    def preprocess_rows(self,", """    def _place(self, node, inner):
        node.parent = -1 if node.id == 0 else (node.id - 1) // 2
        left = 2 * node.id + 1
        leafy = left >= inner
        if leafy:
            left -= inner
            node.children_are_leaves = True
        node.left_child, node.right_child = left, left + 1

    def preprocess_rows(self,"""),
        ("            if node.id == 0:\n                node.parent = -1\n            else:\n                node.parent = math.floor((node.id-1) / 2)\n", ""),
        ("            node.left_child = 2 * node.id + 1\n            node.right_child = 2 * node.id + 2\n            if node.left_child >= 2**depth - 1:\n                node.left_child -= (2**(depth) - 1)\n                node.right_child -= (2**(depth) - 1)\n                node.children_are_leaves = True\n", "            self._place(node, 2**depth - 1)\n"))),
    ("q-child-first", None, pre(("""                        if split_id in data_row.left_splits:
                            if node.children_are_leaves:
                                data_row.reachable_leaves.add(
                                    node.left_child)
                            else:
                                data_row.reachable_nodes.add(
                                    node.left_child)
                        else:
                            if node.children_are_leaves:
                                data_row.reachable_leaves.add(
                                    node.right_child)
                            else:
                                data_row.reachable_nodes.add(
                                    node.right_child)
""", """                        child = node.right_child
                        if split_id in data_row.left_splits:
                            child = node.left_child
                        reached = data_row.reachable_nodes
                        if node.children_are_leaves:
                            reached = data_row.reachable_leaves
                        reached.add(child)
"""))),
    ("q-any", None, pre(("""                found_mismatch_split = False
""", ""), ("""                for split_id in valid_splits:
                    left_membership_r1 = split_id in data_rows[r1].left_splits
                    left_membership_r2 = split_id in data_rows[r2].left_splits
                    if left_membership_r1 != left_membership_r2:
                        found_mismatch_split = True
                        break
""", """                found_mismatch_split = any(
                    (s in data_rows[r1].left_splits) != (s in data_rows[r2].left_splits)
                    for s in valid_splits)
"""))),
    ("q-list-comp", None, pre(("            for split in self.splits_:\n                feature = split.feature\n                threshold = split.threshold\n                if self.X_[r, feature] <= threshold:\n                    data_row.left_splits.add(split.id)\n                else:\n                    data_row.right_splits.add(split.id)\n",
      "            data_row.left_splits = {s.id for s in self.splits_ if self.X_[r, s.feature] <= s.threshold}\n            data_row.right_splits = {s.id for s in self.splits_} - data_row.left_splits\n"))),
    ("q-leaf-mod", None, inc("Leaf", ("count % 2 == 0", "not count % 2"))),
]
