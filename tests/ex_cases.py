X = "examples/dtree_experiment.py"
IDS = ["E01", "E02", "E03", "E04", "C10"]


def r(*pairs):
    return [(X, a, b) for a, b in pairs]


SAT = """    for i in range(len(node_ids)):
        split = splits[split_ids[i]]
        feature = split.feature
        threshold = split.threshold
        if node_ids[i] in leaf.left_nodes:
            if X[row, feature] > threshold:
                return False
        else:  # Right node in the path
            if X[row, feature] <= threshold:
                return False
    return True
"""
REACH = """                for split_id in node.candidate_splits:
                    if split_id in data_row.left_splits:
                        if node.children_are_leaves:
                            data_row.reachable_leaves.add(
                                node.left_child)
                        else:
                            data_row.reachable_nodes.add(
                                node.left_child)
                    else:
                        if node.children_are_leaves:
                            data_row.reachable_leaves.add(
                                node.right_child)
                        else:
                            data_row.reachable_nodes.add(
                                node.right_child)
"""
CASES = [
    # ---- bugs
    ("opt-iter", {"E01"}, r(("            max_iterations = int(arg)", "            max_iterations = int(arg) + 1"))),
    ("opt-depth", {"E01"}, r(("                          tree_depth=experiment_max_depth,", "                          tree_depth=2,"))),
    ("opt-header", {"E01"}, r(("            if header < 0:\n                header = None\n", "            if header <= 0:\n                header = None\n"))),
    ("opt-swap", {"E01"}, r(('elif opt in ("-t", "--test_file"):\n            test_file = arg', 'elif opt in ("-t", "--test_file"):\n            train_file = arg'))),
    ("opt-sep-late", {"E01"}, r(("    test_df = pd.read_csv(test_file, sep=sep, header=header)", "    test_df = pd.read_csv(test_file, sep=',', header=header)"))),
    ("lim-abs", {"E02"}, r(("time_limit - preprocessing_time", "abs(time_limit - preprocessing_time)"))),
    ("lim-zero", {"E02"}, r(("time_limit - preprocessing_time", "max(time_limit - preprocessing_time, 0)"))),
    ("lim-third", {"E02"}, r(("time_limit - preprocessing_time", "max(time_limit - preprocessing_time_limit, 1)"))),
    ("quota-zero", {"E03"}, r(("q_node = int(100 / max_num_nodes)", "q_node = int(10 / max_num_nodes)"))),
    ("quota-root", {"E03"}, r(("q_root = int(150 / max_num_nodes)", "q_root = int(150 / max_num_nodes) - 1"))),
    ("sat-strict", {"E04"}, r(("            if X[row, feature] > threshold:", "            if X[row, feature] >= threshold:"))),
    ("side-strict", {"E04"}, r(("            if X[r, feature] <= threshold:\n                split.left_rows", "            if X[r, feature] < threshold:\n                split.left_rows"))),
    ("reach-three", {"E04"}, r(("        if len(data_row.reachable_leaves) <= 2:", "        if len(data_row.reachable_leaves) <= 3:"))),
    ("reach-sp", {"E04"}, r(("            data_row.removed_from_master = True\n            removed_count_master += 1\n\n        data_rows", "            data_row.removed_from_master = True\n            data_row.removed_from_sp = True\n            removed_count_master += 1\n\n        data_rows"))),
    ("target-y0", {"E04"}, r(("        data_row.target = y[r]", "        data_row.target = y[0]"))),
    # ---- refactorings
    ("x-sat-all", None, r((SAT, "    def ok(i):\n        split = splits[split_ids[i]]\n        left = X[row, split.feature] <= split.threshold\n        return left == (node_ids[i] in leaf.left_nodes)\n    return all(ok(i) for i in range(len(node_ids)))\n"))),
    ("x-sat-zip", None, r((SAT, "    for node_id, split_id in zip(node_ids, split_ids):\n        s = splits[split_id]\n        goes_left = not X[row, s.feature] > s.threshold\n        if goes_left != (node_id in leaf.left_nodes):\n            return False\n    return True\n"))),
    ("x-side-swap", None, r(("    for r in range(n_rows):\n        for split in splits:\n            feature = split.feature\n            threshold = split.threshold\n", "    for split in splits:\n        feature = split.feature\n        threshold = split.threshold\n        for r in range(n_rows):\n"))),
    ("x-side-helper", None, r(("            if X[r, feature] <= threshold:\n                split.left_rows.add(r)\n            else:\n                split.right_rows.add(r)\n", "            side = split.left_rows if X[r, feature] <= threshold else split.right_rows\n            side.add(r)\n"))),
    ("x-reach", None, r((REACH, "                target = (data_row.reachable_leaves if node.children_are_leaves\n                          else data_row.reachable_nodes)\n                for split_id in node.candidate_splits:\n                    if split_id in data_row.left_splits:\n                        target.add(node.left_child)\n                    else:\n                        target.add(node.right_child)\n"))),
    ("x-reach-child", None, r((REACH, "                for split_id in node.candidate_splits:\n                    child = node.left_child if split_id in data_row.left_splits else node.right_child\n                    if node.children_are_leaves:\n                        data_row.reachable_leaves.add(child)\n                    else:\n                        data_row.reachable_nodes.add(child)\n"))),
    ("x-parent", None, r(("            node.parent = math.floor((node.id-1) / 2)", "            node.parent = (node.id - 1) // 2"))),
    ("x-quota-fn", None, r(("    q_root = max(1, int(150 / max_num_nodes))\n    q_node = max(1, int(100 / max_num_nodes))\n", "    def quota(total):\n        return max(1, total // max_num_nodes)\n\n    q_root, q_node = quota(150), quota(100)\n"))),
    ("x-lim-if", None, r(("        time_limit = time_limit - preprocessing_time\n", "        time_limit = time_limit - preprocessing_time\n        if time_limit < 1:\n            time_limit = 1\n"))),
    ("x-lim-var", None, r(("    if time_limit > 0:\n        # A limit that is not positive would mean unlimited training.\n        time_limit = time_limit - preprocessing_time\n", "    left = time_limit\n    if time_limit > 0:\n        left = time_limit - preprocessing_time\n"), ("                          time_limit=time_limit,\n                          num_master", "                          time_limit=left,\n                          num_master"))),
    ("x-kwargs", None, r(("                          use_old_sp=use_old_sp,\n                          master_solver_type='glop')", "                          **{'use_old_sp': use_old_sp, 'master_solver_type': 'glop'})"))),
    ("x-opts", None, r(("        elif opt in (\"-i\", \"--iterations\"):\n", "        elif opt == \"-i\" or opt == \"--iterations\":\n"))),
    ("x-clf-fn", None, r(("    clf.fit(X_train.to_numpy(), y_train)\n\n    print(clf.mp_opt", "    data = X_train.to_numpy()\n    clf.fit(data, y_train)\n\n    print(clf.mp_opt"))),
    ("x-read", None, r(("    train_df = pd.read_csv(train_file, sep=sep, header=header)\n    test_df = pd.read_csv(test_file, sep=sep, header=header)\n", "    train_df, test_df = (pd.read_csv(f, sep=sep, header=header) for f in (train_file, test_file))\n"))),
    ("x-nodes", None, r(("        if node.id == 0:\n            node.parent = -1\n        else:\n            node.parent = math.floor((node.id-1) / 2)\n", "        node.parent = -1 if node.id == 0 else math.floor((node.id-1) / 2)\n"))),
]
