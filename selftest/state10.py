Q = "mixtera/core/query/query_result.py"
U = "mixtera/utils/utils.py"
C = ["C18"]
src = open("/repo/" + Q).read()
LOOP = src[src.index("                    current_range = (base_range[0], base_range[1])\n"):src.index("        if current_cardinality > 0:\n")]
COND = "if current_cardinality + range_cardinality < component_cardinality:"
ADD = "current_partition[dataset_id][file_id].append((current_range[0], current_range[1] - diff))"
NEXTR = "current_range = (current_range[1] - diff, current_range[1])"
FRESH = "                            current_partition = defaultdict(lambda: defaultdict(list))\n                            current_cardinality = 0\n"
MERGE = src[src.index("                                            chunk[mixture_key][dataset_id][file_id] = (\n"):src.index("                                            # If we extended the ranges of that file")]
I = " " * 44
V = [
    ("ok", C, Q, (COND, COND.replace("<", "<="))),
    ("bug", C, Q, (NEXTR, "current_range = (current_range[1] - diff + 1, current_range[1])")),
    ("bug", C, Q, (ADD, ADD.replace("- diff))", "- diff + 1))"))),
    ("bug", C, Q, (ADD, "current_partition[dataset_id][file_id].append((base_range[0], current_range[1] - diff))")),
    ("bug", C, Q, (NEXTR, "current_range = (current_range[1] - diff, base_range[0] + range_cardinality)")),
    ("bug", C, Q, (FRESH, "                            current_cardinality = 0\n")),
    ("bug", C, Q, (FRESH, "                            current_partition = defaultdict(lambda: defaultdict(list))\n")),
    ("bug", C, Q, ("                            current_cardinality += range_cardinality\n", "                            current_cardinality += range_cardinality - 1\n")),
    ("bug", C, Q, ("        if current_cardinality > 0:\n", "        if current_cardinality > 1:\n")),
    ("bug", C, Q, ("        if current_cardinality > 0:\n", "        if current_cardinality >= component_cardinality:\n")),
    ("bug", C, Q, ("continue_processing = current_range[1] > current_range[0]\n                    while", "continue_processing = current_range[1] > current_range[0] + 1\n                    while")),
    ("bug", C, Q, ("                            # Stop if range has been exhausted perfectly\n                            continue_processing = current_range[1] > current_range[0]\n", "                            continue_processing = diff > component_cardinality\n")),
    ("bug", C, Q, ("current_partition[dataset_id][file_id].append(current_range)", "current_partition[dataset_id][file_id].append(base_range)")),
    ("bug", C, Q, ("current_partition[dataset_id][file_id].append(current_range)", "current_partition[file_id][dataset_id].append(current_range)")),
    ("bug", C, Q, ("for base_range in ranges:", "for base_range in ranges[:-1]:")),
    ("bug", C, Q, ("                for base_range in ranges:\n", "                if len(ranges) > 1000:\n                    break\n                for base_range in ranges:\n")),
    ("bug", C, Q, ("component_cardinality = yield defaultdict_to_dict(current_partition)\n", "component_cardinality = yield defaultdict_to_dict(current_partition)\n                            current_partition[dataset_id][file_id].clear()\n")),
    # equivalent splitters
    ("ok", C, Q, (LOOP, """                    start, end = base_range
                    while start < end:
                        take = min(end - start, component_cardinality - current_cardinality)
                        current_partition[dataset_id][file_id].append((start, start + take))
                        current_cardinality += take
                        start += take
                        if current_cardinality == component_cardinality:
                            component_cardinality = yield defaultdict_to_dict(current_partition)
                            current_partition = defaultdict(lambda: defaultdict(list))
                            current_cardinality = 0

""")),
    ("ok", C, Q, (LOOP, """                    pos = base_range[0]
                    while True:
                        left = base_range[1] - pos
                        if left <= 0:
                            break
                        room = component_cardinality - current_cardinality
                        if left < room:
                            current_partition[dataset_id][file_id].append((pos, base_range[1]))
                            current_cardinality += left
                            break
                        cut = pos + room
                        current_partition[dataset_id][file_id].append((pos, cut))
                        component_cardinality = yield defaultdict_to_dict(current_partition)
                        current_partition = defaultdict(lambda: defaultdict(list))
                        current_cardinality = 0
                        pos = cut

""")),
    ("bug", C, Q, (LOOP, """                    pos = base_range[0]
                    while True:
                        left = base_range[1] - pos
                        room = component_cardinality - current_cardinality
                        if left <= room:
                            current_partition[dataset_id][file_id].append((pos, base_range[1]))
                            current_cardinality += left
                            break
                        cut = pos + room
                        current_partition[dataset_id][file_id].append((pos, cut))
                        component_cardinality = yield defaultdict_to_dict(current_partition)
                        current_partition = defaultdict(lambda: defaultdict(list))
                        pos = cut

""")),
    ("ok", C, Q, (COND, "remaining = component_cardinality - current_cardinality\n                        if range_cardinality < remaining:")),
    ("ok", C, Q, (NEXTR, "current_range = (current_range[1] - (current_cardinality + range_cardinality - component_cardinality), current_range[1])")) if False else
    ("ok", C, Q, ("                            diff = current_cardinality + range_cardinality - component_cardinality\n", "                            taken = component_cardinality - current_cardinality\n                            diff = range_cardinality - taken\n")),
    ("ok", C, Q, ("        for dataset_id, document_entries in sorted(target_ranges.items(), key=lambda x: x[0]):\n            for file_id, ranges in sorted(document_entries.items(), key=lambda x: x[0]):\n", "        for dataset_id in sorted(target_ranges):\n            document_entries = target_ranges[dataset_id]\n            for file_id in sorted(document_entries.keys()):\n                ranges = document_entries[file_id]\n")),
    ("ok", C, Q, ("        if current_cardinality > 0:\n", "        if current_partition and current_cardinality >= 1:\n")) if False else
    ("ok", C, Q, ("        if current_cardinality > 0:\n", "        if current_cardinality >= 1:\n")),
    # merge of lists
    ("bug", C, U, ("        if sorted_list1[i][0] <= sorted_list2[j][0]:", "        if sorted_list1[i][0] >= sorted_list2[j][0]:")),
    ("bug", C, U, ("        merged_list.extend(sorted_list2[j:])", "        merged_list.extend(sorted_list2[i:])")),
    ("bug", C, U, ("        merged_list.extend(sorted_list1[i:])", "        merged_list.extend(sorted_list1[i + 1:])")),
    ("bug", C, U, ("            merged_list.append(sorted_list2[j])\n            j += 1", "            merged_list.append(sorted_list2[j])\n            j += 1\n            i += 0 if i else 1")),
    ("bug", C, U, ("    if j < len(sorted_list2):\n", "    elif j < len(sorted_list2) - 1:\n")),
    ("ok", C, U, ("        if sorted_list1[i][0] <= sorted_list2[j][0]:", "        if sorted_list1[i][0] < sorted_list2[j][0]:")),
    ("ok", C, U, ("    if i < len(sorted_list1):\n        merged_list.extend(sorted_list1[i:])\n\n    if j < len(sorted_list2):\n        merged_list.extend(sorted_list2[j:])\n", "    merged_list.extend(sorted_list1[i:])\n    merged_list.extend(sorted_list2[j:])\n")),
    ("ok", C, U, ("    while i < len(sorted_list1) and j < len(sorted_list2):\n", "    n1, n2 = len(sorted_list1), len(sorted_list2)\n    while i < n1 and j < n2:\n")),
    ("ok", C, U, ("    merged_list = []\n    i, j = 0, 0\n", "    if not sorted_list1:\n        return list(sorted_list2)\n    merged_list = []\n    i, j = 0, 0\n")) if False else
    ("ok", C, U, ("    merged_list = []\n    i, j = 0, 0\n", "    merged_list: list = []\n    i = j = 0\n")),
    # merge into the chunk
    ("bug", C, Q, (MERGE, I + "chunk[mixture_key][dataset_id][file_id] = ranges\n")),
    ("bug", C, Q, (MERGE, I + "chunk[mixture_key][dataset_id][file_id] = chunk[mixture_key][dataset_id].get(file_id, []) + ranges\n")),
    ("bug", C, Q, ("if file_id not in chunk[mixture_key][dataset_id]\n", "if dataset_id not in chunk[mixture_key]\n")),
    ("bug", C, Q, ("if file_id not in chunk[mixture_key][dataset_id]\n", "if file_id in chunk[mixture_key][dataset_id]\n")),
    ("bug", C, Q, ("                                                    chunk[mixture_key][dataset_id][file_id],\n                                                    ranges,\n", "                                                    ranges,\n                                                    ranges,\n")),
    ("bug", C, Q, ("chunk[mixture_key][dataset_id][file_id] = (\n", "chunk[mixture_key][file_id][dataset_id] = (\n")),
    ("ok", C, Q, (MERGE, I + "existing = chunk[mixture_key][dataset_id].get(file_id)\n" + I + "if existing is None:\n" + I + "    chunk[mixture_key][dataset_id][file_id] = ranges\n" + I + "else:\n" + I + "    chunk[mixture_key][dataset_id][file_id] = merge_sorted_lists(existing, ranges)\n")),
    ("ok", C, Q, (MERGE, I + "target = chunk[mixture_key][dataset_id]\n" + I + "if file_id in target:\n" + I + "    ranges = merge_sorted_lists(ranges, target[file_id])\n" + I + "target[file_id] = ranges\n")),
    ("ok", C, Q, ("                                        for file_id, ranges in files.items():\n", "                                        dataset_part = chunk[mixture_key][dataset_id]\n                                        for file_id, ranges in files.items():\n")),
    # accounting
    ("bug", C, Q, ("sum(end - start for start, end in ranges)\n", "sum(end - start for start, end in ranges[:1])\n")),
    ("bug", C, Q, ("                                        for ranges in files.values()\n                                    )", "                                        for ranges in files.values()\n                                        if len(ranges) < 100\n                                    )")),
    ("bug", C, Q, ("sum(end - start for start, end in ranges)\n", "sum(end - start + 1 for start, end in ranges)\n")),
    ("bug", C, Q, ("remaining_sizes[mixture_key] = remaining_sizes[mixture_key] - chunk_size", "remaining_sizes[component_key] = remaining_sizes[mixture_key] - chunk_size")),
    ("bug", C, Q, ("                                    remaining_sizes[mixture_key] = remaining_sizes[mixture_key] - chunk_size\n", "                                    if len(component_chunk) > 1:\n                                        remaining_sizes[mixture_key] = remaining_sizes[mixture_key] - chunk_size\n")),
    ("ok", C, Q, ("remaining_sizes[mixture_key] = remaining_sizes[mixture_key] - chunk_size", "remaining_sizes[mixture_key] -= chunk_size")),
    ("ok", C, Q, ("""                                    chunk_size = sum(
                                        sum(end - start for start, end in ranges)
                                        for files in component_chunk.values()
                                        for ranges in files.values()
                                    )
""", """                                    chunk_size = sum(
                                        end - start
                                        for files in component_chunk.values()
                                        for ranges in files.values()
                                        for start, end in ranges
                                    )
""")),
    ("ok", C, Q, ("""                                    chunk_size = sum(
                                        sum(end - start for start, end in ranges)
                                        for files in component_chunk.values()
                                        for ranges in files.values()
                                    )
""", """                                    chunk_size = 0
                                    for files in component_chunk.values():
                                        for ranges in files.values():
                                            for start, end in ranges:
                                                chunk_size += end - start
""")),
    # best effort
    ("bug", C, Q, ("                                    mixture[mixture_key] -= num_missing_samples\n", "                                    mixture[mixture_key] -= num_missing_samples - 1\n")),
    ("bug", C, Q, ("if num_missing_samples == mixture[mixture_key]:", "if num_missing_samples >= mixture[mixture_key] - 1:")),
    ("bug", C, Q, ("                                        mixture[key] += samples_to_distribute[i]\n", "                                        mixture[key] += samples_to_distribute[i - 1]\n")),
    ("bug", C, Q, ("                                        remaining_sizes[key] += samples_to_distribute[i]\n", "                                        remaining_sizes[key] = samples_to_distribute[i]\n")),
    ("bug", C, Q, ("                                        mixture[key] += samples_to_distribute[i]\n", "")),
    ("bug", C, Q, ("if remaining_sizes and all(size == 0 for size in remaining_sizes.values()):", "if remaining_sizes and any(size == 0 for size in remaining_sizes.values()):")),
    ("bug", C, Q, ("distribute_by_ratio(num_missing_samples, ratios)", "distribute_by_ratio(mixture[key], ratios)")) if False else
    ("bug", C, Q, ("distribute_by_ratio(num_missing_samples, ratios)", "distribute_by_ratio(total_mixture_size_remaining, ratios)")),
    ("ok", C, Q, ("                                    for i, key in enumerate(target_keys):\n", "                                    for key, extra in zip(target_keys, samples_to_distribute):\n"), ) if False else
    ("ok", C, Q, [("                                    for i, key in enumerate(target_keys):\n", "                                    for key, extra in zip(target_keys, samples_to_distribute):\n"),
                  ("remaining_sizes[key] += samples_to_distribute[i]", "remaining_sizes[key] += extra"), ("mixture[key] += samples_to_distribute[i]", "mixture[key] += extra")]),
    ("ok", C, Q, ("if remaining_sizes and all(size == 0 for size in remaining_sizes.values()):", "if remaining_sizes and not any(remaining_sizes.values()):")),
    ("ok", C, Q, ("                                num_missing_samples = remaining_sizes.pop(mixture_key)\n", "                                num_missing_samples = remaining_sizes[mixture_key]\n                                del remaining_sizes[mixture_key]\n")),
    # arbitrary mixtures
    ("bug", C, Q, ("chunk = {chunker_index_keys[chunker_index_keys_idx]: chunk}", "chunk = {chunker_index_keys[chunker_index_keys_idx - 1]: chunk}")),
    ("bug", C, Q, ("chunk = {chunker_index_keys[chunker_index_keys_idx]: chunk}", "chunk = {chunker_index_keys[0]: chunk}")),
]
