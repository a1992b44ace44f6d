Q = "mixtera/core/query/query_result.py"
C = ["C37"]
src = open("/repo/" + Q).read()
SK = src[src.index("                        # Note that this can be removed but needs"):src.index("                    key = chunker_index_keys[chunker_index_keys_idx]\n")]
V = [
    ("bug", C, Q, (SK, "                        chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)\n                        continue\n\n")),
    ("ok", C, Q, (SK, "                        continue\n\n")),
    ("bug", C, Q, ("if num_skipped <= len(chunker_index_keys):", "if num_skipped >= 0:")),
    ("bug", C, Q, ("                        num_skipped += 1\n", "")),
    ("bug", C, Q, ("while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:", "while len(empty_key_idx) <= len(chunker_index_keys) and chunk is None:")),
    ("bug", C, Q, ("while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:", "while chunk is None:")),
    ("bug", C, Q, ("                        empty_key_idx.add(chunker_index_keys_idx)\n", "                        pass\n")),
    ("bug", C, Q, ("                        empty_key_idx.add(chunker_index_keys_idx)\n", "                        empty_key_idx.add(chunker_index_keys_idx - 1)\n")),
    ("bug", C, Q, ("                    chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)\n                    if chunker", "                    chunker_index_keys_idx = (chunker_index_keys_idx + 2) % len(chunker_index_keys)\n                    if chunker")),
    ("bug", C, Q, ("                    key = chunker_index_keys[chunker_index_keys_idx]\n", "                    key = chunker_index_keys[chunker_index_keys_idx]\n                    if not self._chunker_index[key]:\n                        chunker_index_keys_idx = 0\n                        continue\n")),
    ("ok", C, Q, ("                    chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)\n                    if chunker", "                    chunker_index_keys_idx += 1\n                    chunker_index_keys_idx %= len(chunker_index_keys)\n                    if chunker")),
    ("bug", C, Q, ("global_progress_made = global_progress_made or chunk_size > 0", "global_progress_made = global_progress_made or chunk_size >= 0")),
    ("bug", C, Q, ("                    global_progress_made = False\n\n", "")),
    ("bug", C, Q, ("                            if is_strict:  # Unable to complete chunk\n", "                            if is_strict:  # Unable to complete chunk\n                                global_progress_made = len(remaining_sizes) > 1\n")),
    ("ok", C, Q, ("global_progress_made = global_progress_made or chunk_size > 0", "if chunk_size > 0:\n                                        global_progress_made = True")),
    ("ok", C, Q, ("global_progress_made = global_progress_made or chunk_size > 0", "global_progress_made |= chunk_size > 0")),
    ("bug", C, Q, ("            if chunk_success:\n                current_chunk_index += 1\n", "            if chunk_success and current_chunk_index == target_chunk_index:\n                current_chunk_index += 1\n")),
    ("bug", C, Q, ("                    base_mixture, target_chunk_index = yield None\n", "                    continue\n")) if False else
    ("ok", C, Q, ("            if chunk_success:\n                current_chunk_index += 1\n", "            if not chunk_success:\n                continue\n            current_chunk_index += 1\n")),
]
