CD = "mixtera/core/query/chunk_distributor.py"
QR = "mixtera/core/query/query_result.py"
RC = "mixtera/core/query/result_chunk.py"
LS = "mixtera/core/client/local/local_stub.py"
V = [
    ("bug", ["C11"], CD, ('            "chunk_usage": deepcopy(self._chunk_usage),\n', '            "chunk_usage": deepcopy(self._chunk_cache),\n')),
    ("bug", ["C11"], CD, ('"_og_num_workers": self._og_num_workers', '"_og_num_workers": self._num_workers')),
    ("bug", ["C11"], CD, ('state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk\n', 'pass\n')),
    ("bug", ["C11"], CD, ('state_to_save["chunk_usage"][dp_group][next_chunk] = 0\n', 'state_to_save["chunk_usage"][dp_group][next_chunk] = 1\n')),
    ("bug", ["C11"], CD, ('worker_sample_ids[(dp_group, worker_id)]', 'worker_sample_ids[(dp_group, node)]')),
    ("bug", ["C11"], CD, ('state_to_save["next_chunk"][dp_group][node][worker_id] - state_to_save["_num_workers"]', 'state_to_save["next_chunk"][dp_group][node][worker_id] - 1')),
    ("bug", ["C11"], CD, ('        state_to_save["_mixture"] = deepcopy(getattr(self._query_result, "_mixture", None))\n', '')),
    ("bug", ["C11"], CD, ('chunk = dill.dumps(chunk) if is_serialized else chunk\n                            state_to_save["chunk_cache"][dp_group][next_chunk] = chunk\n', 'chunk = dill.dumps(chunk) if is_serialized else chunk\n')),
    ("bug", ["C11"], QR, ("        query_result._num_returns_gen = 0  # reset", "        query_result._mixture_log = []\n        query_result._num_returns_gen = 0  # reset")),
    ("bug", ["C11"], QR, ('["_lock", "_index", "_generator", "_chunker_index"]', '["_lock", "_index", "_generator", "_chunker_index", "_key_id_map"]')),
    ("bug", ["C11"], RC, ("islice(yield_source, self._samples_to_skip, None)", "islice(yield_source, self._samples_to_skip + 1, None)")),
    ("bug", ["C11"], LS, ('dp_group_id, node_id, worker_status, self.checkpoint_directory / job_id, server', 'dp_group_id, node_id, worker_status, self.checkpoint_directory, server')),
    ("ok", [], CD, [('                            state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk\n                            state_to_save["chunk_usage"][dp_group][next_chunk] = 0\n', '                            state_to_save["chunk_usage"][dp_group][next_chunk] = 0\n                            state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk\n')]),
    ("ok", [], CD, ('        state_to_save = {\n            "chunk_cache": deepcopy(self._chunk_cache),\n            "chunk_usage": deepcopy(self._chunk_usage),\n', '        cache_copy = deepcopy(self._chunk_cache)\n        usage_copy = deepcopy(self._chunk_usage)\n        state_to_save = {\n            "chunk_cache": cache_copy,\n            "chunk_usage": usage_copy,\n')),
    ("ok", [], CD, ('            for dp_group in range(state_to_save["_dp_groups"]):\n                for node in range(state_to_save["_nodes_per_group"]):\n', '            num_groups = state_to_save["_dp_groups"]\n            num_nodes = state_to_save["_nodes_per_group"]\n            for dp_group in range(num_groups):\n                for node in range(num_nodes):\n')),
]
