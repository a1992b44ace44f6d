CD = "mixtera/core/query/chunk_distributor.py"
LS = "mixtera/core/client/local/local_stub.py"
SV = "mixtera/network/server/server.py"
V = [
    ("bug", ["C15"], CD, ("        self._next_chunk[dp_group][node_id][worker_id] += self._num_workers", "        self._next_chunk[dp_group][node_id][worker_id] += 1")),
    ("bug", ["C15"], CD, ("        self._next_chunk[dp_group][node_id][worker_id] += self._num_workers", "        self._next_chunk[dp_group][node_id][worker_id] += self._nodes_per_group")),
    ("bug", ["C15"], CD, ("            self._chunk_usage[dp_group][next_chunk_id] = 0\n", "            self._chunk_usage[dp_group][next_chunk_id] = 1\n")),
    ("bug", ["C15"], CD, (">= self._nodes_per_group:", ">= self._dp_groups:")),
    ("bug", ["C15"], CD, (">= self._nodes_per_group:", ">= 1:")),
    ("bug", ["C15"], CD, ("            if (chunk_to_delete := next_chunk_id - self._num_workers) >= 0:", "            if (chunk_to_delete := next_chunk_id) >= 0:")),
    ("bug", ["C15"], CD, ("            if (chunk_to_delete := next_chunk_id - self._num_workers) >= 0:", "            if (chunk_to_delete := (next_chunk_id - 1)) >= 0:")),
    ("bug", ["C15"], CD, ("self._next_chunk[dp_group][node][worker_id] = worker_id", "self._next_chunk[dp_group][node][worker_id] = 0")),
    ("bug", ["C15"], CD, ("next_chunk_id not in self._chunk_cache[dp_group]:", "next_chunk_id not in self._chunk_cache[0]:")),
    ("bug", ["C15"], CD, ("        self._chunk_usage[dp_group][next_chunk_id] += 1\n", "        if not deserialize:\n            self._chunk_usage[dp_group][next_chunk_id] += 1\n")),
    ("bug", ["C15"], CD, ("            self._chunk_cache[dp_group][next_chunk_id] = serialized_chunk\n", "            if self._nodes_per_group > 2:\n                self._chunk_cache[dp_group][next_chunk_id] = serialized_chunk\n")),
    ("bug", ["C15"], CD, ("self.next_chunk_for(dp_group_id, node_id, worker_id, True)", "self.next_chunk_for(node_id, dp_group_id, worker_id, True)")),
    ("bug", ["C15"], SV, ("next_chunk_for(dp_group_id, node_id, worker_id, False)", "next_chunk_for(dp_group_id, worker_id, node_id, False)")),
    ("bug", ["C15"], LS, ("                    dp_groups, nodes_per_group, num_workers, query.results,", "                    nodes_per_group, dp_groups, num_workers, query.results,")),
    ("bug", ["C15"], CD, ("            for node in range(nodes_per_group):", "            shared: dict = {}\n            for node in range(nodes_per_group):")) if False else
    ("bug", ["C15"], CD, ("                self._next_chunk[dp_group][node] = {}", "                self._next_chunk[dp_group][node] = {w: 0 for w in range(self._num_workers)}")),
    ("ok", [], CD, ("        self._next_chunk[dp_group][node_id][worker_id] += self._num_workers", "        self._next_chunk[dp_group][node_id][worker_id] = next_chunk_id + self._num_workers")),
    ("ok", [], CD, ("        if next_chunk_id not in self._chunk_cache[dp_group]:", "        cache = self._chunk_cache[dp_group]\n        if not next_chunk_id in cache:")),
    ("ok", [], CD, [("                    del self._chunk_cache[dp_group][chunk_to_delete]\n", "                    self._forget(dp_group, chunk_to_delete)\n"), ("                    del self._chunk_usage[dp_group][chunk_to_delete]\n", ""),
                    ("    def _stream_chunks", "    def _forget(self, dp: int, chunk: int) -> None:\n        self._chunk_usage[dp].pop(chunk, None)\n        self._chunk_cache[dp].pop(chunk, None)\n\n    def _stream_chunks")]),
    ("ok", [], CD, ("        if self._chunk_usage[dp_group][next_chunk_id] >= self._nodes_per_group:", "        all_served = not self._chunk_usage[dp_group][next_chunk_id] < self._nodes_per_group\n        if all_served:")),
    ("ok", [], CD, [("            self._chunk_usage[dp_group][next_chunk_id] = 0\n", ""), ("        self._chunk_usage[dp_group][next_chunk_id] += 1\n", "        self._chunk_usage[dp_group][next_chunk_id] = self._chunk_usage[dp_group].get(next_chunk_id, 0) + 1\n")]),
    ("ok", [], CD, ("                for worker_id in range(self._num_workers):\n                    # Note that we don't initialize to 0 but to worker_id since each worker\n                    # should see a different chunk.\n                    self._next_chunk[dp_group][node][worker_id] = worker_id", "                self._next_chunk[dp_group][node] = {w: w for w in range(self._num_workers)}")),
]
