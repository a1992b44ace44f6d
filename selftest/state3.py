CD = "mixtera/core/query/chunk_distributor.py"
QR = "mixtera/core/query/query_result.py"
V = [
    # C12
    ("bug", ["C12"], CD, ('"chunk_usage": deepcopy(self._chunk_usage)', '"chunk_usage": self._chunk_usage')),
    ("bug", ["C12"], CD, ('"chunk_cache": deepcopy(self._chunk_cache)', '"chunk_cache": {k: dict(v) for k, v in self._chunk_cache.items()}')),
    ("bug", ["C12"], CD, ('"chunk_cache": deepcopy(self._chunk_cache)', '"chunk_cache": dict(self._chunk_cache)')),
    ("bug", ["C12"], CD, ('mixture_log = deepcopy(self._query_result._mixture_log)', 'mixture_log = list(self._query_result._mixture_log)')),
    ("bug", ["C12"], CD, ('mixture_log[-1][1]._mixing_alg = deepcopy(self._query_result._mixture._mixing_alg)', 'mixture_log[-1][1]._mixing_alg = self._query_result._mixture._mixing_alg')),
    ("bug", ["C12"], CD, ('state_to_save["_mixture"] = deepcopy(getattr(self._query_result, "_mixture", None))', 'state_to_save["_mixture"] = getattr(self._query_result, "_mixture", None)')),
    ("ok", [], CD, ('        state_to_save = {\n            "chunk_cache": deepcopy(self._chunk_cache),\n            "chunk_usage": deepcopy(self._chunk_usage),\n            "next_chunk": deepcopy(self._next_chunk),\n', '        state_to_save = {\n            "chunk_cache": dill.loads(dill.dumps(self._chunk_cache)),\n            "chunk_usage": deepcopy(self._chunk_usage),\n            "next_chunk": deepcopy(self._next_chunk),\n')),
    # C13
    ("bug", ["C13"], CD, ('                self._checkpoint_id_counter.value += 1\n                checkpoint_id = f"chkpnt_{self._checkpoint_id_counter.value}"\n', '                checkpoint_id = f"chkpnt_{self._checkpoint_id_counter.value}"\n                self._checkpoint_id_counter.value += 1\n                self._checkpoint_id_counter.value -= 1 if checkpoint_id in self._checkpoint_info else 0\n')),
    ("bug", ["C13"], CD, ('            if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:', '            if len(self._nodes_reported) == self._dp_groups:')),
    ("bug", ["C13"], CD, ('            if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:', '            if len(self._worker_statuses) >= self._dp_groups * (self._nodes_per_group - 1):')),
    ("bug", ["C13"], CD, ('            key = (dp_group_id, node_id)\n            if key', '            key = (node_id, dp_group_id)\n            if key')),
    ("bug", ["C13"], CD, ('            if key in self._nodes_reported:\n', '            if key in self._nodes_reported and server:\n')),
    ("bug", ["C13"], CD, ('                    self._nodes_reported = set()\n                    self._current_checkpoint_id = None\n\n', '                    self._nodes_reported = set()\n\n            self._current_checkpoint_id = None\n')),
    ("bug", ["C13"], CD, ('                finally:\n                    # Reset', '                except FileNotFoundError:\n                    # Reset')),
    ("bug", ["C13"], CD, ('            chunk_distributor._checkpoint_id_counter.value = max(checkpoint_numbers)\n', '            chunk_distributor._checkpoint_id_counter.value = min(checkpoint_numbers)\n')),
    ("bug", ["C13"], CD, ('checkpoint_dirs = chkpnt_dir.parent.glob("chkpnt_*")', 'checkpoint_dirs = chkpnt_dir.glob("chkpnt_*")')),
    ("bug", ["C13"], CD, ('checkpoint_id = f"chkpnt_{self', 'checkpoint_id = f"checkpoint_{self')),
    ("bug", ["C13"], CD, ('        self._checkpoint_info[checkpoint_id]["process"] = p\n        p.start()\n', '        p.start()\n')),
    ("bug", ["C13"], CD, ('        if process.exitcode != 0:\n            raise RuntimeError(f"Checkpoint {checkpoint_id} failed with exit code {process.exitcode}.")\n        return True', '        return True')),
    ("bug", ["C13"], CD, ('            if not len(set(next_chunks)) == 1:\n                raise RuntimeError(f"', '            if not len(set(next_chunks)) == 1:\n                logger.error(f"')),
    ("bug", ["C13"], CD, ('            return False  # no checkpoint in progress', '            return True  # no checkpoint in progress')),
    ("bug", ["C13"], CD, ('            self._worker_statuses[key] = worker_status\n            self._nodes_reported.add(key)\n', '            if worker_status:\n                self._worker_statuses[key] = worker_status\n            self._nodes_reported.add(key)\n')),
    ("bug", ["C13"], CD, ('        return checkpoint_id\n\n    def _val', '        return self._checkpoint_info\n\n    def _val')),
    ("ok", [], CD, ('            if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:', '            expected = self._nodes_per_group * self._dp_groups\n            all_here = len(self._nodes_reported) >= expected\n            if all_here:')),
    ("ok", [], CD, ('                    self._worker_statuses = {}\n                    self._nodes_reported = set()\n                    self._current_checkpoint_id = None\n', '                    self._current_checkpoint_id = None\n                    self._nodes_reported.clear()\n                    self._worker_statuses = dict()\n')),
    ("ok", [], CD, ('        # Check if the process is alive\n        if process.is_alive():\n            return False  # Still in progress\n', '        still_running = process.is_alive()\n        if still_running:\n            return False  # Still in progress\n')),
    ("ok", [], CD, [('                self._checkpoint_id_counter.value += 1\n                checkpoint_id = f"chkpnt_{self._checkpoint_id_counter.value}"\n                self._current', '                checkpoint_id = self._new_id()\n                self._current'), ('    def _validate_checkpoint_state(', '    def _new_id(self) -> str:\n        self._checkpoint_id_counter.value = self._checkpoint_id_counter.value + 1\n        return f"chkpnt_{self._checkpoint_id_counter.value}"\n\n    def _validate_checkpoint_state(')]),
    ("ok", [], CD, ('        if checkpoint_info is None or not checkpoint_info:\n            return False  # no checkpoint in progress\n\n        if "process" not in checkpoint_info or checkpoint_info["process"] is None:\n            return False  # No checkpoint in progress\n', '        if not checkpoint_info or checkpoint_info.get("process") is None:\n            return False  # no checkpoint in progress\n')),
]
