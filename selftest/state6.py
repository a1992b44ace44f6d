QR = "mixtera/core/query/query_result.py"
CD = "mixtera/core/query/chunk_distributor.py"
LS = "mixtera/core/client/local/local_stub.py"
SV = "mixtera/network/server/server.py"
MC = "mixtera/core/client/mixtera_client.py"
TD = "mixtera/torch/mixtera_torch_dataset.py"
TI = "mixtera/utils/tokenizing_iterator.py"
C = ["C16"]
UPD = "        with self._lock:\n            self._mixture = mixture\n            self._mixture.process_index(self._chunker_index)\n            self._update_key_id_map(new_mixture=True)\n"
CLAIM = "            with self._index.get_lock():\n                chunk_target_index = self._index.get_obj().value\n                self._index.get_obj().value += 1\n"
MAPL = "        async with self._chunk_distributor_map_lock:\n            if job_id not in self._chunk_distributor_map:\n                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n"
FB = "        with self._training_query_map_lock:\n            # logger.debug(f\"Received feedback: {feedback}\")\n            self._get_query_result(job_id)._mixture.process_client_feedback(feedback)\n            return True"
REG = "        with self._training_query_map_lock:\n            if query.job_id in self._training_query_map:\n                logger.warning(f\"We already have a query for job {query.job_id}!\")\n                return False\n\n            self._training_query_map[query.job_id] = ("
V = [
    ("bug", C, QR, (UPD, "        self._mixture = mixture\n        with self._lock:\n            self._mixture.process_index(self._chunker_index)\n            self._update_key_id_map()\n")),
    ("bug", C, QR, (CLAIM, "            with self._index.get_lock():\n                chunk_target_index = self._index.get_obj().value\n            with self._index.get_lock():\n                self._index.get_obj().value += 1\n")),
    ("bug", C, QR, (CLAIM, "            chunk_target_index = self._index.get_obj().value\n            self._index.get_obj().value = chunk_target_index + 1\n")),
    ("bug", C, QR, (CLAIM, "            chunk_target_index = self._index.get_obj().value\n            with self._index.get_lock():\n                self._index.get_obj().value = chunk_target_index + 1\n")),
    ("bug", C, QR, [("            result = self._generator.send((self._mixture, chunk_target_index))\n            if result is None:", "        result = self._generator.send((self._mixture, chunk_target_index))\n        with self._lock:\n            if result is None:")]),
    ("bug", C, QR, ("        with self._lock:\n            # Claim the index", "        mixture = self._mixture\n        with self._lock:\n            # Claim the index") if False else
        [("        with self._lock:\n            # Claim the index", "        mixture = self._mixture\n        with self._lock:\n            # Claim the index"), ("send((self._mixture, chunk", "send((mixture, chunk")]),
    ("bug", C, QR, ("                with self._index.get_lock():\n                    self._index.get_obj().value -= 1\n", "                self._index.get_obj().value -= 1\n")),
    ("bug", C, QR, ("            # Only count actual chunks, since this is the number of chunks we need to replay\n            self._num_returns_gen += 1\n            return result", "        # Only count actual chunks, since this is the number of chunks we need to replay\n        self._num_returns_gen += 1\n        return result")),
    ("bug", C, QR, ("        with self._lock:\n            # Claim the index", "        if self._generator is None:\n            self.update_mixture(self._mixture)\n        with self._lock:\n            if self._generator is None:\n                self.update_mixture(self._mixture)\n            # Claim the index")),
    ("bug", C, QR, (UPD, "        self._lock.acquire()\n        self._mixture = mixture\n        self._mixture.process_index(self._chunker_index)\n        self._update_key_id_map()\n        self._lock.release()\n")),
    ("bug", C, CD, ("            self._worker_statuses[key] = worker_status\n", "            pass\n        self._worker_statuses[key] = worker_status\n        with self._checkpoint_lock:\n")),
    ("bug", C, CD, ("        with self._checkpoint_lock:\n            key =", "        if True:\n            key =")),
    ("bug", C, LS, (FB, "        self._get_query_result(job_id)._mixture.process_client_feedback(feedback)\n        return True")),
    ("bug", C, LS, (REG, "        with self._training_query_map_lock:\n            if query.job_id in self._training_query_map:\n                logger.warning(f\"We already have a query for job {query.job_id}!\")\n                return False\n\n        with self._training_query_map_lock:\n            self._training_query_map[query.job_id] = (")),
    ("bug", C, LS, (REG, "        if query.job_id in self._training_query_map:\n            return False\n        with self._training_query_map_lock:\n            self._training_query_map[query.job_id] = (")),
    ("bug", C, LS, ("            self._get_query_result(job_id)._mixture.process_client_feedback(feedback)\n", "            self.restore_checkpoint(job_id, '')\n            self._get_query_result(job_id)._mixture.process_client_feedback(feedback)\n")),
    ("bug", C, SV, (MAPL, "        if job_id not in self._chunk_distributor_map:\n            async with self._chunk_distributor_map_lock:\n                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n")),
    ("bug", C, SV, (MAPL, "        if job_id not in self._chunk_distributor_map:\n            self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n")),
    ("bug", C, SV, ("        async with self._register_query_lock:\n            try:\n                success", "        if True:\n            try:\n                success")),
    ("bug", C, SV, ("                async with self._chunk_distributor_map_lock:\n                    self._chunk_distributor_map[job_id] =", "                if True:\n                    self._chunk_distributor_map[job_id] =")),
    ("bug", C, SV, (MAPL, "        async with self._chunk_distributor_map_lock:\n            if job_id not in self._chunk_distributor_map:\n                async with self._register_query_lock:\n                    self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n")),
    ("bug", C, MC, ("            with self.current_mixture_id_val.get_lock():\n                new_id = max(result_chunk.mixture_id, self.current_mixture_id_val.get_obj().value)\n                self", "            new_id = max(result_chunk.mixture_id, self.current_mixture_id_val.get_obj().value)\n            with self.current_mixture_id_val.get_lock():\n                self")),
    ("bug", C, MC, ("            yield from result_chunk\n\n        with self.current_mixture_id_val.get_lock():\n            self", "            yield from result_chunk\n\n        if True:\n            self")),
    ("bug", C, MC, ("                # logger.debug(f\"Set current mixture ID to {new_id}\")\n\n            result_chunk.configure_result_streaming(\n                client=self,\n                args=args,\n            )\n            yield from result_chunk\n", "                result_chunk.configure_result_streaming(\n                    client=self,\n                    args=args,\n                )\n                yield from result_chunk\n")),
    ("bug", C, TD, ("            with self.completion_lock:\n                completion_array[self.worker_id] = 1\n", "            completion_array[self.worker_id] = 1\n            with self.completion_lock:\n")),
    ("bug", C, TD, ("                completion_array[self.worker_id] = 1\n", "                completion_array[self.worker_id] = 1\n            with self.completion_lock:\n")),
    ("bug", C, TI, ("                with self.lock:\n                    self.buffer.extend([id", "                if True:\n                    self.buffer.extend([id")),
    ("bug", C, TI, ("                # No more texts to process\n                with self.lock:\n                    self.eos = True\n", "                # No more texts to process\n                self.eos = True\n                with self.lock:\n")),
    ("ok", [], QR, (UPD, "        with self._lock:\n            self._set_mixture(mixture)\n\n    def _set_mixture(self, mixture: Mixture) -> None:\n        mixture.process_index(self._chunker_index)\n        self._mixture = mixture\n        self._update_key_id_map(new_mixture=True)\n")),
    ("ok", [], QR, (UPD, "        self._lock.acquire()\n        try:\n            self._mixture = mixture\n            self._mixture.process_index(self._chunker_index)\n            self._update_key_id_map(new_mixture=True)\n        finally:\n            self._lock.release()\n")),
    ("ok", [], QR, (CLAIM, "            chunk_target_index = self._claim_index()\n"), ) if False else
    ("ok", [], QR, [(CLAIM, "            chunk_target_index = self._claim_index()\n"), ("    def __next__(self) -> ResultChunk:", "    def _claim_index(self) -> int:\n        with self._index.get_lock():\n            counter = self._index.get_obj()\n            claimed = counter.value\n            counter.value = claimed + 1\n            return claimed\n\n    def __next__(self) -> ResultChunk:")]),
    ("ok", [], LS, (FB, "        with self._training_query_map_lock:\n            mixture = self._get_query_result(job_id)._mixture\n            mixture.process_client_feedback(feedback)\n        return True")),
    ("ok", [], SV, (MAPL, "        async with self._chunk_distributor_map_lock:\n            distri = self._chunk_distributor_map.get(job_id)\n            if distri is None:\n                distri = self._local_stub._get_query_chunk_distributor(job_id)\n                self._chunk_distributor_map[job_id] = distri\n")),
    ("ok", [], MC, ("                new_id = max(result_chunk.mixture_id, self.current_mixture_id_val.get_obj().value)\n                self.current_mixture_id_val.get_obj().value = new_id\n", "                if result_chunk.mixture_id > self.current_mixture_id_val.get_obj().value:\n                    self.current_mixture_id_val.get_obj().value = result_chunk.mixture_id\n")),
    ("ok", [], TI, ("                # No more texts to process\n                with self.lock:\n                    self.eos = True\n                    self.condition.notify_all()", "                # No more texts to process\n                with self.condition:\n                    self.eos = True\n                    self.condition.notify_all()")),
    ("ok", [], TD, ("                if np.all(completion_array == 1):", "                all_done = bool(np.all(completion_array == 1))\n                if all_done:")),
]
# the index is claimed in the hold of the lock in which the generator is asked
HEAD = "        with self._lock:\n            # Claim the index"
OUT = "        with self._index.get_lock():\n            chunk_target_index = self._index.get_obj().value\n            self._index.get_obj().value += 1\n\n"
V += [
    ("bug", C, QR, [(HEAD, OUT + HEAD), (CLAIM, "")]),
    ("bug", C, QR, [(HEAD, "        with self._lock:\n" + CLAIM + "\n" + HEAD), (HEAD[8:], HEAD[8:]), ("another order than they claimed their index, and the generator never goes back to a chunk.\n" + CLAIM, "another order\n")]),
    ("bug", C, QR, [(HEAD, "        chunk_target_index = self._claim_index()\n" + HEAD), ("goes back to a chunk.\n" + CLAIM, "goes back to a chunk.\n"),
                    ("    def __next__(self) -> ResultChunk:", "    def _claim_index(self) -> int:\n        with self._index.get_lock():\n            claimed = self._index.get_obj().value\n            self._index.get_obj().value = claimed + 1\n            return claimed\n\n    def __next__(self) -> ResultChunk:")]),
    ("ok", [], QR, [("    def __next__(self) -> ResultChunk:\n        \"\"\"Iterate over the results of the query.\"\"\"\n        with self._lock:\n", "    def __next__(self) -> ResultChunk:\n        \"\"\"Iterate over the results of the query.\"\"\"\n        with self._lock:\n            return self._next_locked()\n\n    def _next_locked(self) -> ResultChunk:\n        if True:\n")]),
    ("ok", [], QR, [(CLAIM, "            target = self._index\n            with target.get_lock():\n                chunk_target_index = target.get_obj().value\n                target.get_obj().value += 1\n")]),
]
