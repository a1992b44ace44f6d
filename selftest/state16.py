"""Mixed: server locks, restore, wait loops, HF iterable, inference of mixtures, worker ids."""
S = "mixtera/network/server/server.py"
H = "mixtera/hf/mixtera_hf_dataset.py"
T = "mixtera/torch/mixtera_torch_dataset.py"
ST = "mixtera/core/client/server/server_stub.py"
CK = "mixtera/utils/checkpoint.py"
IX = "mixtera/core/datacollection/index/index_utils.py"
DM = "mixtera/core/query/mixture/dynamic_mixture.py"
V = [
    ("bug", ["C03"], S, ("        async with self._chunk_distributor_map_lock:\n            if job_id not in self._chunk_distributor_map:\n                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n\n        next",
                         "        await self._chunk_distributor_map_lock.acquire()\n        if job_id not in self._chunk_distributor_map:\n            self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n        self._chunk_distributor_map_lock.release()\n\n        next")),
    ("bug", ["C14"], S, ("                    self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n                self._query_registration[job_id] = True",
                         "                    self._chunk_distributor_map.setdefault(job_id, self._local_stub._get_query_chunk_distributor(job_id))\n                self._query_registration[job_id] = True")),
    ("bug", ["C07"], S, ("        self._query_registration.pop(job_id, None)  # Otherwise, we immediately return True.\n", "")),
    ("bug", ["C01", "C02"], S, ("        feedback.losses = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)\n        feedback.counts = await",
                         "        feedback.counts = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)\n        feedback.losses = await")),
    ("bug", ["C07"], ST, ("        if status != 1:\n", "        if status == 2:\n")),
    ("bug", ["C15", "C30"], H, ("        res_args = deepcopy(self._res_str_args)\n", "        res_args = self._res_str_args\n")),
    ("bug", ["C30"], H, ("            _status_shm=self._status_shm,\n            _comp_shm=self._comp_shm,\n            completion_lock=self.completion_lock,\n", "")),
    ("bug", ["C30"], H, ("            _comp_shm=self._comp_shm,\n            completion_lock=self.completion_lock,\n        )\n\n    def val", "            _comp_shm=self._status_shm,\n            completion_lock=self.completion_lock,\n        )\n\n    def val")),
    ("bug", ["C15"], H, ("            res_args.worker_id = index\n" if False else "        res_args.worker_id = index\n", "        res_args.worker_id = index % max(self._query_execution_args.dp_groups, 1)\n")),
    ("bug", ["C31"], T, ("if self._node_id == 0 and self._dp_group_id == 0 and execute_query:", "if self._node_id == 0 and execute_query:")),
    ("bug", ["C30"], T, ("            status_array[self.worker_id] = 0\n            completion_array[self.worker_id] = 0\n", "            status_array[self.worker_id] = 0\n")),
    ("bug", ["C30"], T, ("            self._res_str_args.worker_id = self.worker_id\n", "")),
    ("bug", ["C14"], T, ("                self._client.restore_checkpoint(query.job_id, checkpoint_id)\n", "                self._client.restore_checkpoint(query.job_id, checkpoint_id)\n                self._client.execute_query(query, self._query_execution_args)\n")),
    ("bug", ["C07"], T, ("        if not self._client.wait_for_execution(query.job_id):\n            raise", "        if not self._client.wait_for_execution(query.job_id) and execute_query:\n            raise")),
    ("bug", ["C31", "C13"], CK, ("    while not torch_dataset._client.checkpoint_completed(job_id, checkpoint_id, wait_for_disk):", "    while node_id == 0 and dp_group_id == 0 and not torch_dataset._client.checkpoint_completed(job_id, checkpoint_id, wait_for_disk):")),
    ("bug", ["C31"], CK, ("checkpoint_completed(job_id, checkpoint_id, wait_for_disk)", "checkpoint_completed(job_id, checkpoint_id, False)")),
    ("bug", ["C19"], IX, ("        total_count += partition_mass\n", "        total_count = max(total_count, partition_mass)\n")),
    ("bug", ["C19"], IX, ("        partition_masses[property_combination] = partition_mass\n        total_count += partition_mass\n", "        partition_masses[property_combination] = partition_mass\n        if partition_mass > 1:\n            total_count += partition_mass\n")),
    ("bug", ["C22", "C21"], DM, ("initial_mix[self._key_id_map[key]] = value", "initial_mix[list(mixture).index(key)] = value")),
    ("ok", [], S, ("        async with self._chunk_distributor_map_lock:\n            if job_id not in self._chunk_distributor_map:\n                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n\n        next",
                        "        await self._chunk_distributor_map_lock.acquire()\n        try:\n            if job_id not in self._chunk_distributor_map:\n                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n        finally:\n            self._chunk_distributor_map_lock.release()\n\n        next")),
    ("ok", [], S, ("                    self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n                self._query_registration[job_id] = True",
                        "                    self._chunk_distributor_map.pop(job_id, None)\n                    self._chunk_distributor_map.setdefault(job_id, self._local_stub._get_query_chunk_distributor(job_id))\n                self._query_registration[job_id] = True")),
    ("ok", [], S, [("                async with self._chunk_distributor_map_lock:\n                    self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)\n                self._query_registration[job_id] = True",
                        "                await self._adopt_distributor(job_id)\n                self._query_registration[job_id] = True"),
                   ("    async def _check_query_registration(", "    async def _adopt_distributor(self, job: str) -> None:\n        async with self._chunk_distributor_map_lock:\n            distributor = self._local_stub._get_query_chunk_distributor(job)\n            self._chunk_distributor_map[job] = distributor\n\n    async def _check_query_registration(")]),
    ("ok", [], T, ("        if not self._client.wait_for_execution(query.job_id):\n            raise", "        executed = self._client.wait_for_execution(query.job_id)\n        if executed is not True:\n            raise")),
    ("ok", [], T, [("        if not self._client.wait_for_execution(query.job_id):\n            raise RuntimeError(f\"[{os.getpid()}/{threading.get_native_id()}] Query execution not successful.\")\n", "        self._await_execution(query.job_id)\n"),
                   ("    def __getstate__(self)", "    def _await_execution(self, job_id: str) -> None:\n        if self._client.wait_for_execution(job_id):\n            return\n        raise RuntimeError(\"Query execution not successful.\")\n\n    def __getstate__(self)")]),
    ("ok", [], T, [("            if self._checkpoint_path is None:\n                logger.info(", "            restoring = self._checkpoint_path is not None\n            if not restoring:\n                logger.info(")]),
    ("ok", [], H, ("        res_args.worker_id = index\n", "        shard = int(index)\n        res_args.worker_id = shard\n")),
]
