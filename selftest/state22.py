"""C17: order and entropy."""
QR = "mixtera/core/query/query_result.py"
RC = "mixtera/core/query/result_chunk.py"
UT = "mixtera/utils/utils.py"
QU = "mixtera/core/query/query.py"
IM = "mixtera/core/query/mixture/inferring_mixture.py"
IU = "mixtera/core/datacollection/index/index_utils.py"
B = ["C17"]
SORT = "        chunker_index_keys.sort()  # Otherwise, despite seeding, a shuffle is not reproducible.\n"
SHUF = "        seeded_shuffle(chunker_index_keys, chunker_index_keys)\n"
SEEDSH = """    with _shuffle_lock:
        seed_everything_from_list(seed_list)
        random.shuffle(to_shuffle)
"""
WSH = "            seeded_shuffle(workloads[property_combination], [property_combination])\n"
ESH = "        seeded_shuffle(element_counts, element_counts)\n"
PSH = "        seeded_shuffle(property_names, property_names)\n"
GET = "                    instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)\n"
EMPTY = """                except Empty as exc:
                    if not proc.is_alive():
"""
COMP = "for dataset_id, document_entries in sorted(target_ranges.items(), key=lambda x: x[0]):"
DOC = "for file_id, ranges in sorted(document_entries.items(), key=lambda x: x[0]):"
MK = "for mixture_key in sorted(remaining_sizes.keys()):"
CK = "for component_key, iterator in sorted(component_iterators.items(), key=lambda x: x[0]):"
UPD = "        for key in sorted(keys):\n            if key not in self._key_id_map:"
V = [
    # --- orders
    ("bug", B, QR, (SORT, "")),
    ("bug", B, QR, (SORT, "        chunker_index_keys.sort(key=len)\n")),
    ("bug", B, QR, [(SORT, ""), (SHUF, SHUF + "        chunker_index_keys.reverse()\n")]),
    ("bug", B, QR, (UPD, "        for key in keys:\n            if key not in self._key_id_map:")),
    ("bug", B, QR, (COMP, "for dataset_id, document_entries in target_ranges.items():")),
    ("bug", B, QR, (DOC, "for file_id, ranges in document_entries.items():")),
    ("bug", B, QR, (DOC, "for file_id, ranges in sorted(document_entries.items(), key=lambda x: len(x[1])):")),
    ("bug", B, QR, (COMP, "for dataset_id, document_entries in reversed(target_ranges.items()):")),
    ("ok", B, QR, (MK, "for mixture_key in remaining_sizes.keys():")),
    ("ok", B, QR, (CK, "for component_key, iterator in component_iterators.items():")),
    ("bug", B, QR, (MK, "for mixture_key in set(remaining_sizes.keys()):")),
    ("bug", B, QR, (CK, "for component_key, iterator in set(component_iterators.items()):")),
    ("bug", B, RC, ("        property_names = list(active_iterators.keys())\n", "        property_names = list(set(active_iterators.keys()))\n")),
    ("bug", B, RC, ("            for dataset_id, file_entries in dataset_entries.items():", "            for dataset_id, file_entries in set(dataset_entries.items()):")),
    ("bug", B, RC, ("            for dataset_id, file_entries in dataset_entries.items():", "            for dataset_id, file_entries in [(d, dataset_entries[d]) for d in {*dataset_entries}]:")),
    ("bug", B, IU, ("sorted(chunker_index.items(), key=lambda x: x[0])", "chunker_index.items()")),
    ("bug", B, QR, ("        chunker_index_keys = list(self._chunker_index.keys())\n", "        chunker_index_keys = list(self._chunker_index.keys())\n        if len(chunker_index_keys) > 64:\n            chunker_index_keys = chunker_index_keys[:64]\n")),
    # --- draws
    ("bug", B, UT, ("        seed_everything_from_list(seed_list)\n        random.shuffle", "        random.shuffle")),
    ("bug", B, UT, ("    random.seed(seed)\n", "")),
    ("bug", B, UT, (SEEDSH, "    if seed_list:\n        with _shuffle_lock:\n            seed_everything_from_list(seed_list)\n    random.shuffle(to_shuffle)\n")),
    ("bug", B, UT, (SEEDSH, "    with _shuffle_lock:\n        seed_everything_from_list(seed_list)\n    with _shuffle_lock:\n        random.shuffle(to_shuffle)\n")),
    ("bug", B, UT, (SEEDSH, "    seed_everything_from_list(seed_list)\n    random.shuffle(to_shuffle)\n")),
    ("bug", B, UT, (SEEDSH, "    with _shuffle_lock:\n        if len(seed_list) > 1:\n            seed_everything_from_list(seed_list)\n        random.shuffle(to_shuffle)\n")),
    ("bug", B, UT, (SEEDSH, "    with _shuffle_lock:\n        seed_everything_from_list(seed_list)\n        np.random.seed(seed_everything.__code__.co_argcount)\n        random.SystemRandom().shuffle(to_shuffle)\n")),
    ("bug", B, UT, (SEEDSH, "    random.Random().shuffle(to_shuffle)\n")),
    ("bug", B, UT, (SEEDSH, "    random.Random(time.time()).shuffle(to_shuffle)\n")),
    ("bug", B, UT, (SEEDSH, "    random.Random(hash(tuple(str(x) for x in seed_list))).shuffle(to_shuffle)\n")),
    ("bug", B, UT, (SEEDSH, "    random.Random(id(seed_list)).shuffle(to_shuffle)\n")),
    ("bug", B, UT, ("    hash_result = xxhash.xxh64_intdigest(concatenated_string)\n", "    hash_result = hash(concatenated_string)\n")),
    ("bug", B, QR, (SHUF, "        seeded_shuffle(chunker_index_keys, [os.getpid()])\n")),
    ("bug", B, RC, (WSH, "            seeded_shuffle(workloads[property_combination], [id(property_combination)])\n")),
    ("bug", B, RC, [("import os\n", "import os\nimport random\n"), (WSH, "            random.shuffle(workloads[property_combination])\n")]),
    ("bug", B, RC, [("import os\n", "import os\nimport random\n"), (PSH, "        random.Random(len(property_names)).shuffle(property_names) if len(property_names) > 2 else random.shuffle(property_names)\n")]),
    ("bug", B, RC, [("import os\n", "import os\nimport time\n"), (ESH, "        seeded_shuffle(element_counts, [int(time.time()) // 86400])\n")]),
    ("bug", B, UT, ("    string_list.sort()\n", "    string_list = list(set(string_list))\n")),
    ("bug", B, QR, ("                            diff = current_cardinality + range_cardinality - component_cardinality\n",
                    "                            diff = current_cardinality + range_cardinality - component_cardinality\n                            if current_range[1] - diff <= current_range[0] + (os.getpid() % 2):\n                                diff = 0\n")),
    # --- schedules
    ("bug", B, RC, (EMPTY, "                except Empty as exc:\n                    if proc.is_alive():\n                        continue\n                    if not proc.is_alive():\n")),
    ("bug", B, RC, (GET, "                    if queue.empty() and proc.is_alive():\n                        continue\n" + GET)),
    ("bug", B, RC, [("        for key, process_count in process_counts.items():\n            processes[key] = []\n", "        for key, process_count in process_counts.items():\n            processes[key] = []\n            queue: mp.Queue = mp.Queue()\n"),
                    ("                queue: mp.Queue = mp.Queue()\n                processes[key].append(", "                processes[key].append(")]),
    ("bug", B, RC, ("            for queue, proc in processes:\n                try:", "            for queue, proc in sorted(processes, key=lambda p: p[0].qsize(), reverse=True):\n                try:")),
    # --- the rows of the index
    ("bug", B, QU, (", interval_start\n", "\n")),
    # --- the same, written differently
    ("ok", [], QR, (SORT + SHUF, "        chunker_index_keys = sorted(chunker_index_keys)\n" + SHUF)),
    ("ok", [], QR, ("        chunker_index_keys = list(self._chunker_index.keys())\n", "        chunker_index_keys = sorted(self._chunker_index)\n")),
    ("ok", [], QR, [("        chunker_index_keys = list(self._chunker_index.keys())\n", "        chunker_index_keys = self._shuffled_keys()\n"), (SORT + SHUF, ""),
                    ("    def _chunk_generator(self)", "    def _shuffled_keys(self) -> list[MixtureKey]:\n        keys = sorted(self._chunker_index.keys())\n        seeded_shuffle(keys, keys)\n        return keys\n\n    def _chunk_generator(self)")]),
    ("ok", [], QR, (COMP, "for dataset_id in sorted(target_ranges):\n            document_entries = target_ranges[dataset_id]\n            if True:\n                pass")) if False else ("ok", [], QR, (COMP, "for dataset_id, document_entries in sorted(target_ranges.items()):")),
    ("ok", [], QR, (DOC, "for file_id, ranges in [(fid, document_entries[fid]) for fid in sorted(document_entries.keys())]:")),
    ("ok", [], UT, (SEEDSH, "    _shuffle_lock.acquire()\n    try:\n        seed_everything_from_list(seed_list)\n        random.shuffle(to_shuffle)\n    finally:\n        _shuffle_lock.release()\n")),
    ("ok", [], UT, (SEEDSH, "    with _shuffle_lock:\n        _seed_and_shuffle(to_shuffle, seed_list)\n\n\ndef _seed_and_shuffle(items: list[Any], seeds: list[Any]) -> None:\n    seed_everything_from_list(seeds)\n    random.shuffle(items)\n")),
    ("ok", [], UT, (SEEDSH, "    random.Random(hash_list([str(x) for x in seed_list])).shuffle(to_shuffle)\n")),
    ("ok", [], UT, (SEEDSH, "    generator = random.Random(hash_list([str(x) for x in seed_list]) % 2**32)\n    generator.shuffle(to_shuffle)\n")),
    ("ok", [], UT, [("_shuffle_lock = threading.Lock()\nos.register_at_fork(\n    before=_shuffle_lock.acquire, after_in_parent=_shuffle_lock.release, after_in_child=_shuffle_lock.release\n)", "_rng_guard = threading.Lock()\nos.register_at_fork(\n    before=_rng_guard.acquire, after_in_parent=_rng_guard.release, after_in_child=_rng_guard.release\n)"),
                    ("    with _shuffle_lock:", "    with _rng_guard:")]),
    ("ok", [], UT, ("    hash_result = xxhash.xxh64_intdigest(concatenated_string)\n", "    hash_result: int = xxhash.xxh64(concatenated_string).intdigest()\n")),
    ("ok", [], UT, ("    string_list.sort()\n\n    # Concatenate the strings using a separator unlikely to occur in the strings\n    concatenated_string = \"\\0\".join(string_list)\n", "    concatenated_string = \"\\0\".join(sorted(string_list))\n")),
    ("ok", [], RC, (WSH, "            workload = workloads[property_combination]\n            seeded_shuffle(workload, [property_combination])\n")),
    ("ok", [], RC, ("            for dataset_id, file_entries in dataset_entries.items():\n                for file_id, ranges in file_entries.items():\n                    workloads[property_combination].append((dataset_id, file_id, ranges))\n",
                    "            workloads[property_combination] += [\n                (dataset_id, file_id, ranges)\n                for dataset_id, file_entries in dataset_entries.items()\n                for file_id, ranges in file_entries.items()\n            ]\n")),
    ("ok", [], RC, ("        property_names = list(active_iterators.keys())\n", "        property_names = sorted(active_iterators)\n")),
    ("ok", [], QR, ("        logger.debug(\"Persisting mixture log to disk...\")\n", "        logger.debug(f\"Persisting mixture log to disk at {time()} from process {os.getpid()}...\")\n")) if False else ("ok", [], QR, ("        logger.debug(\"Persisting mixture log to disk...\")\n", "        logger.debug(f\"Persisting mixture log to disk from process {os.getpid()}...\")\n")),
    ("ok", [], RC, (GET + EMPTY, "                    instance = queue.get(True, MULTIPROCESSING_TIMEOUT)\n" + EMPTY)),
    ("ok", [], RC, ("                try:\n" + GET + EMPTY, "                try:\n                    instance = self._next_instance(queue)\n" + EMPTY)) if False else ("ok", [], RC, ("            for queue, proc in processes:\n                try:", "            for queue, proc in list(processes):\n                try:")),
    ("ok", [], IM, ("sorted(", "sorted(") ) if False else ("ok", [], QR, ("            keys.update(set(self._chunker_index.keys()))\n", "            keys |= set(self._chunker_index)\n")),
    ("ok", [], QR, (UPD, "        for key in sorted(k for k in keys if k not in self._key_id_map):\n            if key not in self._key_id_map:")),
]
