CD = "mixtera/core/query/chunk_distributor.py"
QR = "mixtera/core/query/query_result.py"
V = [
    # C14 __next__
    ("bug", ["C14"], QR, ("            self._num_returns_gen += 1\n            return result", "            return result")),
    ("bug", ["C14"], QR, ("                with self._index.get_lock():\n                    self._index.get_obj().value -= 1\n", "")),
    ("bug", ["C14"], QR, ("            result = self._generator.send((self._mixture, chunk_target_index))\n", "            result = self._generator.send((self._mixture, chunk_target_index))\n            self._num_returns_gen += 1\n")),
    ("bug", ["C14"], QR, ("            result = self._generator.send((self._mixture, chunk_target_index))\n", "            result = self._generator.send((self._mixture, self._index.get_obj().value))\n")),
    ("bug", ["C14"], QR, ("            result = self._generator.send((self._mixture, chunk_target_index))\n", "            result = self._generator.send((self._mixture, self._num_returns_gen))\n")),
    ("bug", ["C14"], QR, ("                self._index.get_obj().value += 1\n", "                self._index.get_obj().value += 2\n")),
    ("bug", ["C14"], QR, ("            if result is None:\n", "            if result is None and self.stop_on_none:\n")),
    ("ok", [], QR, ("                chunk_target_index = self._index.get_obj().value\n                self._index.get_obj().value += 1\n", "                current = self._index.get_obj().value\n                self._index.get_obj().value = current + 1\n                chunk_target_index = current\n")),
    ("ok", [], QR, ("                chunk_target_index = self._index.get_obj().value\n                self._index.get_obj().value += 1\n", "                self._index.get_obj().value += 1\n                chunk_target_index = self._index.get_obj().value - 1\n")),
    ("ok", [], QR, [("            with self._index.get_lock():\n                chunk_target_index = self._index.get_obj().value\n                self._index.get_obj().value += 1\n", "            chunk_target_index = self._claim_index()\n"),
                    ("    def __next__(self)", "    def _claim_index(self) -> int:\n        with self._index.get_lock():\n            idx = self._index.get_obj().value\n            self._index.get_obj().value += 1\n        return idx\n\n    def __next__(self)")]),
    ("ok", [], QR, ("            self._num_returns_gen += 1\n            return result", "            handed_out = self._num_returns_gen\n            self._num_returns_gen = handed_out + 1\n            return result")),
    ("ok", [], QR, ("            if result is None:\n                # We failed to generate a chunk! We might rely on a new mixture before being able to generate a chunk again.\n", "            if not result is not None:\n")) if False else
    ("ok", [], QR, ("            self._num_returns_gen += 1\n            return result", "            if result is not None:\n                self._num_returns_gen += 1\n            return result")),
    # C14 generator
    ("bug", ["C14"], QR, ("                    if not self._is_replay:\n                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))", "                    if True:\n                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))")),
    ("bug", ["C14"], QR, ("self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))", "self._mixture_log.append((current_chunk_index, base_mixture))")),
    ("bug", ["C14"], QR, ("self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))", "self._mixture_log.append((target_chunk_index, deepcopy(base_mixture)))")),
    ("bug", ["C14"], QR, ("self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))", "self._mixture_log.append((mixture_id, deepcopy(base_mixture)))")),
    ("bug", ["C14"], QR, ("self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))", "self._mixture_log.append((current_chunk_index, deepcopy(self._mixture)))")),
    ("bug", ["C14"], QR, ("                if previous_mixture != mixture:\n", "                if previous_mixture is None or previous_mixture.keys() != mixture.keys():\n")),
    ("bug", ["C14"], QR, ("                if previous_mixture is not None or current_chunk_index == 0:\n", "                if previous_mixture is not None:\n")),
    ("bug", ["C14"], QR, ("                    base_mixture, target_chunk_index = yield None", "                    _, target_chunk_index = yield None")),
    ("bug", ["C14"], QR, ("                    base_mixture, target_chunk_index = yield None", "                    yield None")),
    ("bug", ["C14"], QR, ("            if chunk_success:\n                current_chunk_index += 1", "            current_chunk_index += 1")),
    ("bug", ["C14"], QR, ("            if chunk_success:\n                current_chunk_index += 1", "            if chunk_success and current_chunk_index == target_chunk_index:\n                current_chunk_index += 1")),
    ("bug", ["C14"], QR, ("                    if current_chunk_index == target_chunk_index:\n", "                    if current_chunk_index <= target_chunk_index:\n")),
    ("bug", ["C14"], QR, ("                if current_chunk_index == target_chunk_index:\n                    chunk = {", "                if True:\n                    chunk = {")),
    ("ok", [], QR, ("            if chunk_success:\n                current_chunk_index += 1", "            if not chunk_success:\n                continue\n            current_chunk_index = current_chunk_index + 1")),
    ("ok", [], QR, ("                if previous_mixture != mixture:\n", "                mixture_unchanged = previous_mixture == mixture\n                if not mixture_unchanged:\n")),
    ("ok", [], QR, [("                    if not self._is_replay:\n                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))\n\n                    self._persist_mixture_log()\n                    self._update", "                    self._log_mixture(current_chunk_index, base_mixture)\n                    self._update"),
                    ("    def __next__(self)", "    def _log_mixture(self, idx: int, mix: Mixture) -> None:\n        if not self._is_replay:\n            snapshot = deepcopy(mix)\n            self._mixture_log.append((idx, snapshot))\n        self._persist_mixture_log()\n\n    def __next__(self)")]),
    ("ok", [], QR, ("                if previous_mixture is not None or current_chunk_index == 0:\n", "                if current_chunk_index == 0 or not previous_mixture is None:\n")),
    ("ok", [], QR, ("                    if current_chunk_index == target_chunk_index:\n", "                    wanted = target_chunk_index == current_chunk_index\n                    if wanted:\n")),
    ("ok", [], QR, ("                    base_mixture, target_chunk_index = yield None", "                    request = yield None\n                    base_mixture, target_chunk_index = request")),
    # C14 replay
    ("bug", ["C14"], QR, ("        self.update_mixture(initial_mixture)\n", "")),
    ("bug", ["C14"], QR, ("initial_mixture = deepcopy(mixture_log[0][1])", "initial_mixture = mixture_log[0][1]")),
    ("bug", ["C14"], QR, ("        for i in range(num_chunks_replay):", "        for i in range(1, num_chunks_replay):")),
    ("bug", ["C14"], QR, ("        for i in range(num_chunks_replay):", "        for i in range(num_chunks_replay - 1):")),
    ("bug", ["C14"], QR, ("and i == next_mixture_change_chunk_index:", "and i + 1 == next_mixture_change_chunk_index:")),
    ("bug", ["C14"], QR, ("and i == next_mixture_change_chunk_index:", "and i > next_mixture_change_chunk_index:")),
    ("bug", ["C14"], QR, ("            while next_mixture_change_chunk_index is not None", "            if next_mixture_change_chunk_index is not None")),
    ("bug", ["C14"], QR, ("        assert self._index.get_obj().value == num_chunks_replay\n        self._is_replay = False", "        assert self._index.get_obj().value == num_chunks_replay\n")),
    ("bug", ["C14"], QR, ("        self._is_replay = True\n", "")),
    ("bug", ["C14"], QR, ("                if mixture_log_index < num_mixture_changes:\n                    next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]\n                    next_mixture = deepcopy(mixture_log[mixture_log_index][1])\n                else:\n                    next_mixture_change_chunk_index = None\n", "                if mixture_log_index < num_mixture_changes:\n                    next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]\n                    next_mixture = deepcopy(mixture_log[mixture_log_index - 1][1])\n                else:\n                    next_mixture_change_chunk_index = None\n")),
    ("ok", [], QR, ("and i == next_mixture_change_chunk_index:", "and next_mixture_change_chunk_index == i:")),
    # C14 loading
    ("bug", ["C14"], QR, ("        if num_chunks_replay > 0 and replay:", "        if num_chunks_replay > 0 and not replay:")),
    ("bug", ["C14"], QR, ("        query_result._num_returns_gen = 0  #", "        #")),
    ("bug", ["C14"], QR, ("        num_chunks_replay = query_result._num_returns_gen\n\n        query_result._num_returns_gen = 0  # reset for now, replay afterwards\n", "        query_result._num_returns_gen = 0\n        num_chunks_replay = query_result._num_returns_gen\n")),
    ("ok", [], QR, ("        if num_chunks_replay > 0 and replay:", "        needs_replay = replay and num_chunks_replay >= 1\n        if needs_replay:")),
]
