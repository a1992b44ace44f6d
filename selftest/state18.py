"""Variants for C20 (wrapping mixtures)."""
D = "mixtera/core/query/mixture/dynamic_mixture.py"
M = "mixtera/core/query/mixture/mixture_schedule.py"
B = "mixtera/core/query/mixture/mixture.py"
Q = "mixtera/core/query/query_result.py"
P = ["C20"]
SEL = """        for entry in reversed(self.schedule):
            if self.current_step >= entry.start_step:
                return entry.mixture
        # Default to the first mixture if current_step is before any start_step
        return self.schedule[0].mixture
"""
UM = """            self._mixture = mixture
            self._mixture.process_index(self._chunker_index)
            self._update_key_id_map(new_mixture=True)
"""
STEP = """        super()._update_training_step(training_steps)
        for entry in self.schedule:
            entry.mixture._update_training_step(training_steps)
        self.strict = self.current_mixture.strict
"""
V = [
    ("bug", P, M, ("if self.current_step >= entry.start_step:", "if self.current_step > entry.start_step:")),
    ("bug", P, M, ("if self.current_step >= entry.start_step:", "if self.current_step + 1 >= entry.start_step:")),
    ("bug", P, M, ("for entry in reversed(self.schedule):", "for entry in self.schedule:")),
    ("bug", P, M, ("        return self.schedule[0].mixture\n", "        return self.schedule[-1].mixture\n")),
    ("bug", P, M, ("sorted(schedule, key=lambda entry: entry.start_step)", "list(schedule)")),
    ("bug", P, M, ("sorted(schedule, key=lambda entry: entry.start_step)", "sorted(schedule, key=lambda entry: -entry.start_step)")),
    ("bug", P, M, ("sorted(schedule, key=lambda entry: entry.start_step)", "sorted(schedule, key=lambda entry: entry.mixture.chunk_size)")),
    ("bug", P, M, ("return self.current_mixture.mixture_in_rows()", "return self.schedule[0].mixture.mixture_in_rows()")),
    ("bug", P, M, ("        for entry in self.schedule:\n            entry.mixture.process_index(chunker_index)", "        self.current_mixture.process_index(chunker_index)")),
    ("bug", P, M, ("        for entry in self.schedule:\n            entry.mixture.process_id_map(key_id_map)", "        self.current_mixture.process_id_map(key_id_map)")),
    ("bug", P, M, ("    def process_id_map(self, key_id_map: dict[MixtureKey, int]) -> None:\n        for entry in self.schedule:\n            entry.mixture.process_id_map(key_id_map)\n\n", "")),
    ("bug", P, M, ("    def all_keys(self) -> set[MixtureKey]:\n        return set().union(*(entry.mixture.all_keys() for entry in self.schedule))\n\n", "")),
    ("bug", P, M, ("set().union(*(entry.mixture.all_keys() for entry in self.schedule))", "self.current_mixture.all_keys()")),
    ("bug", P, M, ("entry.mixture.all_keys() for entry in self.schedule)", "entry.mixture.all_keys() for entry in self.schedule if entry.start_step >= self.current_step)")),
    ("bug", P, M, ("set().union(*(entry.mixture.all_keys() for entry in self.schedule))", "set.intersection(*(entry.mixture.all_keys() for entry in self.schedule))")),
    ("bug", P, M, ("        for entry in self.schedule:\n            entry.mixture._update_training_step(training_steps)\n", "")),
    ("bug", P, M, (STEP, STEP.replace("        self.strict = self.current_mixture.strict\n", ""))),
    ("bug", P, M, (STEP, "        self.strict = self.current_mixture.strict\n" + STEP.replace("        self.strict = self.current_mixture.strict\n", ""))),
    ("bug", P, M, (STEP, STEP.replace("        super()._update_training_step(training_steps)\n", ""))),
    ("bug", P, M, ("            entry.mixture._update_training_step(training_steps)\n", "            entry.mixture._update_training_step(training_steps - entry.start_step)\n")),
    ("bug", P, M, ("        self.current_mixture._process_losses(losses, counts, mixture_id)", "        for entry in self.schedule:\n            entry.mixture._process_losses(losses, counts, mixture_id)")),
    ("bug", P, M, ("        self.current_mixture._process_losses(losses, counts, mixture_id)", "        self.current_mixture._process_losses(counts, losses, mixture_id)")),
    ("bug", P, M, ("    def _process_losses(self, losses: np.ndarray, counts: np.ndarray, mixture_id: int) -> None:\n        self.current_mixture._process_losses(losses, counts, mixture_id)\n\n", "")),
    ("bug", P, M, ("    def write_logs(self) -> None:\n        for entry in self.schedule:\n            entry.mixture.write_logs()\n\n", "")),
    ("bug", P, M, ("            entry.mixture.write_logs()", "            if entry.start_step <= self.current_step:\n                entry.mixture.write_logs()")),
    ("bug", P, M, ("        self.strict = self.current_mixture.strict\n\n    def mixture_in_rows", "        self.strict = schedule[0].mixture.strict\n\n    def mixture_in_rows")),
    ("bug", P, D, ("        self._current_mixture._update_training_step(training_steps)\n", "")),
    ("bug", P, D, ("    def _update_training_step(self, training_steps: int) -> None:\n        super()._update_training_step(training_steps)\n        # Required for using a MixtureSchedule as the initial mixture.\n        self._current_mixture._update_training_step(training_steps)\n\n", "")),
    ("bug", P, D, ("    def all_keys(self) -> set[MixtureKey]:\n        return self._current_mixture.all_keys()\n\n", "")),
    ("bug", P, D, ("        self._current_mixture.process_index(chunker_index)", "        if not self._informed_alg:\n            self._current_mixture.process_index(chunker_index)")),
    ("bug", P, D, ("super().__init__(chunk_size, strict=strict)", "super().__init__(chunk_size, strict=initial_mixture.strict and strict)")),
    ("bug", P, Q, (UM, UM.replace("            self._mixture.process_index(self._chunker_index)\n", ""))),
    ("bug", P, Q, (UM, UM.replace("new_mixture=True", ""))),
    ("bug", P, Q, (UM, "            self._mixture = mixture\n            self._update_key_id_map(new_mixture=True)\n            self._mixture.process_index(self._chunker_index)\n")),
    ("bug", P, Q, (UM, "            self._mixture.process_index(self._chunker_index)\n            self._mixture = mixture\n            self._update_key_id_map(new_mixture=True)\n")),
    ("bug", P, Q, ("updated = new_mixture\n", "updated = False\n")),
    # refactors
    ("ok", P, M, (SEL, "        current = self.schedule[0].mixture\n        for entry in self.schedule:\n            if entry.start_step <= self.current_step:\n                current = entry.mixture\n        return current\n")),
    ("ok", P, M, (SEL, "        current = self.schedule[0].mixture\n        for entry in self.schedule:\n            if entry.start_step > self.current_step:\n                break\n            current = entry.mixture\n        return current\n")),
    ("ok", P, M, (SEL, "        return next((entry.mixture for entry in reversed(self.schedule) if entry.start_step <= self.current_step), self.schedule[0].mixture)\n")),
    ("ok", P, M, (SEL, "        started = [entry for entry in self.schedule if entry.start_step <= self.current_step]\n        return started[-1].mixture if started else self.schedule[0].mixture\n")),
    ("ok", P, M, (SEL, "        current = self.schedule[0]\n        for entry in self.schedule:\n            if self.current_step < entry.start_step:\n                break\n            current = entry\n        return current.mixture\n")),
    ("ok", P, M, ("if self.current_step >= entry.start_step:", "if not self.current_step < entry.start_step:")),
    ("ok", P, M, ("self.schedule = sorted(schedule, key=lambda entry: entry.start_step)", "self.schedule = list(schedule)\n        self.schedule.sort(key=lambda entry: entry.start_step)")),
    ("ok", P, M, ("        return set().union(*(entry.mixture.all_keys() for entry in self.schedule))\n", "        keys: set[MixtureKey] = set()\n        for entry in self.schedule:\n            keys |= entry.mixture.all_keys()\n        return keys\n")),
    ("ok", P, M, ("        return set().union(*(entry.mixture.all_keys() for entry in self.schedule))\n", "        keys: set[MixtureKey] = set()\n        for entry in self.schedule:\n            keys.update(entry.mixture.all_keys())\n        return keys\n")),
    ("ok", P, M, ("        return set().union(*(entry.mixture.all_keys() for entry in self.schedule))\n", "        return {key for entry in self.schedule for key in entry.mixture.all_keys()}\n")),
    ("ok", P, M, ("            entry.mixture.process_id_map(key_id_map)", "            mixture = entry.mixture\n            mixture.process_id_map(key_id_map=key_id_map)")),
    ("ok", P, M, (STEP, "        for entry in self.schedule:\n            entry.mixture._update_training_step(training_steps)\n        super()._update_training_step(training_steps)\n        in_force = self.current_mixture\n        self.strict = in_force.strict\n")),
    ("ok", P, M, (STEP, STEP.replace("        self.strict = self.current_mixture.strict\n", "        self._refresh()\n\n    def _refresh(self) -> None:\n        self.strict = self.current_mixture.strict\n"))),
    ("ok", P, M, ("        return self.current_mixture.mixture_in_rows()", "        current = self.current_mixture\n        rows = current.mixture_in_rows()\n        return rows")),
    ("ok", P, Q, (UM, "            mixture.process_index(self._chunker_index)\n            self._mixture = mixture\n            self._update_key_id_map(new_mixture=True)\n")),
    ("ok", P, Q, ("        if updated:\n            self._mixture.process_id_map(self._key_id_map)\n            logger.debug(f\"Updated key-id-map:\\n{self._key_id_map}\\n\")\n", "        if not updated:\n            return\n        self._mixture.process_id_map(self._key_id_map)\n")),
]
