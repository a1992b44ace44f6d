DM = "mixtera/core/algo/dynamic_mixing/dynamic_mixing.py"
ADO = "mixtera/core/algo/ado/ado.py"
AVG = "mixtera/core/algo/loss_avg/loss_avg.py"
DYN = "mixtera/core/query/mixture/dynamic_mixture.py"
MIX = "mixtera/core/query/mixture/mixture.py"
LS = "mixtera/core/client/local/local_stub.py"
QR = "mixtera/core/query/query_result.py"
Q = "mixtera/core/query/query.py"
B = ["C21"]
V = [
    # --- lengths (base)
    ("bug", B, DM, ("            self.counts = np.concatenate([self.counts, np.zeros(size_diff, dtype=self.counts.dtype)])\n", "")),
    ("bug", B, DM, ("self.losses[:num_incoming_domains] += losses", "self.losses[:num_incoming_domains] = losses")),
    ("bug", B, DM, ("self.counts[:num_incoming_domains] += counts", "self.counts[:num_incoming_domains] += losses")),
    ("bug", B, DM, ("        self.counts[:num_incoming_domains] += counts\n", "        if num_internal_domains == num_domains:\n            self.counts[:num_incoming_domains] += counts\n")),
    ("bug", B, DM, ("np.zeros(size_diff, dtype=self.losses.dtype)", "np.zeros(num_domains, dtype=self.losses.dtype)")),
    ("bug", B, DM, ("np.zeros(size_diff, dtype=self.counts.dtype)", "np.ones(size_diff, dtype=self.counts.dtype)")),
    ("bug", B, DM, ("        self.counts = np.array([], dtype=self.counts.dtype)\n", "")),
    ("bug", B, DM, ("        self.counts = np.array([], dtype=np.int64)\n", "        self.counts = np.array([0], dtype=np.int64)\n")),
    ("bug", B, DM, ("        self._update_state(losses, counts)\n        return self.calc_mixture(update_at_client)", "        mixture = self.calc_mixture(update_at_client)\n        self._update_state(losses, counts)\n        return mixture")),
    ("bug", B, DM, ("        self._update_state(losses, counts)\n", "        if update_at_client:\n            self._update_state(losses, counts)\n")),
    ("bug", B, DM, ("self._update_state(losses, counts)\n        return", "self._update_state(counts, losses)\n        return")),
    ("bug", B, DM, ("if mixture_id > self.last_received_mixture:", "if mixture_id >= self.last_received_mixture:")),
    ("bug", B, DM, ("if mixture_id > self.last_received_mixture:", "if mixture_id != self.last_received_mixture:")),
    ("bug", B, DM, ("            self.last_received_mixture = mixture_id\n", "            self.last_received_mixture += 1\n")),
    ("bug", B, DM, ("            self.last_received_mixture = mixture_id\n", "")),
    # --- lengths (ADO)
    ("bug", B, ADO, ("            if self.scaling_law_params is not None:\n                # Until the next fit, the new domains have a zero derivative\n                self.scaling_law_params = np.concatenate(\n                    [self.scaling_law_params, np.zeros((size_diff, 3), dtype=self.scaling_law_params.dtype)]\n                )\n", "")),
    ("bug", B, ADO, ("        if (size_diff := max(len(self.losses), len(self.initial_mixture)) - len(losses)) > 0:\n            # The feedback does not cover all known domains\n            losses = np.concatenate([losses, np.zeros(size_diff, dtype=losses.dtype)])\n            counts = np.concatenate([counts, np.zeros(size_diff, dtype=counts.dtype)])\n", "")),
    ("bug", B, ADO, ("            if self.h_t is not None:\n                self.h_t = np.concatenate([self.h_t, np.zeros(size_diff, dtype=self.h_t.dtype)])\n", "")),
    ("bug", B, ADO, ("            if self.pi_bar_t_minus_1 is not None:", "            if self.pi_t is None and self.pi_bar_t_minus_1 is not None:")),
    ("bug", B, ADO, ("                self.per_step_losses[idx] = np.concatenate(\n                    [self.per_step_losses[idx], np.zeros(size_diff, dtype=self.per_step_losses[idx].dtype)]\n                )\n", "")),
    ("bug", B, ADO, ("        num_internal_domains = len(self.losses)\n\n        if self.log_counts", "        if self.log_counts"), ) if False else
    ("bug", B, ADO, [("        num_internal_domains = len(self.losses)\n\n        if self.log_counts is not None:\n            self.log_counts.append(counts.tolist())\n\n        super()._update_state(losses, counts)\n", "        if self.log_counts is not None:\n            self.log_counts.append(counts.tolist())\n\n        super()._update_state(losses, counts)\n        num_internal_domains = len(self.losses)\n")]),
    ("bug", B, ADO, ("        self.per_step_losses.append(per_step_losses)\n", "        if np.any(counts > 0):\n            self.per_step_losses.append(per_step_losses)\n")),
    ("bug", B, ADO, ("        else:\n            self.per_step_counts.append(counts.copy())\n", "")),
    ("bug", B, ADO, ("            if (size_diff := num_domains - len(self.mu_k)) > 0:\n                self.mu_k = np.concatenate([self.mu_k, np.zeros(size_diff, dtype=self.mu_k.dtype)])\n\n            assert size_diff >= 0, f\"size_diff = {size_diff}\"\n            assert self.mu_k is not None\n            assert np.isclose(1, np.sum(self.mu_k))\n            assert (\n                len(self.mu_k) == num_domains\n            ), f\"len(self.mu_k) = {len(self.mu_k)} != num_domains = {num_domains}\\n\\n{self.mu_k}\"\n", "")),
    # --- failed fit
    ("bug", B, ADO, [("        scaling_law_params = np.zeros((num_domains, 3))  # [log_beta_k, log_epsilon_k, alpha_k]\n", "        self.scaling_law_params = np.zeros((num_domains, 3))  # [log_beta_k, log_epsilon_k, alpha_k]\n"), ("            scaling_law_params[k] = best_params\n", "            self.scaling_law_params[k] = best_params\n"), ("        # Only replace the previous parameters after all fits succeeded\n        self.scaling_law_params = scaling_law_params\n", "")]),
    ("bug", B, ADO, ("        logger.debug(\"Re-fitting scaling laws.\")\n", "        logger.debug(\"Re-fitting scaling laws.\")\n        self.scaling_law_params = None\n")),
    ("bug", B, AVG, ("        return mixture\n", "        return mixture[mask]\n")),
    # --- adoption
    ("bug", B, DYN, ("if (mixture_np := self._mixing_alg.process_losses(losses, counts, mixture_id)) is not None:", "if (mixture_np := self._mixing_alg.process_losses(counts, losses, mixture_id)) is not None:")),
    ("bug", B, DYN, ("enumerate(mixture_np) if val > 0}", "enumerate(mixture_np, 1) if val > 0}")),
    ("bug", B, DYN, ("{self._id_key_map[idx]: val for idx, val in enumerate(mixture_np) if val > 0}", "{key: val for key, val in zip(self._key_id_map, mixture_np) if val > 0}")),
    ("bug", B, DYN, ("{self._id_key_map[idx]: val for idx, val in enumerate(mixture_np) if val > 0}", "{self._id_key_map[idx - 1]: val for idx, val in enumerate(mixture_np) if val > 0}")),
    ("bug", B, DYN, ("enumerate(mixture_np) if val > 0}", "enumerate(mixture_np) if val > 0.01}")),
    ("bug", B, DYN, ("StaticMixture(self.chunk_size, weight_map, strict=self.strict)", "StaticMixture(self.chunk_size, weight_map)")),
    ("bug", B, DYN, ("StaticMixture(self.chunk_size, weight_map, strict=self.strict)", "StaticMixture(len(losses), weight_map, strict=self.strict)")),
    ("bug", B, DYN, ("            self._current_mixture = StaticMixture(self.chunk_size, weight_map, strict=self.strict)\n", "            if len(weight_map) > 1:\n                self._current_mixture = StaticMixture(self.chunk_size, weight_map, strict=self.strict)\n")),
    ("bug", B, DYN, [("            assert np.isclose(mixture_np.sum(), 1), (\n                f\"Mixture result is {mixture_np}, which sums to {mixture_np.sum()} instead of 1. \"\n                + \"There is an issue in the dynamic mixing algorithm.\"\n            )\n", ""), ("            logger.debug(f\"New mixture is {self._current_mixture}\")\n", "            assert np.isclose(mixture_np.sum(), 1), \"There is an issue in the dynamic mixing algorithm.\"\n            logger.debug(f\"New mixture is {self._current_mixture}\")\n")]),
    # --- ids
    ("bug", B, DYN, ("        self._id_key_map = {value: key for key, value in key_id_map.items()}\n", "        if self._id_key_map is None:\n            self._id_key_map = {value: key for key, value in key_id_map.items()}\n")),
    ("bug", B, DYN, ("        self._id_key_map = {value: key for key, value in key_id_map.items()}\n", "        self._id_key_map = dict(enumerate(key_id_map))\n")) if False else
    ("bug", B, DYN, ("{value: key for key, value in key_id_map.items()}", "{key: value for key, value in key_id_map.items()}")),
    ("bug", B, DYN, ("            for key, value in mixture.items():\n                initial_mix[self._key_id_map[key]] = value\n", "            for idx, value in enumerate(mixture.values()):\n                initial_mix[idx] = value\n")),
    ("bug", B, DYN, ("            initial_mix = initial_mix / np.sum(initial_mix)\n", "")),
    ("bug", B, DYN, ("np.zeros(max(key_id_map.values()) + 1, dtype", "np.zeros(len(mixture), dtype")),
    # --- steps, feedback
    ("bug", B, MIX, ("self.current_step = max(self.current_step, training_steps)", "self.current_step = training_steps")),
    ("bug", B, MIX, ("self.current_step = max(self.current_step, training_steps)", "if training_steps != self.current_step:\n            self.current_step = training_steps")),
    ("bug", B, MIX, ("self.current_step = max(self.current_step, training_steps)", "self.current_step = max(self.current_step, training_steps - 1)")),
    ("bug", B, DYN, ("        super()._update_training_step(training_steps)\n", "        if training_steps > 0 and self._informed_alg:\n            super()._update_training_step(training_steps)\n")),
    ("bug", B, MIX, ("if feedback.counts is not None and feedback.losses is not None:", "if feedback.losses is not None:")),
    ("bug", B, MIX, ("if feedback.counts is not None and feedback.losses is not None:", "if feedback.counts is not None or feedback.losses is not None:")),
    ("bug", B, MIX, ("self._process_losses(feedback.losses, feedback.counts, feedback.mixture_id)", "self._process_losses(feedback.losses, feedback.counts, feedback.training_steps)")),
    ("bug", B, MIX, ("        self._update_training_step(feedback.training_steps)\n        if feedback.counts is not None and feedback.losses is not None:\n            self._process_losses(feedback.losses, feedback.counts, feedback.mixture_id)\n", "        if feedback.counts is not None and feedback.losses is not None:\n            self._process_losses(feedback.losses, feedback.counts, feedback.mixture_id)\n        self._update_training_step(feedback.training_steps)\n")),
    # --- job
    ("bug", B, LS, ("            self._get_query_result(job_id)._mixture.process_client_feedback(feedback)\n", "            for other in self._training_query_map:\n                self._get_query_result(other)._mixture.process_client_feedback(feedback)\n")),
    ("bug", B, LS, ("        with self._training_query_map_lock:\n            # logger.debug(f\"Received feedback: {feedback}\")\n            self._get_query_result(job_id)._mixture.process_client_feedback(feedback)\n            return True", "        self._get_query_result(job_id)._mixture.process_client_feedback(feedback)\n        return True")),
    ("bug", B, LS, ("query.results.update_mixture(deepcopy(args.mixture))", "query.results.update_mixture(args.mixture)")),
    ("bug", B, Q, ("deepcopy(mixture)", "mixture")),
    # --- mixture ids
    ("bug", B, QR, ("                    mixture_id += 1\n                    previous_mixture = deepcopy(mixture)\n", "                    previous_mixture = deepcopy(mixture)\n")),
    ("bug", B, QR, ("                    previous_mixture = deepcopy(mixture)\n", "                    previous_mixture = mixture\n")),
    ("bug", B, QR, ("                    mixture_id += 1\n                    previous_mixture = deepcopy(mixture)\n", "                    mixture_id += 1\n                    if previous_mixture is None:\n                        previous_mixture = deepcopy(mixture)\n")),
    ("bug", B, QR, ("                    mixture_id += 1\n                    previous_mixture = deepcopy(mixture)\n", "                    if not self._is_replay:\n                        mixture_id += 1\n                    previous_mixture = deepcopy(mixture)\n")),
    ("bug", B, QR, ("                    mixture_id += 1\n                    previous_mixture = None\n", "                    previous_mixture = None\n")),
    ("bug", B, QR, ("                    mixture_id += 1\n                    previous_mixture = None\n", "                    mixture_id += 1\n")),
    # --- refactorings
    ("ok", [], DM, ("        num_domains = max(num_incoming_domains, num_internal_domains)\n\n        if num_internal_domains < num_domains:\n            # Expand the internal arrays to accommodate new domains\n            size_diff = num_domains - num_internal_domains\n", "        if num_incoming_domains > num_internal_domains:\n            size_diff = num_incoming_domains - num_internal_domains\n")),
    ("ok", [], DM, [("            self.losses = np.concatenate([self.losses, np.zeros(size_diff, dtype=self.losses.dtype)])\n            self.counts = np.concatenate([self.counts, np.zeros(size_diff, dtype=self.counts.dtype)])\n", "            self.losses = self._grow(self.losses, size_diff)\n            self.counts = self._grow(self.counts, size_diff)\n"), ("    def reset_state(self)", "    @staticmethod\n    def _grow(array: np.ndarray, by: int) -> np.ndarray:\n        return np.concatenate([array, np.zeros(by, dtype=array.dtype)])\n\n    def reset_state(self)")]),
    ("ok", [], DM, ("            self.losses = np.concatenate([self.losses, np.zeros(size_diff, dtype=self.losses.dtype)])\n", "            self.losses = np.pad(self.losses, (0, size_diff))\n")),
    ("ok", [], DM, ("        update_at_client = False\n        if mixture_id > self.last_received_mixture:\n            update_at_client = True\n            self.last_received_mixture = mixture_id\n", "        update_at_client = mixture_id > self.last_received_mixture\n        self.last_received_mixture = max(self.last_received_mixture, mixture_id)\n")),
    ("ok", [], DM, ("        self._update_state(losses, counts)\n        return self.calc_mixture(update_at_client)", "        self._update_state(counts=counts, losses=losses)\n        result = self.calc_mixture(updated_at_client=update_at_client)\n        return result")),
    ("ok", [], DM, ("        self.losses[:num_incoming_domains] += losses\n        self.counts[:num_incoming_domains] += counts\n", "        self.counts[:num_incoming_domains] += counts\n        self.losses[:num_incoming_domains] += losses\n")),
    ("ok", [], ADO, ("            if self.h_t is not None:\n                self.h_t = np.concatenate([self.h_t, np.zeros(size_diff, dtype=self.h_t.dtype)])\n            if self.mu_k is not None:\n                self.mu_k = np.concatenate([self.mu_k, np.zeros(size_diff, dtype=self.mu_k.dtype)])\n", "            if self.mu_k is not None:\n                self.mu_k = np.concatenate([self.mu_k, np.zeros(size_diff, dtype=self.mu_k.dtype)])\n            h_t = self.h_t\n            if h_t is not None:\n                padding = np.zeros(size_diff, dtype=h_t.dtype)\n                self.h_t = np.concatenate([h_t, padding])\n")),
    ("ok", [], ADO, [("            if self.h_t is not None:\n                self.h_t = np.concatenate([self.h_t, np.zeros(size_diff, dtype=self.h_t.dtype)])\n", "            if self.h_t is not None:\n                self.h_t = self._pad(self.h_t, size_diff)\n"), ("    def fit_scaling_laws(self)", "    def _pad(self, values: np.ndarray, by: int) -> np.ndarray:\n        return np.concatenate([values, np.zeros(by, dtype=values.dtype)])\n\n    def fit_scaling_laws(self)")]),
    ("ok", [], DYN, ("            weight_map = {self._id_key_map[idx]: val for idx, val in enumerate(mixture_np) if val > 0}\n", "            weight_map = {}\n            for idx, val in enumerate(mixture_np):\n                if val <= 0:\n                    continue\n                weight_map[self._id_key_map[idx]] = val\n")),
    ("ok", [], DYN, ("            weight_map = {self._id_key_map[idx]: val for idx, val in enumerate(mixture_np) if val > 0}\n", "            weight_map = {key: mixture_np[idx] for idx, key in self._id_key_map.items() if idx < len(mixture_np) and mixture_np[idx] > 0}\n")),
    ("ok", [], DYN, ("        if (mixture_np := self._mixing_alg.process_losses(losses, counts, mixture_id)) is not None:\n", "        mixture_np = self._mixing_alg.process_losses(losses=losses, counts=counts, mixture_id=mixture_id)\n        if mixture_np is None:\n            logger.debug(\"no update\")\n        else:\n")),
    ("ok", [], DYN, ("        self._id_key_map = {value: key for key, value in key_id_map.items()}\n", "        inverse = {}\n        for key, value in key_id_map.items():\n            inverse[value] = key\n        self._id_key_map = inverse\n")),
    ("ok", [], MIX, ("self.current_step = max(self.current_step, training_steps)", "if training_steps > self.current_step:\n            self.current_step = training_steps")),
    ("ok", [], MIX, ("        if feedback.counts is not None and feedback.losses is not None:\n            self._process_losses(feedback.losses, feedback.counts, feedback.mixture_id)\n", "        if feedback.counts is None or feedback.losses is None:\n            return\n        self._process_losses(feedback.losses, feedback.counts, mixture_id=feedback.mixture_id)\n")),
    ("ok", [], LS, ("            self._get_query_result(job_id)._mixture.process_client_feedback(feedback)\n            return True", "            mixture = self._get_query_result(job_id)._mixture\n            mixture.process_client_feedback(feedback)\n        return True")),
    ("ok", [], LS, ("            query.results.update_mixture(deepcopy(args.mixture))  # not shared with other jobs\n", "            mixture = deepcopy(args.mixture)\n            query.results.update_mixture(mixture)\n")),
    ("ok", [], QR, ("                    mixture_id += 1\n                    previous_mixture = deepcopy(mixture)\n", "                    previous_mixture = deepcopy(mixture)\n                    mixture_id = mixture_id + 1\n")),
    ("ok", [], QR, ("                if previous_mixture != mixture:\n", "                mixture_changed = mixture != previous_mixture\n                if mixture_changed:\n")),
]
