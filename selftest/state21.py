RC = "mixtera/core/query/result_chunk.py"
B = ["C29"]
TAKE = """                        yield self._key_id_map[property_key], next(active_iterators[property_key])
                        nothing_yielded_window = False
                        processed_items[property_key] += 1
                        items_yielded += 1
"""
BREAK = """                        if items_yielded >= self._window_size:
                            break
"""
STOP = """                    except StopIteration:
                        # If no more workloads, this property is done
                        deleted_keys.add(property_key)
                        # Finish current window with best effort, but don't do another one (IF best effort = False)
                        outer_stop = True
"""
SKIP = "                    if property_key in deleted_keys or processed_items[property_key] >= property_count:\n"
OUTER = "        while len(active_iterators) > len(deleted_keys) and (self._window_best_effort or not outer_stop):\n"
INNER = "            while len(active_iterators) > len(deleted_keys) and items_yielded < self._window_size:\n"
PROC = "            processed_items = {property_key: 0 for property_key, _ in element_counts}\n"
RAISE = """            if items_yielded == 0:
                # Only combinations that are too rare to get a share of the window are left.
                element_counts = [(property_key, max(count, 1)) for property_key, count in element_counts]
"""
OVER = """                try:
                    yield self._key_id_map[property_name], next(active_iterators[property_name])
                except StopIteration:
                    deleted_keys.add(property_name)
"""
BASE = "(key, (self._window_size * value) // self._chunk_size) for key, value in self._mixture.items()"
ADJ = "(key, count + remainder if i == 0 else count) for i, (key, count) in enumerate(initial_counts)"
V = [
    # --- defects repaired
    ("bug", B, RC, (BASE, "(key, int(self._window_size * (value / self._chunk_size))) for key, value in self._mixture.items()")),
    ("bug", B, RC, (RAISE, "")),
    # --- shares
    ("bug", B, RC, (BASE, "(key, int(self._window_size * value / self._chunk_size)) for key, value in self._mixture.items()")),
    ("bug", B, RC, (BASE, "(key, (self._window_size * self._chunk_size) // value) for key, value in self._mixture.items()")),
    ("bug", B, RC, (BASE, "(key, (self._window_size * value) // self._window_size) for key, value in self._mixture.items()")),
    ("bug", B, RC, ("remainder = self._window_size - total_counts", "remainder = self._chunk_size - total_counts")),
    ("bug", B, RC, (ADJ, "(key, count + remainder if i == 1 else count) for i, (key, count) in enumerate(initial_counts)")),
    ("bug", B, RC, (ADJ, "(key, count + remainder) for i, (key, count) in enumerate(initial_counts)")),
    ("bug", B, RC, (ADJ, "(key, count + remainder if i > 0 else count) for i, (key, count) in enumerate(initial_counts)")),
    ("bug", B, RC, (ADJ, "(key, count) for i, (key, count) in enumerate(initial_counts)")),
    ("bug", B, RC, (BASE, BASE + " if value > self._window_size")),
    # --- taking, counting
    ("bug", B, RC, ("                        processed_items[property_key] += 1\n", "")),
    ("bug", B, RC, ("                        items_yielded += 1\n", "")),
    ("bug", B, RC, ("processed_items[property_key] += 1\n                        items_yielded += 1\n", "processed_items[property_key] += 1\n                        items_yielded += 2\n")),
    ("bug", B, RC, (SKIP, "                    if property_key in deleted_keys or processed_items[property_key] > property_count:\n")),
    ("bug", B, RC, (SKIP, "                    if property_key in deleted_keys:\n")),
    ("bug", B, RC, (TAKE, """                        sample = next(active_iterators[property_key])
                        nothing_yielded_window = False
                        processed_items[property_key] += 1
                        items_yielded += 1
                        if items_yielded >= self._window_size:
                            break
                        yield self._key_id_map[property_key], sample
""")),
    ("bug", B, RC, (TAKE + "                        # If the window is full, break the inner for loop, will also break the outer (window) while loop\n",
                    """                        sample = next(active_iterators[property_key])
                        nothing_yielded_window = False
                        if sample is not None:
                            yield self._key_id_map[property_key], sample
                        processed_items[property_key] += 1
                        items_yielded += 1
""")),
    ("bug", B, RC, ("                        nothing_yielded_window = False\n", "")),
    # --- exhaustion
    ("bug", B, RC, (STOP, STOP.replace("                        deleted_keys.add(property_key)\n", ""))),
    ("bug", B, RC, (STOP, STOP.replace("except StopIteration:", "except Exception:"))),
    ("bug", B, RC, (STOP, STOP.replace("                        outer_stop = True\n", ""))),
    ("bug", B, RC, (STOP, STOP.replace("deleted_keys.add(property_key)", "if not self._window_best_effort:\n                            deleted_keys.add(property_key)"))),
    ("bug", B, RC, (STOP, STOP.replace("outer_stop = True", "return"))),
    ("bug", B, RC, ("                        if items_yielded >= self._window_size:\n                            break\n", "                        if processed_items[property_key] >= property_count:\n                            deleted_keys.add(property_key)\n")),
    ("bug", B, RC, (OUTER, "        while len(active_iterators) > len(deleted_keys) + 1 and (self._window_best_effort or not outer_stop):\n")),
    ("bug", B, RC, (OUTER, "        while len(active_iterators) > len(deleted_keys) and not outer_stop:\n")),
    ("bug", B, RC, (OUTER, "        while len(active_iterators) > len(deleted_keys):\n")),
    ("bug", B, RC, (OUTER, "        while len(active_iterators) > len(deleted_keys) and (not self._window_best_effort or not outer_stop):\n")),
    # --- windows
    ("bug", B, RC, [(PROC, ""), (OUTER, PROC[4:] + OUTER)]),
    ("bug", B, RC, [("            items_yielded = 0\n", ""), (OUTER, "        items_yielded = 0\n" + OUTER)]),
    ("bug", B, RC, (INNER, "            while len(active_iterators) > len(deleted_keys) and items_yielded < self._window_size - 1:\n")),
    ("bug", B, RC, ("                if nothing_yielded_window:\n                    break\n", "                if not nothing_yielded_window:\n                    break\n")),
    ("bug", B, RC, (INNER, "            while not outer_stop and items_yielded < self._window_size:\n")),
    ("bug", B, RC, (RAISE, RAISE.replace("items_yielded == 0", "outer_stop"))),
    ("bug", B, RC, (RAISE, RAISE.replace("max(count, 1)", "max(count, 0)"))),
    # --- overall
    ("bug", B, RC, (OVER, OVER.replace("                    deleted_keys.add(property_name)", "                    return"))),
    ("bug", B, RC, (OVER, OVER.replace("StopIteration", "(StopIteration, RuntimeError)"))),
    ("bug", B, RC, ("        while len(active_iterators) > len(deleted_keys):\n            for property_name", "        while not deleted_keys:\n            for property_name")),
    ("bug", B, RC, (OVER, """                sample = next(active_iterators[property_name], None)
                if not sample:
                    deleted_keys.add(property_name)
                    continue
                yield self._key_id_map[property_name], sample
""")),
    # --- choice and configuration
    ("bug", B, RC, ('if self._mixture_type in {"token", "window"}:', 'if self._mixture_type == "window":')),
    ("bug", B, RC, ('if self._mixture_type in {"token", "window"}:', 'if self._mixture_type != "token":')),
    ("bug", B, RC, ('if self._mixture_type == "window" and self._window_size < 1:', 'if self._mixture_type == "window" and self._window_size < 0:')),
    ("bug", B, RC, ('            self._window_size = 128\n', '            self._window_size = 0\n')),
    # --- behaviour kept
    ("ok", B, RC, (BASE, "(key, self._window_size * value // self._chunk_size) for key, value in self._mixture.items()")),
    ("ok", B, RC, (BASE, "(key, value * self._window_size // self._chunk_size) for (key, value) in self._mixture.items()")),
    ("ok", B, RC, (ADJ, "(key, count if i > 0 else count + remainder) for i, (key, count) in enumerate(initial_counts)")),
    ("ok", B, RC, (SKIP, "                    if property_key in deleted_keys:\n                        continue\n                    if not processed_items[property_key] < property_count:\n")),
    ("ok", B, RC, (SKIP, "                    if processed_items[property_key] >= property_count or property_key in deleted_keys:\n")),
    ("ok", B, RC, (TAKE, """                        sample = next(active_iterators[property_key])
                        yield self._key_id_map[property_key], sample
                        items_yielded += 1
                        processed_items[property_key] = processed_items[property_key] + 1
                        nothing_yielded_window = False
""")),
    ("ok", B, RC, (OUTER, "        while len(deleted_keys) < len(active_iterators) and (self._window_best_effort or outer_stop is False):\n")),
    ("ok", B, RC, (OUTER, "        while len(active_iterators) != len(deleted_keys):\n            if outer_stop and not self._window_best_effort:\n                break\n")),
    ("ok", B, RC, (INNER, "            while items_yielded < self._window_size and len(active_iterators) > len(deleted_keys):\n")),
    ("ok", B, RC, (INNER, "            while len(active_iterators) - len(deleted_keys) > 0 and self._window_size - items_yielded > 0:\n")),
    ("ok", B, RC, (BREAK, BREAK.replace(">=", "=="))),
    ("ok", B, RC, [("                nothing_yielded_window = True\n", "                yielded_any = False\n"), ("nothing_yielded_window = False\n", "yielded_any = True\n"), ("if nothing_yielded_window:", "if not yielded_any:")]),
    ("ok", B, RC, (PROC, "            processed_items = dict.fromkeys(active_iterators, 0)\n")),
    ("ok", B, RC, [("        deleted_keys: set[MixtureKey] = set()\n        # Continue", "        finished: set[MixtureKey] = set()\n        # Continue"),
                   (OUTER, OUTER.replace("deleted_keys", "finished")), (INNER, INNER.replace("deleted_keys", "finished")),
                   (SKIP, SKIP.replace("deleted_keys", "finished")), (STOP, STOP.replace("deleted_keys", "finished"))]),
    ("ok", B, RC, (STOP, STOP.replace("                        outer_stop = True\n", "                        if not self._window_best_effort:\n                            outer_stop = True\n"))),
    ("ok", B, RC, (RAISE, RAISE.replace("items_yielded == 0", "not items_yielded"))),
    ("ok", B, RC, (RAISE, RAISE.replace("max(count, 1)", "max(1, count)"))),
    ("ok", B, RC, (TAKE, TAKE.replace("yield self._key_id_map[property_key], next(active_iterators[property_key])", "reader = active_iterators[property_key]\n                        yield (self._key_id_map[property_key], next(reader))"))),
    ("ok", B, RC, ("        while len(active_iterators) > len(deleted_keys):\n            for property_name", "        while True:\n            if len(deleted_keys) >= len(active_iterators):\n                break\n            for property_name")),
    ("ok", B, RC, (OVER, """                done = object()
                sample = next(active_iterators[property_name], done)
                if sample is done:
                    deleted_keys.add(property_name)
                    continue
                yield self._key_id_map[property_name], sample
""")),
    ("ok", B, RC, ('if self._mixture_type in {"token", "window"}:', 'if self._mixture_type != "simple":')),
    ("ok", B, RC, ('if self._mixture_type in {"token", "window"}:', 'if self._mixture_type == "token" or self._mixture_type == "window":')),
    ("ok", B, RC, ('if self._mixture_type == "window" and self._window_size < 1:', 'if self._mixture_type == "window" and not self._window_size >= 1:')),
    ("ok", B, RC, ("        total_counts = sum(count for _, count in initial_counts)\n        remainder = self._window_size - total_counts\n", "        remainder = self._window_size - sum(c for _, c in initial_counts)\n")),
    # helper extracted
    ("ok", B, RC, [("    def _iterate_overall_mixture(\n", """    def _may_go_on(self, outer_stop: bool) -> bool:
        return self._window_best_effort or not outer_stop

    def _iterate_overall_mixture(
"""), (OUTER, "        while len(active_iterators) > len(deleted_keys) and self._may_go_on(outer_stop):\n")]),
    ("ok", B, RC, [("    def _iterate_overall_mixture(\n", """    @staticmethod
    def _skip(key, count, deleted, processed) -> bool:
        return key in deleted or processed[key] >= count

    def _iterate_overall_mixture(
"""), (SKIP, "                    if self._skip(property_key, property_count, deleted_keys, processed_items):\n")]),
    ("ok", B, RC, [("    def _get_element_counts(", """    def _share(self, value: int) -> int:
        return (self._window_size * value) // self._chunk_size

    def _get_element_counts("""), (BASE, "(key, self._share(value)) for key, value in self._mixture.items()")]),
]
