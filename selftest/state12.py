P = "mixtera/utils/prefetch_iterator.py"
K = "mixtera/utils/tokenizing_iterator.py"
C = ["C27"]
src = open("/repo/" + K).read()
at = src.index("class ThreadedTokenizingIterator:")
SY, TH = src[:at], src[at:]


def t(*ed):
    n = TH
    for o, w in ed:
        assert n.count(o) >= 1, o
        n = n.replace(o, w, 1)
    return (TH, n)


def y(*ed):
    n = SY
    for o, w in ed:
        assert n.count(o) >= 1, o
        n = n.replace(o, w, 1)
    return (SY, n)


V = [
    # ---- first item
    ("bug", C, P, ("        except BaseException as e:  # pylint: disable=broad-exception-caught\n", "        except StopIteration as e:\n")),
    ("bug", C, P, ("            self.error = e\n", "            self.first_item = None\n")),
    ("bug", C, P, ("            self.error = e\n        finally:\n            self.prefetch_event.set()\n", "            self.error = e\n            return\n        self.prefetch_event.set()\n")),
    ("ok", C, P, ("            self.error = e\n        finally:\n            self.prefetch_event.set()\n", "            self.error = e\n        self.prefetch_event.set()\n")),
    ("bug", C, P, ("            self.error = e\n        finally:\n            self.prefetch_event.set()\n", "            self.prefetch_event.set()\n            self.error = e\n        finally:\n            self.prefetch_event.set()\n")),
    ("bug", C, P, ("            if self.error is not None:\n                raise self.error\n\n            return self.first_item", "            if self.first_item is not None:\n                return self.first_item\n            raise StopIteration()\n            return self.first_item")),
    ("bug", C, P, ("            self.first_item_consumed = True\n", "")),
    ("bug", C, P, ("            self.prefetch_event.wait()\n", "")),
    ("bug", C, P, ("            self.prefetch_event.wait()\n            self.first_item_consumed = True\n            if self.error is not None:\n                raise self.error\n", "            if self.error is not None:\n                raise self.error\n            self.prefetch_event.wait()\n            self.first_item_consumed = True\n")),
    ("bug", C, P, ("        self.prefetch_thread.start()\n", "        self.prefetch_thread.start()\n        self.error = None\n")),
    ("bug", C, P, ("        self.prefetch_thread.start()\n", "        pass\n")),
    ("bug", C, P, ("            return self.first_item  # type: ignore[return-value]\n", "            return next(self.iterator)\n")),
    ("bug", C, P, ("self.first_item_consumed = False", "self.first_item_consumed = True")),
    ("ok", C, P, ("            if self.error is not None:\n                raise self.error\n\n            return self.first_item  # type: ignore[return-value]\n", "            if self.error is None:\n                return self.first_item\n            raise self.error\n")),
    ("ok", C, P, [("        if not self.first_item_consumed:\n", "        if self.first_item_consumed:\n            return next(self.iterator)\n        if True:\n"), ("\n        return next(self.iterator)\n", "\n")]),
    ("ok", C, P, [("            self.prefetch_event.wait()\n            self.first_item_consumed = True\n            if self.error is not None:\n                raise self.error\n\n            return self.first_item  # type: ignore[return-value]\n", "            return self._first()\n"), ("    def __next__", "    def _first(self):\n        self.first_item_consumed = True\n        self.prefetch_event.wait()\n        if self.error is not None:\n            raise self.error\n        return self.first_item\n\n    def __next__")]),
    # ---- threaded tokenizer
    ("bug", C, K, t(("        except BaseException as e:  # pylint: disable=broad-exception-caught\n", "        except ValueError as e:\n"))),
    ("bug", C, K, t(("                self.error = e\n                self.eos = True\n", "                self.error = e\n"))),
    ("bug", C, K, t(("                self.error = e\n", ""))),
    ("bug", C, K, t(("                self.error = e\n                self.eos = True\n                self.condition.notify_all()\n", "                self.error = e\n                self.eos = True\n"))),
    ("bug", C, K, t(("                self.error = e\n                self.eos = True\n                self.condition.notify_all()\n", "                self.eos = True\n                self.condition.notify_all()\n            with self.lock:\n                self.error = e\n"))),
    ("ok", C, K, t(("                self.error = e\n                self.eos = True\n                self.condition.notify_all()\n", "                self.eos = True\n                self.condition.notify_all()\n                self.error = e\n"))),
    ("bug", C, K, t(("                    if local_eos:\n                        self.eos = True\n                    self.condition.notify_all()\n", "                    if local_eos:\n                        self.eos = True\n"))),
    ("ok", C, K, t(("                    if local_eos:\n                        self.eos = True\n                    self.condition.notify_all()\n", "                    self.eos = local_eos\n                    self.condition.notify_all()\n"))),
    ("bug", C, K, t(("                with self.lock:\n                    self.eos = True\n                    self.condition.notify_all()\n", "                break\n"))),
    ("bug", C, K, t(("                with self.lock:\n                    self.eos = True\n                    self.condition.notify_all()\n", "                continue\n"))),
    ("bug", C, K, t(("                with self.lock:\n                    self.eos = True\n                    self.condition.notify_all()\n", "                self.eos = True\n                with self.lock:\n                    self.condition.notify_all()\n"))),
    ("bug", C, K, t(("                    local_eos = True\n", "                    local_eos = True\n                    with self.lock:\n                        self.eos = True\n                        self.condition.notify_all()\n"))),
    ("bug", C, K, t(("                except StopIteration:\n", "                except Exception:\n"))),
    ("bug", C, K, t(("            texts = []\n            local_eos = False\n", "            texts = []\n            local_eos = True\n"))),
    ("ok", C, K, t(("                    local_eos = True\n", "                    local_eos = True\n                    break\n"))),
    ("bug", C, K, t(("                    local_eos = True\n", "                    texts = []\n                    local_eos = True\n                    break\n"))),
    ("bug", C, K, t(("            if texts:\n", "            if texts and not local_eos:\n"))),
    ("bug", C, K, t(("                    self.buffer.extend([id for ids in encoded_batch[\"input_ids\"] for id in ids])\n", "                    self.buffer.extend([id for ids in encoded_batch[\"input_ids\"] for id in ids if id])\n"))),
    ("bug", C, K, t(("                    self.buffer.extend([id for ids in encoded_batch[\"input_ids\"] for id in ids])\n", "                    self.buffer.extend([id for ids in reversed(encoded_batch[\"input_ids\"]) for id in ids])\n"))),
    ("ok", C, K, t(("                    self.buffer.extend([id for ids in encoded_batch[\"input_ids\"] for id in ids])\n", "                    for ids in encoded_batch[\"input_ids\"]:\n                        self.buffer.extend(ids)\n"))),
    ("ok", C, K, t(("                    self.buffer.extend([id for ids in encoded_batch[\"input_ids\"] for id in ids])\n", "                    self.buffer += [id for ids in encoded_batch[\"input_ids\"] for id in ids]\n"))),
    ("bug", C, K, t(("                with self.lock:\n                    self.buffer.extend([id for ids in encoded_batch[\"input_ids\"] for id in ids])\n                    if", "                self.buffer.extend([id for ids in encoded_batch[\"input_ids\"] for id in ids])\n                with self.lock:\n                    if"))),
    ("bug", C, K, t(("        self.background_thread.start()\n", "        self.background_thread.start()\n        self.eos = False\n"))),
    ("bug", C, K, t(("                if self.eos:\n                    if self.error is not None:\n                        raise self.error\n\n", "                if self.eos:\n"))),
    ("bug", C, K, t(("                    if self.error is not None:\n                        raise self.error\n\n", ""), ("                    raise StopIteration\n", "                    raise StopIteration\n                if self.error is not None:\n                    raise self.error\n"))),
    ("ok", C, K, t(("                    if self.error is not None:\n                        raise self.error\n\n", ""), ("                current_length = len(self.buffer) - self.chunk_index\n", "                if self.error is not None:\n                    raise self.error\n                current_length = len(self.buffer) - self.chunk_index\n"))),
    ("ok", C, K, t(("                    if self.error is not None:\n                        raise self.error\n\n", "                    self._check()\n\n"), ("    def __next__", "    def _check(self):\n        if self.error is not None:\n            raise self.error\n\n    def __next__"))),
    ("bug", C, K, t(("                if self.eos:\n                    if self.error", "                if self.eos or not self.background_thread:\n                    if self.error"))) if False else
    ("bug", C, K, t(("            with self.lock:\n                current_length = len(self.buffer) - self.chunk_index\n", "            current_length = len(self.buffer) - self.chunk_index\n            with self.lock:\n"))),
    ("bug", C, K, t(("        while True:\n            with self.lock:\n                current_length", "        eos = self.eos\n        while True:\n            with self.lock:\n                current_length"), ("                if self.eos:\n", "                if eos:\n"))),
    ("bug", C, K, t(("                self.condition.wait()", "                pass\n            with self.lock:\n                self.condition.wait()"))),
    ("bug", C, K, t(("                if self.eos:\n                    if self.error", "                if not self.background_thread.is_alive():\n                    if self.error"))),
    ("bug", C, K, t(("                if current_length >= self.sequence_length + 1:\n", "                if current_length >= self.sequence_length:\n"))),
    ("ok", C, K, t(("                if current_length >= self.sequence_length + 1:\n", "                if current_length > self.sequence_length:\n"))),
    ("bug", C, K, t(("                    end = start + self.sequence_length + 1\n", "                    end = start + self.sequence_length\n"))),
    ("bug", C, K, t(("                    self.chunk_index += self._step_size\n", "                    self.chunk_index += self._step_size + 1\n"))),
    ("bug", C, K, t(("                    self.chunk_index += self._step_size\n", ""))),
    ("bug", C, K, t(("self._step_size = sequence_length if overlap else sequence_length + 1", "self._step_size = sequence_length + 1 if overlap else sequence_length"))),
    ("bug", C, K, t(("self._step_size = sequence_length if overlap else sequence_length + 1", "self._step_size = sequence_length"))),
    ("ok", C, K, t(("        self._step_size = sequence_length if overlap else sequence_length + 1", "        self._step_size = sequence_length + 1\n        if overlap:\n            self._step_size = sequence_length"))),
    ("bug", C, K, t(("                        chunk = padded_tokens\n                        self.yielded_samples += 1\n", "                        chunk = padded_tokens\n"))),
    ("bug", C, K, t(("self.yielded_samples == 0 and current_length > 0 and self.at_least", "current_length > 0 and self.at_least"))),
    ("bug", C, K, t(("self.yielded_samples == 0 and current_length > 0 and self.at_least", "self.yielded_samples == 0 and current_length > 1 and self.at_least"))),
    ("bug", C, K, t(("                    self.chunk_index += self._step_size\n                    self.yielded_samples += 1\n", "                    self.chunk_index += self._step_size\n"))),
    ("ok", C, K, t(("                    chunk = self.buffer[start:end]\n                    self.chunk_index += self._step_size\n                    self.yielded_samples += 1\n                    return chunk\n", "                    self.yielded_samples += 1\n                    self.chunk_index = start + self._step_size\n                    return self.buffer[start:end]\n"))),
    ("ok", C, K, t(("        while True:\n            with self.lock:\n                current_length = len(self.buffer) - self.chunk_index\n", "        while True:\n            with self.condition:\n                current_length = len(self.buffer) - self.chunk_index\n"))),
    ("ok", C, K, t(("                current_length = len(self.buffer) - self.chunk_index\n", "                current_length = self._available()\n"), ("    def __next__", "    def _available(self) -> int:\n        return len(self.buffer) - self.chunk_index\n\n    def __next__"))),
    # ---- synchronous tokenizer
    ("bug", C, K, y(("                self.eos = True\n                break\n", "                break\n"))),
    ("ok", C, K, y(("                self.eos = True\n                break\n", "                self.eos = True\n"))),
    ("bug", C, K, y(("            except StopIteration:\n", "            except Exception:\n"))),
    ("bug", C, K, y(("        if texts:\n", "        if texts and not self.eos:\n"))),
    ("bug", C, K, y(("        if texts:\n", "        if len(texts) == self.batch_size:\n"))),
    ("ok", C, K, y(("        if texts:\n", "        if len(texts) > 0:\n"))),
    ("bug", C, K, y(("            if not self.eos:\n                self.fetch_data()\n                continue\n", "            self.fetch_data()\n            if not self.eos:\n                continue\n"))),
    ("bug", C, K, y(("                texts.append(next(self.iterator))\n", "                text = next(self.iterator)\n                if text:\n                    texts.append(text)\n"))),
    ("ok", C, K, y(("                texts.append(next(self.iterator))\n", "                text = next(self.iterator)\n                texts.append(text)\n"))),
    ("ok", C, K, y(("                texts.append(next(self.iterator))\n            except StopIteration:\n                self.eos = True\n                break\n", "                text = next(self.iterator)\n            except StopIteration:\n                self.eos = True\n                break\n            texts.append(text)\n"))),
    ("bug", C, K, y(("if current_length >= self.sequence_length + 1:", "if current_length >= self._step_size:"))),
    ("bug", C, K, y(("            if not self.eos:\n                self.fetch_data()\n                continue\n\n", "            if not self.eos:\n                self.fetch_data()\n                if not self.eos:\n                    continue\n\n"))),
    ("bug", C, K, y(("            self.buffer.extend([id for ids", "            self.buffer.extend([id for ids")), ("xx", "xx")) if False else
    ("ok", C, K, y(("            self.buffer.extend([id for ids in encoded_batch[\"input_ids\"] for id in ids])\n", "            for ids in encoded_batch[\"input_ids\"]:\n                for token in ids:\n                    self.buffer.append(token)\n"))),
]
