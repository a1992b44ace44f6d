"""C28: parallel readers."""
F = "mixtera/core/query/result_chunk.py"
P = ["C28"]

GUARD = '''            if start_ppid is not None and start_ppid != os.getppid():
                logger.error(
                    "In daemonic ResultChunk reader the parent pid changed "
                    + f"from {start_ppid} to {os.getppid()}. Assuming parent crashed and exiting."
                )
                try:
                    queue.put(END_OF_STREAM_OBJECT)
                    queue.close()
                except Exception as ex:  # pylint: disable=broad-exception-caught
                    logger.error(f"Error while putting EOS object into queue:\\n{ex}\\n\\nExiting anyways.")

                return

'''
BODY = '''            filename_dict = {file_path_dict[file_id]: ranges}
            instance_iterator = dataset_type_dict[dataset_id].read_ranges_from_files(
                filename_dict, parsing_func_dict[dataset_id], server_connection
            )
            for instance in instance_iterator:
                queue.put(instance)

        queue.put(END_OF_STREAM_OBJECT)

        queue.close()
'''
LOOP = "        for dataset_id, file_id, ranges in workloads:\n" + GUARD + BODY
ST = '''            filename_dict = {self._file_path_dict[file_id]: ranges}
            yield from self._dataset_type_dict[dataset_id].read_ranges_from_files(
                filename_dict, self._parsing_func_dict[dataset_id], self._server_connection
            )
'''
MT = '''        while processes:
            processes_to_remove = []
            for queue, proc in processes:
                try:
                    instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)
                except Empty as exc:
                    if not proc.is_alive():
                        proc.join()
                        raise RuntimeError(
                            f"Reader process exited (exit code {proc.exitcode}) before it delivered all of its samples."
                        ) from exc
                    raise RuntimeError(
                        "Queue timeout reached but process is still alive. Something went wrong."
                    ) from exc
                if isinstance(instance, EndOfStream):
                    proc.join()
                    processes_to_remove.append((queue, proc))
                    continue
                yield instance

            for queue, proc in processes_to_remove:
                processes.remove((queue, proc))
'''
DEAD = '''                    if not proc.is_alive():
                        proc.join()
                        raise RuntimeError(
                            f"Reader process exited (exit code {proc.exitcode}) before it delivered all of its samples."
                        ) from exc
                    raise RuntimeError(
                        "Queue timeout reached but process is still alive. Something went wrong."
                    ) from exc
'''
EMPTY = "                except Empty as exc:\n" + DEAD
PART = '''            partition_size = max(1, len(workloads[key]) // process_count)
            partition_ranges = list(range(0, len(workloads[key]), partition_size)) + [len(workloads[key])]
'''
SPIN = '''            for i in range(1, len(partition_ranges)):
                total_processes += 1
                queue: mp.Queue = mp.Queue()
                processes[key].append(
                    (
                        queue,
                        mp.Process(
                            target=self._reader_process,
                            daemon=start_as_daemon,
                            args=(
                                queue,
                                self._dataset_type_dict,
                                self._file_path_dict,
                                pickled_func_dict,
                                self._server_connection,
                                workloads[key][partition_ranges[i - 1] : partition_ranges[i]],
                            ),
                        ),
                    )
                )

                # Start the process
                processes[key][-1][1].start()
'''
SLICE = "workloads[key][partition_ranges[i - 1] : partition_ranges[i]]"
MARK = '''class EndOfStream:
    """Signals the end of a reader process. It has its own type such that no sample can be mistaken for it."""


END_OF_STREAM_OBJECT = EndOfStream()
'''
KEYG = "        if self._mixture is not None and (not self._mixture.keys() == self._result_index.keys()):\n"
ISI = "isinstance(instance, EndOfStream)"
ENDPUT = "        queue.put(END_OF_STREAM_OBJECT)\n\n        queue.close()\n"


def b(*edits):
    return ("bug", P, F, list(edits)) if len(edits) > 1 else ("bug", P, F, edits[0])


def o(*edits):
    return ("ok", P, F, list(edits)) if len(edits) > 1 else ("ok", P, F, edits[0])


def b17(*edits):
    """Not a defect of the readers, but the order of the samples then follows their speed."""
    return ("bug", ["C17"], *b(*edits)[2:])


V = [
    # marker
    b((MARK, 'END_OF_STREAM_OBJECT = "END_OF_STREAM"\n'), (ISI, "instance == END_OF_STREAM_OBJECT")),
    b((MARK, 'END_OF_STREAM_OBJECT = None\n'), (ISI, "instance is None")),
    b((ISI, "instance == END_OF_STREAM_OBJECT")),
    b((ISI, "instance is END_OF_STREAM_OBJECT")),
    b((ISI, "instance is EndOfStream")),
    b((ISI, "not instance")),
    b(("        queue.put(END_OF_STREAM_OBJECT)\n\n", '        queue.put("")\n\n'), (ISI, 'instance == ""')),
    # consumer
    b((DEAD, '''                    if not proc.is_alive():
                        proc.join()
                        processes_to_remove.append((queue, proc))
                        continue
                    raise RuntimeError("Queue timeout") from exc
''')),
    b((DEAD, '''                    if not proc.is_alive():
                        break
                    raise RuntimeError("Queue timeout") from exc
''')),
    b((DEAD, '''                    logger.warning(f"reader is slow {exc}")
                    continue
''')),
    b((DEAD, '''                    if not proc.is_alive():
                        return
                    raise RuntimeError("Queue timeout") from exc
''')),
    b((DEAD, '''                    if proc.exitcode is None:
                        raise RuntimeError("Queue timeout") from exc
                    processes_to_remove.append((queue, proc))
                    continue
''')),
    b(("queue.get(timeout=MULTIPROCESSING_TIMEOUT)", "queue.get()")),
    b(("queue.get(timeout=MULTIPROCESSING_TIMEOUT)", "queue.get(True, None)")),
    b(("                    continue\n                yield instance", "                yield instance")),
    b(("                yield instance\n", "                if instance:\n                    yield instance\n")),
    b(("                yield instance\n", "                yield instance\n                yield instance\n")),
    b(("                yield instance\n", "                if len(instance) > 2:\n                    yield instance\n")),
    b(("                    processes_to_remove.append((queue, proc))\n                    continue\n",
       "                    return\n")),
    b(("                    processes_to_remove.append((queue, proc))\n                    continue\n",
       "                    processes_to_remove.append((queue, proc))\n                    break\n"), ("        while processes:\n", "        for _ in range(len(processes)):\n")),
    b(("                    processes_to_remove.append((queue, proc))\n", "")),
    b(("        while processes:\n", "        while len(processes) > 1:\n")),
    b(("                yield instance\n", "                yield instance\n                if not proc.is_alive():\n                    processes_to_remove.append((queue, proc))\n")),
    b((MT, '''        for queue, proc in processes:
            while proc.is_alive():
                yield queue.get(timeout=MULTIPROCESSING_TIMEOUT)
''')),
    # reader
    b(("                queue.put(instance)\n", "                if instance:\n                    queue.put(instance)\n")),
    b(("                queue.put(instance)\n", "                queue.put(instance)\n                queue.put(instance)\n")),
    b((BODY, BODY.replace("        queue.put(END_OF_STREAM_OBJECT)\n", "            queue.put(END_OF_STREAM_OBJECT)\n"))),
    b((BODY, BODY.replace("        queue.put(END_OF_STREAM_OBJECT)\n\n", ""))),
    b((BODY, BODY.replace("        queue.put(END_OF_STREAM_OBJECT)\n", "        queue.put(END_OF_STREAM_OBJECT)\n        queue.put(END_OF_STREAM_OBJECT)\n"))),
    b((BODY, BODY.replace("            for instance in instance_iterator:\n                queue.put(instance)\n",
                          "            try:\n                for instance in instance_iterator:\n                    queue.put(instance)\n            except Exception as ex:\n                logger.error(ex)\n"))),
    b((BODY, BODY.replace("            for instance in instance_iterator:\n                queue.put(instance)\n",
                          "            try:\n                for instance in instance_iterator:\n                    queue.put(instance)\n            except FileNotFoundError:\n                continue\n"))),
    b((LOOP, "        try:\n" + "".join("    " + l + "\n" if l else "\n" for l in (LOOP.split(ENDPUT)[0]).splitlines()) +
       "        finally:\n            queue.put(END_OF_STREAM_OBJECT)\n            queue.close()\n")),
    b((BODY, BODY.replace("            for instance in instance_iterator:\n", "            if not ranges:\n                break\n            for instance in instance_iterator:\n"))),
    b((BODY, BODY.replace("            filename_dict = {", "            if not os.path.exists(file_path_dict[file_id]):\n                continue\n            filename_dict = {"))),
    b((BODY, BODY.replace("in instance_iterator:", "in islice(instance_iterator, 100):"))),
    b((BODY, BODY.replace("parsing_func_dict[dataset_id]", "parsing_func_dict[file_id]"))),
    b((BODY, BODY.replace("dataset_type_dict[dataset_id]", "dataset_type_dict[file_id]"))),
    b((BODY, BODY.replace("parsing_func_dict[dataset_id], server_connection", "parsing_func_dict[dataset_id], None"))),
    b((BODY, BODY.replace("file_path_dict[file_id]: ranges", "file_path_dict[dataset_id]: ranges"))),
    b((GUARD, GUARD.replace("start_ppid is not None and start_ppid != os.getppid()", "start_ppid != os.getppid()"))),
    b((GUARD, GUARD.replace("start_ppid != os.getppid()", "start_ppid == os.getppid()"))),
    b(("                                self._server_connection,\n", "                                None,\n")),
    b(("        pickled_func_dict = dill.dumps(self._parsing_func_dict)\n", "        pickled_func_dict = dill.dumps({})\n")),
    # single process
    b((ST, ST.replace("self._parsing_func_dict[dataset_id]", "self._parsing_func_dict[file_id]"))),
    b((ST, "            if not ranges:\n                return\n" + ST)),
    b((ST, ST.replace("            yield from", "            if len(ranges) < 2:\n                continue\n            yield from"))),
    # division
    b((SPIN, SPIN.replace("range(1, len", "range(2, len"))),
    b((SPIN, SPIN.replace("range(1, len(partition_ranges))", "range(1, len(partition_ranges) - 1)"))),
    b((SPIN, SPIN.replace(SLICE, "workloads[key][partition_ranges[i - 1] : partition_ranges[i] - 1]"))),
    b((SPIN, SPIN.replace(SLICE, "workloads[key][partition_ranges[i - 1] : partition_ranges[i] + 1]"))),
    b((SPIN, SPIN.replace(SLICE, "workloads[key][partition_ranges[i - 1] + 1 : partition_ranges[i]]"))),
    b((PART, PART.replace(" + [len(workloads[key])]", " + [len(workloads[key]) - 1]"))),
    b((PART, PART.replace("range(0, len", "range(1, len"))),
    b((PART, PART.replace("range(0, len(workloads[key]), partition_size)", "range(0, process_count * partition_size, partition_size)"))),
    b(("                process_count = 1\n\n", "                continue\n\n")),
    b((SPIN, "            if not workloads[key]:\n                break\n" + SPIN)),
    b((SPIN, SPIN.replace("                # Start the process\n                processes[key][-1][1].start()\n", "                # Start the process\n                if i <= process_count:\n                    processes[key][-1][1].start()\n"))),
    b((SPIN, SPIN.replace("                total_processes += 1\n", "                total_processes += 1\n                if total_processes > mp.cpu_count():\n                    break\n"))),
    b((SPIN, SPIN.replace("                        queue,\n                        mp.Process", "                        mp.Queue(),\n                        mp.Process"))),
    b((KEYG, KEYG.replace("not self._mixture.keys() == self._result_index.keys()", "not self._mixture.keys() <= self._result_index.keys()"))),
    b((KEYG + "            raise RuntimeError(", KEYG + "            logger.warning(")),
    b(("for key, val in self._mixture.items()}\n\n        process_counts", "for key, val in self._mixture.items() if val > 1}\n\n        process_counts")),

    # behaviour-preserving
    o((ISI, "type(instance) is EndOfStream")),
    o((ISI, "type(instance) == EndOfStream")),
    o(("        while processes:\n", "        while len(processes) > 0:\n")),
    o(("                yield instance\n", "                sample = instance\n                yield sample\n")),
    o(("                    continue\n                yield instance", "                else:\n                    yield instance")),
    o((MT, '''        while processes:
            finished = []
            for pair in processes:
                queue, proc = pair
                instance = self._receive(queue, proc)
                if isinstance(instance, EndOfStream):
                    proc.join()
                    finished.append(pair)
                else:
                    yield instance

            for pair in finished:
                processes.remove(pair)

    def _receive(self, queue, proc):
        try:
            return queue.get(timeout=MULTIPROCESSING_TIMEOUT)
        except Empty as exc:
            if proc.is_alive():
                raise RuntimeError("Queue timeout reached but process is still alive.") from exc
            proc.join()
            raise RuntimeError("Reader process exited.") from exc
''')),
    o((MT, '''        active = list(processes)
        while active:
            for pair in list(active):
                queue, proc = pair
                try:
                    instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)
                except Empty as exc:
                    raise RuntimeError("Reader died or hangs") from exc
                if isinstance(instance, EndOfStream):
                    proc.join()
                    active.remove(pair)
                    continue
                yield instance
''')),
    o((MT, '''        while processes:
            remaining = []
            for queue, proc in processes:
                try:
                    instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)
                except Empty as exc:
                    raise RuntimeError("Reader died or hangs") from exc
                if isinstance(instance, EndOfStream):
                    proc.join()
                    continue
                remaining.append((queue, proc))
                yield instance
            processes = remaining
''')),
    b17((DEAD, '''                    if not proc.is_alive():
                        proc.join()
                        raise RuntimeError("died") from exc
                    logger.warning("reader is slow")
                    continue
''')),
    o((DEAD, '''                    raise RuntimeError("no sample") from exc
''')),
    o((BODY, BODY.replace("            for instance in instance_iterator:\n", "            logger.debug('reading')\n            for instance in instance_iterator:\n"))),
    o((BODY, '''            path = file_path_dict[file_id]
            dataset_type = dataset_type_dict[dataset_id]
            parse = parsing_func_dict[dataset_id]
            for sample in dataset_type.read_ranges_from_files({path: ranges}, parse, server_connection):
                queue.put(sample)

        queue.put(END_OF_STREAM_OBJECT)
        queue.close()
''')),
    o((BODY, '''            filename_dict = {file_path_dict[file_id]: ranges}
            ResultChunk._feed(
                queue,
                dataset_type_dict[dataset_id].read_ranges_from_files(
                    filename_dict, parsing_func_dict[dataset_id], server_connection
                ),
            )

        queue.put(END_OF_STREAM_OBJECT)

        queue.close()

    @staticmethod
    def _feed(queue, instances):
        for instance in instances:
            queue.put(instance)
''')),
    o((GUARD, GUARD.replace("                    queue.put(END_OF_STREAM_OBJECT)\n                    queue.close()\n", "                    queue.close()\n"))),
    o((GUARD, "")),
    o((PART, PART.replace("            partition_size", "            count = len(workloads[key])\n            partition_size").replace("len(workloads[key])", "count").replace("count = count", "count = len(workloads[key])"))),
    o((SPIN, SPIN.replace("range(1, len(partition_ranges))", "range(len(partition_ranges) - 1)").replace("partition_ranges[i - 1] : partition_ranges[i]", "partition_ranges[i] : partition_ranges[i + 1]"))),
    o((SPIN, SPIN.replace("for i in range(1, len(partition_ranges)):", "for start, end in zip(partition_ranges[:-1], partition_ranges[1:]):").replace("partition_ranges[i - 1] : partition_ranges[i]", "start:end"))),
    o((SPIN, SPIN.replace("for i in range(1, len(partition_ranges)):", "for start, end in zip(partition_ranges, partition_ranges[1:]):").replace("partition_ranges[i - 1] : partition_ranges[i]", "start:end"))),
    o((SPIN, SPIN.replace("for i in range(1, len(partition_ranges)):", "for start in range(0, len(workloads[key]), partition_size):").replace("partition_ranges[i - 1] : partition_ranges[i]", "start : start + partition_size"))),
    o((SPIN, SPIN.replace("for i in range(1, len(partition_ranges)):", "for i in range(process_count):").replace("partition_ranges[i - 1] : partition_ranges[i]", "i::process_count"))),
    o((SPIN, '''            for i in range(1, len(partition_ranges)):
                total_processes += 1
                queue: mp.Queue = mp.Queue()
                share = workloads[key][partition_ranges[i - 1] : partition_ranges[i]]
                process = mp.Process(
                    target=self._reader_process,
                    daemon=start_as_daemon,
                    args=(
                        queue,
                        self._dataset_type_dict,
                        self._file_path_dict,
                        pickled_func_dict,
                        self._server_connection,
                        share,
                    ),
                )
                process.start()
                processes[key].append((queue, process))
''')),
    o((SPIN, '''            for i in range(1, len(partition_ranges)):
                total_processes += 1
                processes[key].append(
                    self._start_reader(pickled_func_dict, start_as_daemon, workloads[key][partition_ranges[i - 1] : partition_ranges[i]])
                )
'''), ("    @staticmethod\n    def _reader_process(", '''    def _start_reader(self, funcs, daemon, share):
        queue: mp.Queue = mp.Queue()
        process = mp.Process(
            target=self._reader_process,
            daemon=daemon,
            args=(
                queue,
                self._dataset_type_dict,
                self._file_path_dict,
                funcs,
                self._server_connection,
                share,
            ),
        )
        process.start()
        return queue, process

    @staticmethod
    def _reader_process(''')),
    o((KEYG, KEYG.replace("not self._mixture.keys() == self._result_index.keys()", "self._mixture.keys() != self._result_index.keys()"))),
    o((KEYG, "        mixture = self._mixture\n        if mixture is not None and set(mixture.keys()) != set(self._result_index.keys()):\n")),
    o((ST, '''            path = self._file_path_dict[file_id]
            dataset = self._dataset_type_dict[dataset_id]
            for sample in dataset.read_ranges_from_files({path: ranges}, self._parsing_func_dict[dataset_id], self._server_connection):
                yield sample
''')),
    o((ST, '''            filename_dict = {}
            filename_dict[self._file_path_dict[file_id]] = ranges
            yield from self._dataset_type_dict[dataset_id].read_ranges_from_files(
                ranges_per_file=filename_dict, parsing_func=self._parsing_func_dict[dataset_id], server_connection=self._server_connection
            )
''')),
    b((MT, '''        while processes:
            remaining = []
            for queue, proc in processes:
                try:
                    instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)
                except Empty as exc:
                    raise RuntimeError("Reader died or hangs") from exc
                if isinstance(instance, EndOfStream):
                    proc.join()
                    continue
                if proc.is_alive():
                    remaining.append((queue, proc))
                yield instance
            processes = remaining
''')),
]
NUF = "mixtera/network/network_utils.py"
V += [
    ("bug", ["C04"], NUF, [('struct.pack(">d", data)', 'struct.pack(">f4x", data)'), ('struct.unpack(">d", bytes_data)', 'struct.unpack(">f4x", bytes_data)')]),
    ("bug", ["C04"], NUF, [('struct.pack(">d", data)', 'struct.pack(">f", data)'), ('struct.unpack(">d", bytes_data)', 'struct.unpack(">f", bytes_data)'), ("await read_bytes(8, reader, timeout=timeout)", "await read_bytes(4, reader, timeout=timeout)"), ("len(bytes_data) == 8", "len(bytes_data) == 4")]),
]
