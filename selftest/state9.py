JS = "mixtera/core/datacollection/datasets/jsonl_dataset.py"
PQ = "mixtera/core/datacollection/datasets/parquet_dataset.py"
WD = "mixtera/core/datacollection/datasets/web_dataset.py"
TS = "mixtera/utils/webdataset_utils.py"
SC = "mixtera/network/connection/server_connection.py"
SV = "mixtera/network/server/server.py"
C = ["C23"]
EMIT = "                yield from (parsing_func(line) for line in itertools.islice(text_file, r_end - r_start))\n"
SKIP = "                if r_start > last_line_read:\n                    for _ in range(r_start - last_line_read):\n                        next(text_file, None)\n                    last_line_read = r_start\n"
VAL = """                if r_start < last_r_start:
                    raise RuntimeError(f"Ranges not sorted by start ({last_r_start} vs {r_start})")

                if last_line_read > r_start:
                    raise RuntimeError(f"Overlapping ranges: start at {r_start} but previous ended at {last_line_read}")

                last_r_start = r_start
"""
WEMIT = "                yield from (parsing_func(samples[line]) for line in range(r_start, r_end))\n"
PVAL = """        last_row_read = 0
        last_r_start = -1
        for r_start, r_end in range_list:
            if r_start < last_r_start:
                raise RuntimeError(f"Ranges not sorted by start ({last_r_start} vs {r_start})")

            if last_row_read > r_start:
                raise RuntimeError(f"Overlapping ranges: start at {r_start} but previous ended at {last_row_read}")

            last_r_start = r_start
            last_row_read = r_end
"""
NOLAP = """                if last_line_read > r_start:
                    raise RuntimeError(f"Overlapping ranges: start at {r_start} but previous ended at {last_line_read}")
"""
COLLECT = """                    if rg_idx not in row_group_ranges:
                        row_group_ranges[rg_idx] = []
                    row_group_ranges[rg_idx].append((relative_start, relative_end))
"""
V = [
    # forward reader
    ("bug", C, JS, (SKIP, SKIP.replace("range(r_start - last_line_read)", "range(r_start - last_line_read - 1)"))),
    ("bug", C, JS, (SKIP, SKIP.replace("if r_start > last_line_read:", "if r_start > last_line_read + 1:"))),
    ("bug", C, JS, (SKIP, SKIP.replace("range(r_start - last_line_read)", "range(r_start)"))),
    ("bug", C, JS, (EMIT, EMIT.replace("r_end - r_start", "r_end"))),
    ("bug", C, JS, (EMIT, EMIT.replace("r_end - r_start", "r_end - r_start + 1"))),
    ("bug", C, JS, ("                last_line_read = r_end\n", "                last_line_read = r_end - r_start\n")),
    ("bug", C, JS, ("                last_line_read = r_end\n", "                last_line_read += r_end\n")),
    ("bug", C, JS, ("                last_line_read = r_end\n", "                last_line_read = r_end + 1\n")),
    ("bug", C, JS, ("            last_line_read = 0\n", "            last_line_read = 1\n")),
    ("bug", C, JS, (NOLAP, "")),
    ("bug", C, JS, (NOLAP, NOLAP.replace("last_line_read > r_start", "last_line_read >= r_start"))),
    ("bug", C, JS, (NOLAP, NOLAP.replace("last_line_read > r_start", "last_line_read > r_end"))),
    ("bug", C, JS, (EMIT, EMIT.replace("itertools.islice(text_file, r_end - r_start))", "itertools.islice(text_file, r_end - r_start) if line.strip())"))),
    ("bug", C, JS, (EMIT, EMIT.replace("parsing_func(line)", "line"))),
    ("bug", C, JS, (EMIT, "                for line in itertools.islice(text_file, r_end - r_start):\n                    try:\n                        yield parsing_func(line)\n                    except ValueError:\n                        continue\n")),
    ("bug", C, JS, (EMIT, "                if r_end - r_start > 1:\n    " + EMIT)),
    ("bug", C, JS, (EMIT, "                for line in itertools.islice(text_file, r_end - r_start):\n                    if line == \"\\n\":\n                        break\n                    yield parsing_func(line)\n")),
    ("bug", C, JS, (EMIT, "                for line in text_file:\n                    if last_line_read >= r_end:\n                        break\n                    yield parsing_func(line)\n                    last_line_read += 1\n") ) if False else
    ("bug", C, JS, ("        for file, range_list in ranges_per_file.items():\n            yield from", "        for file, range_list in ranges_per_file.items():\n            if file.endswith(\".z\"):\n                continue\n            yield from")),
    ("bug", C, JS, ("            yield from JSONLDataset._read_ranges_from_file(file, range_list, parsing_func, server_connection)", "            try:\n                yield from JSONLDataset._read_ranges_from_file(file, range_list, parsing_func, server_connection)\n            except FileNotFoundError as e:\n                logger.error(e)")),
    ("bug", C, JS, ("            yield from JSONLDataset._read_ranges_from_file(file, range_list, parsing_func, server_connection)", "            yield from JSONLDataset._read_ranges_from_file(file, range_list, parsing_func, server_connection)\n            return")),
    ("bug", C, JS, (EMIT, "                rows = list(itertools.islice(text_file, r_end - r_start))\n                for row in rows[1:]:\n                    yield parsing_func(row)\n") ) if False else
    ("bug", C, JS, (SKIP, SKIP.replace("                        next(text_file, None)\n", "                        if not next(text_file, None):\n                            next(text_file, None)\n"))) if False else
    ("bug", C, JS, (EMIT, EMIT + EMIT)),
    ("ok", C, JS, (EMIT, "                for line in itertools.islice(text_file, r_end - r_start):\n                    yield parsing_func(line)\n")),
    ("ok", C, JS, (EMIT, "                yield from map(parsing_func, itertools.islice(text_file, r_end - r_start))\n")),
    ("ok", C, JS, (EMIT, "                yield from [parsing_func(line) for line in itertools.islice(text_file, r_end - r_start)]\n")),
    ("ok", C, JS, (EMIT, "                lines = list(itertools.islice(text_file, r_end - r_start))\n                for line in lines:\n                    yield parsing_func(line)\n")),
    ("ok", C, JS, (EMIT, "                for _ in range(r_start, r_end):\n                    line = next(text_file, None)\n                    if line is None:\n                        break\n                    yield parsing_func(line)\n")),
    ("ok", C, JS, (SKIP, "                next(itertools.islice(text_file, r_start - last_line_read, r_start - last_line_read), None)\n")),
    ("ok", C, JS, (SKIP, "                gap = r_start - last_line_read\n                for _ in range(gap):\n                    next(text_file, None)\n")),
    ("ok", C, JS, (SKIP, "                for _ in itertools.islice(text_file, r_start - last_line_read):\n                    pass\n")),
    ("ok", C, JS, [(SKIP, ""), (EMIT, EMIT.replace("r_end - r_start", "r_start - last_line_read, r_end - last_line_read"))]),
    ("ok", C, JS, (VAL, """                if r_start < last_line_read:
                    raise RuntimeError(f"Unsorted or overlapping range at {r_start} ({last_r_start}, {last_line_read})")
                last_r_start = r_start
""")),
    ("ok", C, JS, (VAL, """                if r_start >= last_r_start:
                    if r_start < last_line_read:
                        raise RuntimeError(f"Overlapping ranges: start at {r_start} but previous ended at {last_line_read}")
                else:
                    raise RuntimeError("not sorted")
                last_r_start = r_start
""")),
    ("ok", C, JS, [(VAL, "                JSONLDataset._check(r_start, last_r_start, last_line_read)\n                last_r_start = r_start\n"),
                   ("    @staticmethod\n    def _is_valid_jsonl", """    @staticmethod
    def _check(r_start: int, last_r_start: int, last_line_read: int) -> None:
        if r_start < last_r_start:
            raise RuntimeError("unsorted")
        if last_line_read > r_start:
            raise RuntimeError("overlap")

    @staticmethod
    def _is_valid_jsonl""")]),
    ("ok", C, JS, [("            last_line_read = 0\n            last_r_start = -1\n            for r_start, r_end in range_list:\n" + VAL, """            last_line_read = 0
            prev = 0
            for r_start, r_end in range_list:
                if r_start < prev:
                    raise RuntimeError("overlap")
                prev = r_end
            for r_start, r_end in range_list:
""")]),
    ("ok", C, JS, ("        for file, range_list in ranges_per_file.items():\n            yield from", "        for file in ranges_per_file:\n            range_list = ranges_per_file[file]\n            if not range_list:\n                continue\n            yield from")),
    ("ok", C, JS, ("            for r_start, r_end in range_list:\n", "            for rng in range_list:\n                r_start, r_end = rng[0], rng[1]\n")),
    # random access
    ("bug", C, WD, (WEMIT, WEMIT.replace("range(r_start, r_end)", "range(r_start, r_end + 1)"))),
    ("bug", C, WD, (WEMIT, WEMIT.replace("range(r_start, r_end)", "range(last_line_read, r_end)"))),
    ("bug", C, WD, (WEMIT, WEMIT.replace("samples[line]", "samples[line - r_start]"))),
    ("bug", C, WD, (WEMIT, WEMIT.replace("range(r_start, r_end)", "range(r_start, r_end) if samples[line]"))),
    ("bug", C, WD, (WEMIT, WEMIT.replace("range(r_start, r_end)", "range(r_start, min(r_end, len(samples) - 1))"))),
    ("bug", C, WD, (NOLAP, NOLAP.replace("last_line_read > r_start", "last_line_read + 1 > r_start"))),
    ("bug", C, WD, (NOLAP, NOLAP.replace("raise RuntimeError(f\"Overlapping ranges: start at {r_start} but previous ended at {last_line_read}\")", "continue"))),
    ("ok", C, WD, (WEMIT, "                for line in range(r_start, r_end):\n                    sample = samples[line]\n                    yield parsing_func(sample)\n")),
    ("ok", C, WD, (WEMIT, "                for offset in range(r_end - r_start):\n                    yield parsing_func(samples[r_start + offset])\n")),
    ("ok", C, WD, (WEMIT, "                loaded = []\n                for line in range(r_start, r_end):\n                    loaded.append(samples[line])\n                for sample in loaded:\n                    yield parsing_func(sample)\n")),
    ("bug", C, TS, ("        for idx in range(len(self)):", "        for idx in range(len(self) - 1):")),
    ("bug", C, TS, ("            yield self[idx]", "            yield self[len(self) - 1 - idx]")),
    # row groups
    ("bug", C, PQ, (PVAL, "")),
    ("bug", C, PQ, (PVAL, PVAL.replace("            last_row_read = r_end\n", "            last_row_read = r_start\n"))),
    ("bug", C, PQ, ("                    if end_row <= rg_end:\n", "                    if end_row < rg_end:\n")) if False else
    ("bug", C, PQ, ("                if end_row <= rg_start:\n", "                if end_row <= rg_end:\n")),
    ("bug", C, PQ, ("                elif start_row >= rg_end:\n", "                elif start_row >= rg_start + 1:\n")),
    ("bug", C, PQ, ("rg_overlap_end = min(end_row, rg_end)", "rg_overlap_end = min(end_row, rg_end - 1)")),
    ("bug", C, PQ, ("rg_overlap_start = max(start_row, rg_start)", "rg_overlap_start = start_row")),
    ("bug", C, PQ, ("relative_end = rg_overlap_end - rg_start", "relative_end = rg_overlap_end - rg_overlap_start")),
    ("bug", C, PQ, ("relative_start = rg_overlap_start - rg_start", "relative_start = rg_overlap_start - start_row")),
    ("bug", C, PQ, (COLLECT, "                    row_group_ranges[rg_idx] = [(relative_start, relative_end)]\n")),
    ("bug", C, PQ, (COLLECT, COLLECT.replace("if rg_idx not in row_group_ranges:", "if rg_idx not in row_group_ranges or not rg_idx:"))),
    ("bug", C, PQ, (COLLECT, COLLECT.replace("row_group_ranges[rg_idx].append", "row_group_ranges[range_idx].append").replace("not in row_group_ranges:\n                        row_group_ranges[rg_idx]", "not in row_group_ranges:\n                        row_group_ranges[range_idx]"))),
    ("bug", C, PQ, ("                    if end_row <= rg_end:\n                        # Range ends before or at the end of the row group; move to next range\n                        range_idx += 1\n                    else:\n", "                    if True:\n                        range_idx += 1\n                    else:\n")),
    ("bug", C, PQ, ("                    if end_row <= rg_end:\n", "                    if end_row >= rg_end:\n")),
    ("bug", C, PQ, ("                    if end_row <= rg_end:\n", "                    if end_row <= rg_end or relative_start == 0:\n")),
    ("bug", C, PQ, ("while range_idx < n_ranges and rg_idx < n_row_groups:", "while range_idx < n_ranges and rg_idx < n_row_groups - 1:")),
    ("bug", C, PQ, ("            n_row_groups = len(row_group_offsets)\n", "            n_row_groups = len(row_group_offsets) - 1\n")),
    ("bug", C, PQ, ("                current_row += num_rows\n", "                current_row += num_rows + 1\n")),
    ("bug", C, PQ, ("            current_row = 0\n", "            current_row = 1\n")),
    ("bug", C, PQ, ("row_group(i).num_rows", "row_group(0).num_rows")),
    ("bug", C, PQ, ("                row_group_offsets.append((current_row, current_row + num_rows))\n", "                if num_rows > 0:\n                    row_group_offsets.append((current_row, current_row + num_rows))\n")),
    ("bug", C, PQ, ("length = end - start", "length = end")),
    ("bug", C, PQ, ("sliced_table = table.slice(start, length)", "sliced_table = table.slice(start)")),
    ("bug", C, PQ, ("for batch in sliced_table.to_batches(max_chunksize=32000):", "for batch in table.to_batches(max_chunksize=32000):")) if False else
    ("bug", C, PQ, ("                        for record in struct_array:\n                            yield parsing_func(record.as_py())", "                        for record in struct_array:\n                            if record.is_valid:\n                                yield parsing_func(record.as_py())")),
    ("bug", C, PQ, ("                        for record in struct_array:\n                            yield parsing_func(record.as_py())", "                        for record in struct_array:\n                            yield parsing_func(record.as_py())\n                        break")),
    ("bug", C, PQ, ("                    sliced_table = table.slice(start, length)\n", "                    if length < 2:\n                        continue\n                    sliced_table = table.slice(start, length)\n")),
    ("ok", C, PQ, ("                    sliced_table = table.slice(start, length)\n", "                    if length <= 0:\n                        continue\n                    sliced_table = table.slice(start, length)\n")),
    ("ok", C, PQ, (COLLECT, "                    row_group_ranges.setdefault(rg_idx, []).append((relative_start, relative_end))\n")),
    ("ok", C, PQ, (COLLECT, "                    if rg_idx in row_group_ranges:\n                        row_group_ranges[rg_idx].append((relative_start, relative_end))\n                    else:\n                        row_group_ranges[rg_idx] = [(relative_start, relative_end)]\n")),
    ("ok", C, PQ, ("                    if end_row <= rg_end:\n", "                    if relative_end + rg_start == end_row:\n")),
    ("ok", C, PQ, ("                if end_row <= rg_start:\n                    # Current range is before current row group\n                    range_idx += 1\n                elif", "                if") ) if False else
    ("ok", C, PQ, ("while range_idx < n_ranges and rg_idx < n_row_groups:", "while range_idx < len(range_list) and rg_idx < len(row_group_offsets):")),
    ("ok", C, PQ, ("while range_idx < n_ranges and rg_idx < n_row_groups:\n", "while True:\n                if range_idx >= n_ranges or rg_idx >= n_row_groups:\n                    break\n")),
    ("ok", C, PQ, ("length = end - start\n                    sliced_table = table.slice(start, length)", "sliced_table = table.slice(offset=start, length=end - start)")),
    ("ok", C, PQ, ("                        struct_array = batch.to_struct_array()\n                        for record in struct_array:\n                            yield parsing_func(record.as_py())", "                        for record in batch.to_pylist():\n                            yield parsing_func(record)")),
    ("ok", C, PQ, ("                row_group_offsets.append((current_row, current_row + num_rows))\n                current_row += num_rows\n", "                first = current_row\n                current_row = first + num_rows\n                row_group_offsets.append((first, current_row))\n")),
    ("ok", C, PQ, ("            for rg_index, ranges in row_group_ranges.items():\n", "            for rg_index in row_group_ranges:\n                ranges = row_group_ranges[rg_index]\n")),
    # tunnelled
    ("bug", C, SC, ('yield from lines.split("\\n")', "yield from lines.splitlines()")),
    ("bug", C, SC, ('yield from lines.split("\\n")', 'yield from (line for line in lines.split("\\n") if line)')),
    ("bug", C, SV, ('file_data = "".join(', 'file_data = "\\n".join(')),
    ("ok", C, SC, ('yield from lines.split("\\n")', 'for line in lines.split("\\n"):\n            yield line')),
]
