MP = "mixtera/core/datacollection/index/parser/metadata_parser.py"
PC = "mixtera/core/datacollection/index/parser/parser_collection.py"
DC = "mixtera/core/datacollection/mixtera_data_collection.py"
JS = "mixtera/core/datacollection/datasets/jsonl_dataset.py"
PQ = "mixtera/core/datacollection/datasets/parquet_dataset.py"
WD = "mixtera/core/datacollection/datasets/web_dataset.py"
C = ["C26"]
V = [
    ("bug", C, MP, ("                if not prop.nullable:", "                if not prop.nullable and not prop.multiple:")),
    ("bug", C, MP, ("                if not prop.nullable:", "                if not prop.nullable and prop.dtype == \"ENUM\":")),
    ("bug", C, MP, ("                metadata[key] = None\n", "                metadata[key] = \"\"\n")),
    ("bug", C, MP, ("value = [value] if not isinstance(value, list) else value", "value = [value]")),
    ("bug", C, MP, ("            elif isinstance(value, list):\n", "            elif isinstance(value, list) and len(value) > 1:\n")),
    ("bug", C, MP, ("                    if not all(", "                    if not any(")),
    ("bug", C, MP, ("if value not in valid_values:", "if prop.nullable and value not in valid_values:")),
    ("bug", C, MP, ("        self.metadata.append(metadata)", "        if len(metadata) > 1:\n            self.metadata.append(metadata)")),
    ("bug", C, MP, ("            metadata[key] = value\n", "            metadata[key] = value\n            if len(metadata) == 3:\n                break\n")),
    ("bug", C, MP, ('{"sample_id": sample_id}', '{"sample_id": len(self.metadata)}')),
    ("bug", C, MP, ('{"sample_id": sample_id}', '{"sample_id": sample_id, **kwargs}')),
    ("bug", C, PC, ("        if language" if False else "        self.add_metadata(sample_id=line_number, **metadata)\n\n\nclass Slim", "        if metadata:\n            self.add_metadata(sample_id=line_number, **metadata)\n\n\nclass Slim")),
    ("bug", C, PC, ('            metadata["publication_date"] = publication_date', '            metadata["publication"] = publication_date')),
    ("bug", C, PC, ("        parity = str(int(line_number % 3))\n", "        parity = str(int(line_number % 3))\n        line_number += 1\n")),
    ("bug", C, PC, ('        dump = payload.get("dump")', '        dump = str(payload.get("dump"))')),
    ("bug", C, JS, ("enumerate(fd)", "enumerate(fd, start=1)")),
    ("bug", C, JS, ("                metadata_parser.parse(line_id, json.loads(line))", "                try:\n                    metadata_parser.parse(line_id, json.loads(line))\n                except json.JSONDecodeError:\n                    continue")),
    ("bug", C, JS, ("                metadata_parser.parse(line_id, json.loads(line))", "                if line.strip():\n                    metadata_parser.parse(line_id, json.loads(line))")),
    ("bug", C, PQ, ("            row_id = 0\n            for batch in parquet_file.iter_batches():\n", "            for batch in parquet_file.iter_batches():\n                row_id = 0\n")),
    ("bug", C, PQ, ("                for record in records:\n                    metadata_parser.parse(row_id, record)\n                    row_id += 1", "                for row_id, record in enumerate(records):\n                    metadata_parser.parse(row_id, record)")),
    ("bug", C, PQ, ("                    metadata_parser.parse(row_id, record)\n                    row_id += 1", "                    if record:\n                        metadata_parser.parse(row_id, record)\n                        row_id += 1")),
    ("bug", C, PQ, ("                    row_id += 1", "                row_id += 1")),
    ("bug", C, WD, ("enumerate(samples)", "enumerate(samples, 1)")),
    ("bug", C, DC, ("    return (file_id, metadata_parser.metadata)", "    return (dataset_id, metadata_parser.metadata)")),
    ("bug", C, DC, ("    dtype_class.inform_metadata_parser(file, metadata_parser)", "    try:\n        dtype_class.inform_metadata_parser(file, metadata_parser)\n    except ValueError as e:\n        logger.error(e)")),
    ("bug", C, DC, ("for file_id, file in zip(file_ids, files)", "for file_id, file in zip(file_ids, reversed(files))")),
    ("bug", C, DC, ("for file_id, file in zip(file_ids, files)", "for file_id, file in zip(file_ids, sorted(files))")),
    ("bug", C, DC, ("for file_id, file in zip(file_ids, files)", "for file_id, file in zip(file_ids, files) if os.path.getsize(file) > 0")),
    ("bug", C, DC, ("tasks[i : i + chunk_size]", "tasks[i : i + chunk_size - 1]")),
    ("bug", C, DC, ("range(0, len(tasks), chunk_size)", "range(0, len(tasks) - chunk_size + 1, chunk_size)")),
    ("bug", C, DC, ('data_columns[key].append(sample.get(key))', 'if sample.get(key) is not None:\n                        data_columns[key].append(sample.get(key))')),
    ("bug", C, DC, ('                data_columns["file_id"].append(file_id)\n', '                data_columns["file_id"].append(sample["sample_id"])\n')),
    ("bug", C, DC, ('data_columns[key].append(sample.get(key))', 'data_columns[key].append(sample.get(key, ""))')),
    ("bug", C, DC, ('INSERT INTO samples ({columns}) SELECT {columns} FROM samples_data', 'INSERT INTO samples ({columns}) SELECT DISTINCT {columns} FROM samples_data')),
    ("bug", C, DC, ("pa.Table.from_arrays(arrays, names=all_columns)", "pa.Table.from_arrays(arrays, names=sorted(all_columns))")),
    ("ok", [], MP, ("value = [value] if not isinstance(value, list) else value", "if not isinstance(value, list):\n                    value = [value]")),
    ("ok", [], MP, ("            metadata[key] = value\n", ""), ) if False else
    ("ok", [], MP, [("            value = kwargs.get(key, None)\n", "            value = kwargs[key] if key in kwargs else None\n")]),
    ("ok", [], MP, ("                    if not all(ele in valid_values for ele in value):", "                    if any(ele not in valid_values for ele in value):")),
    ("ok", [], MP, ("for key, prop in self.property_map.items():", "for prop in self.property_map.values():\n            key = prop.name")),
    ("ok", [], MP, [("            metadata[key] = value\n\n", ""), ]) if False else
    ("ok", [], MP, [('        metadata: dict[str, Any] = {"sample_id": sample_id}', '        metadata: dict[str, Any] = dict(sample_id=sample_id)')]),
    ("ok", [], MP, [("                if not prop.nullable:\n", "                if prop.nullable:\n                    metadata[key] = None\n                    continue\n                if True:\n")]),
    ("ok", [], JS, ("                metadata_parser.parse(line_id, json.loads(line))", "                record = json.loads(line)\n                metadata_parser.parse(line_id, record)")),
    ("ok", [], JS, ("            for line_id, line in enumerate(fd):\n                metadata_parser.parse(line_id, json.loads(line))", "            line_id = 0\n            for line in fd:\n                metadata_parser.parse(line_id, json.loads(line))\n                line_id += 1")),
    ("ok", [], PQ, ("                for record in records:\n                    metadata_parser.parse(row_id, record)\n                    row_id += 1", "                for offset, record in enumerate(records):\n                    metadata_parser.parse(row_id + offset, record)\n                row_id += len(records)")),
    ("ok", [], PQ, ("                records = batch.to_pylist()\n                for record in records:", "                for record in batch.to_pylist():")),
    ("ok", [], WD, ("metadata_parser.parse(line_number=idx, payload=sample)", "metadata_parser.parse(idx, sample)")),
    ("ok", [], WD, ("        for idx, sample in enumerate(samples):\n            metadata_parser.parse(line_number=idx, payload=sample)", "        for idx in range(len(samples)):\n            metadata_parser.parse(line_number=idx, payload=samples[idx])")),
    ("ok", [], PC, ('        language = payload.get("language")\n        dump = payload.get("dump")\n', '        dump, language = payload.get("dump"), payload.get("language")\n')),
    ("ok", [], DC, ("        with pool_c(num_workers) as pool:\n", "        with pool_c(num_workers) as pool:\n            total = len(tasks)\n")),
    ("ok", [], DC, ("                chunk = tasks[i : i + chunk_size]\n                results = pool.map(process_file_for_metadata, chunk)", "                results = pool.map(process_file_for_metadata, tasks[i : i + chunk_size])")),
    ("ok", [], DC, ('                for key in sorted_metadata_keys:\n                    data_columns[key].append(sample.get(key))', '                for name in sorted_metadata_keys:\n                    value = sample.get(name)\n                    data_columns[name].append(value)')),
]
