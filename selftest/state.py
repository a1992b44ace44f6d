QC = "mixtera/core/query/query_cache.py"
CD = "mixtera/core/query/chunk_distributor.py"
QR = "mixtera/core/query/query_result.py"
DC = "mixtera/core/datacollection/mixtera_data_collection.py"
LS = "mixtera/core/client/local/local_stub.py"
V = [
    # C09
    ("bug", ["C09"], DC, ("            self._connection.commit()\n            self._db_incr_version()\n        except duckdb.Error as err:\n            logger.error(f\"A DuckDB error occurred during deletion", "            self._connection.commit()\n        except duckdb.Error as err:\n            logger.error(f\"A DuckDB error occurred during deletion")),
    ("bug", ["C09"], DC, ("new_version = current_version + 1", "new_version = max(current_version, 1)")),
    ("bug", ["C09"], DC, ("        self._db_incr_version()\n        self._vacuum()\n", "        self._vacuum()\n")),
    ("ok", [], DC, ("    def _db_incr_version(self) -> None:", "    def _touch(self) -> None:\n        self._db_incr_version()\n\n    def _db_incr_version(self) -> None:")),
    ("ok", [], DC, [("        new_version = current_version + 1\n", "        step = 1\n        new_version = step + current_version\n"), ("            result = cur.execute(query, (identifier, loc, type_id, serialized_parsing_func)).fetchone()", "            values = (identifier, loc, type_id, serialized_parsing_func)\n            cur.execute(query, values)\n            result = cur.fetchone()")]),
    # C32
    ("bug", ["C32"], DC, ("            if not registered:\n", "            if not registered and dataset_id < 0:\n")),
    ("bug", ["C32"], DC, ("        finally:\n            if not registered:", "        except RuntimeError:\n            if not registered:")),
    ("bug", ["C32"], DC, ("DELETE FROM files\n            WHERE dataset_id IN", "DELETE FROM files\n            WHERE id IN")),
    ("bug", ["C32"], DC, ("name TEXT NOT NULL UNIQUE", "name TEXT NOT NULL")),
    ("ok", [], DC, ("        registered = False\n        try:\n            registered = self._register_dataset_contents(dataset_id, identifier, loc, dtype, metadata_parser_type)\n        finally:", "        registered = False\n        try:\n            if self._register_dataset_contents(dataset_id, identifier, loc, dtype, metadata_parser_type):\n                registered = True\n        finally:")),
    # C10
    ("bug", ["C10"], QC, [("        # Call the to_cache method on query.results to serialize it\n        query.results.to_cache(query_dir)\n", ""), ("        tmp_meta_path.rename(query_dir / \"meta.pkl\")\n", "        tmp_meta_path.rename(query_dir / \"meta.pkl\")\n        query.results.to_cache(query_dir)\n")]),
    ("bug", ["C10"], QC, ("        tmp_meta_path = query_dir / \"meta.pkl.tmp\"\n        with tmp_meta_path.open(\"wb\") as f:\n            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)\n        tmp_meta_path.rename(query_dir / \"meta.pkl\")\n", "        with (query_dir / \"meta.pkl\").open(\"wb\") as f:\n            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)\n")),
    ("bug", ["C10"], QC, ("            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)\n        tmp", "            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)\n            tmp")),
    ("bug", ["C10"], QC, ("        query.results.to_cache(query_dir)\n", "        try:\n            query.results.to_cache(query_dir)\n        except OSError as e:\n            logger.error(e)\n")),
    ("bug", ["C10"], QC, ("                if not meta_path.exists():\n                    logger.warning(f\"Meta file missing, invalid query dir? ({query_dir})\")\n                    continue\n", "")),
    ("bug", ["C10"], CD, ("            logger.error(f\"Error during checkpointing: {e}\")\n            raise e", "            logger.error(f\"Error during checkpointing: {e}\")")),
    ("bug", ["C10"], CD, ("        if process.exitcode != 0:", "        if process.exitcode is not None and process.exitcode > 0:")),
    ("bug", ["C10"], CD, ("        if not on_disk:\n", "        if not on_disk or process is not None:\n")),
    ("bug", ["C10"], CD, ("shutil.copytree(directory_to_copy, tmp_query_result_dir)", "shutil.copytree(directory_to_copy, chkpnt_dir / \"queryresult\")")),
    ("bug", ["C10"], CD, [("        p.start()\n        self._query_result_stored = True\n", "        p.start()\n"), ("            logger.debug(\"This is the first checkpoint.\")\n", "            logger.debug(\"This is the first checkpoint.\")\n            self._query_result_stored = True\n")]),
    ("ok", [], QC, ("        tmp_meta_path.rename(query_dir / \"meta.pkl\")\n", "        os.replace(tmp_meta_path, os.path.join(query_dir, \"meta.pkl\"))\n")),
    ("ok", [], QC, ("                if not meta_path.exists():\n                    logger.warning(f\"Meta file missing, invalid query dir? ({query_dir})\")\n                    continue\n\n                with meta_path.open(\"rb\") as f:\n                    cache_obj = pickle.load(f)\n                    cached_query_str = cache_obj.get(\"query_str\")\n                    db_ver = cache_obj.get(\"db_version\")\n", "                try:\n                    with meta_path.open(\"rb\") as f:\n                        cache_obj = pickle.load(f)\n                except FileNotFoundError:\n                    continue\n                cached_query_str = cache_obj.get(\"query_str\")\n                db_ver = cache_obj.get(\"db_version\")\n")),
    ("ok", [], CD, ("        if process.exitcode != 0:", "        code = process.exitcode\n        if not code == 0:")),
    ("ok", [], CD, ("        logger.debug(\"Loading states.\")\n        with open(checkpoint_state_path, \"rb\") as f:\n            state = dill.load(f)\n        with open(query_result_state_path, \"rb\") as f:\n            query_result_state = dill.load(f)\n", "        def _load(path):\n            with open(path, \"rb\") as f:\n                return dill.load(f)\n\n        state = _load(checkpoint_state_path)\n        query_result_state = _load(query_result_state_path)\n")),
]
