MC = "mixtera/core/client/mixtera_client.py"
LS = "mixtera/core/client/local/local_stub.py"
SS = "mixtera/core/client/server/server_stub.py"
DS = "mixtera/core/datacollection/datasets/dataset.py"
DT = "mixtera/core/datacollection/datasets/dataset_type.py"
WD = "mixtera/core/datacollection/datasets/web_dataset.py"
PD = "mixtera/core/datacollection/datasets/parquet_dataset.py"
JD = "mixtera/core/datacollection/datasets/jsonl_dataset.py"
PC = "mixtera/core/datacollection/index/parser/parser_collection.py"
EX = "mixtera/core/processing/property_calculation/executor.py"
EM = "mixtera/core/processing/execution_mode.py"
FS = "mixtera/core/filesystem/filesystem.py"
LF = "mixtera/core/filesystem/local_filesystem.py"
DC = "mixtera/core/datacollection/mixtera_data_collection.py"
RC = "mixtera/core/query/result_chunk.py"
AM = "mixtera/core/query/mixture/arbitrary_mixture.py"
ST = "mixtera/network/server_task.py"
AVG = "mixtera/core/algo/loss_avg/loss_avg.py"
B = ["C24"]
V = [
    # --- completeness
    ("bug", B, SS, ("    def remove_dataset(self, identifier: str) -> bool:\n        return self.server_connection.remove_dataset(identifier)\n", "")),
    ("bug", B, WD, ("    def iterate_files(loc: str)", "    def iterate_all_files(loc: str)")),
    ("bug", B, LF, ("    def is_dir(cls, path: str)", "    def is_directory(cls, path: str)")),
    ("bug", B, SS, ("        return self.server_connection.restore_checkpoint(job_id, chkpnt_id)", "        raise NotImplementedError(\"not available remotely\")")),
    ("bug", B, AVG, ("    def calc_mixture(self", "    def compute_mixture(self")),
    # --- signatures
    ("bug", B, SS, ("        num_buckets: int = 10,\n", "        num_buckets: int = 20,\n")),
    ("bug", B, SS, ("        data_only_on_primary: bool = True,\n", "        data_only_on_primary: bool = False,\n")),
    ("bug", B, SS, ("    def _stream_result_chunks(\n        self, job_id: str, dp_group_id: int, node_id: int, worker_id: int\n", "    def _stream_result_chunks(\n        self, job_id: str, node_id: int, dp_group_id: int, worker_id: int\n")),
    ("bug", B, LS, ("worker_status: list[int], server: bool = False", "worker_status: list[int], server: bool = True")),
    ("bug", B, SS, ("    def checkpoint_completed(self, job_id: str, chkpnt_id: str, on_disk: bool) -> bool:", "    def checkpoint_completed(self, job_id: str, chkpnt_id: str, on_disk: bool, timeout: int) -> bool:")),
    ("bug", B, SS, ("    def process_feedback(self, job_id: str, feedback: ClientFeedback)", "    def process_feedback(self, feedback: ClientFeedback, job_id: str)")),
    ("bug", B, SS, ("    def check_dataset_exists(self, identifier: str) -> bool:\n        return self.server_connection.check_dataset_exists(identifier)", "    def check_dataset_exists(self, name: str) -> bool:\n        return self.server_connection.check_dataset_exists(name)")),
    ("bug", B, PD, ("    @staticmethod\n    def iterate_files(loc: str)", "    def iterate_files(self, loc: str)")),
    ("bug", B, SS, ("    def list_datasets(self) -> list[str]:", "    async def list_datasets(self) -> list[str]:")),
    # --- forwarding
    ("bug", B, SS, ("self.server_connection._stream_result_chunks(job_id, dp_group_id, node_id, worker_id)", "self.server_connection._stream_result_chunks(job_id, node_id, dp_group_id, worker_id)")),
    ("bug", B, SS, ("            min_val=min_val,\n", "")),
    ("bug", B, SS, ("            batch_size=batch_size,\n", "            batch_size=degree_of_parallelism,\n")),
    ("bug", B, LS, ("_stream_chunks_for_worker(dp_group_id, node_id, worker_id)", "_stream_chunks_for_worker(dp_group_id, worker_id, node_id)")),
    ("bug", B, SS, ("        return self.server_connection.remove_dataset(identifier)", "        self.server_connection.remove_dataset(identifier)\n        return None")),
    ("bug", B, SS, ("self.server_connection.checkpoint_completed(job_id, chkpnt_id, on_disk)", "self.server_connection.checkpoint_completed(job_id, chkpnt_id, True)")),
    ("bug", B, LS, ("return self._mdc.register_dataset(identifier, loc, dtype, parsing_func, metadata_parser_identifier)", "return self._mdc.register_dataset(identifier, loc, dtype, str, metadata_parser_identifier)")),
    # --- enums and types
    ("bug", B, DT, ("    PARQUET_DATASET = auto()", "    PARQUET_DATASET = 3")),
    ("bug", B, EM, ("    RAY = auto()", "    RAY = 1")),
    ("bug", B, PD, ("DatasetType.PARQUET_DATASET", "DatasetType.WEB_DATASET")),
    ("bug", B, DS, ("                return WebDataset\n", "                return JSONLDataset\n"), ) if False else
    ("bug", B, DS, [("            if dataset_type == DatasetType.WEB_DATASET:", "            if dataset_type == DatasetType.PARQUET_DATASET:"), ("                    ParquetDataset,\n                )\n\n                return ParquetDataset", "                    ParquetDataset,\n                )\n\n                return ParquetDataset")]),
    ("bug", B, DS, ("            if dataset_type == DatasetType.WEB_DATASET:", "            if dataset_type >= DatasetType.WEB_DATASET:")),
    ("bug", B, DS, ("            raise NotImplementedError(f\"Dataset type {dataset_type.name} not yet supported\")\n", "            return Dataset\n")),
    ("bug", B, DS, ("            raise RuntimeError(f\"Invalid type id {type_id}\") from exc", "            return Dataset")),
    ("bug", B, DS, ("            if dataset_type == DatasetType.JSONL_DATASET:", "            if type_id < DatasetType.WEB_DATASET:")),
    ("bug", B, DC, ("        if type_id == 0:", "        if type_id < 0:")),
    # --- parsers
    ("bug", B, PC, ("            \"FINEWEB\": FineWebMetadataParser,\n", "            \"FINEWEB\": RedPajamaMetadataParser,\n")),
    ("bug", B, PC, [("            \"RED_PAJAMA\": RedPajamaMetadataParser,\n", "            \"RED_PAJAMA\": SlimPajamaMetadataParser,\n"), ("            \"SLIM_PAJAMA\": SlimPajamaMetadataParser,\n", "            \"SLIM_PAJAMA\": RedPajamaMetadataParser,\n")]),
    ("bug", B, PC, ("            \"PILE\": PileaMetadataParser,\n", "            \"MSCOCO\": PileaMetadataParser,\n")),
    ("bug", B, PC, ("            \"PILE\": PileaMetadataParser,\n", "")),
    ("bug", B, PC, ("if parser_name not in self._registry or overwrite:", "if parser_name not in self._registry and not overwrite:")),
    ("bug", B, PC, ("if parser_name not in self._registry or overwrite:", "if parser_name not in self._registry or not overwrite:")),
    ("bug", B, PC, ("            self._registry[parser_name] = parser\n", "            self._registry.setdefault(parser_name, parser)\n")),
    ("bug", B, PC, ("            f\"{self._registry[parser_name]}!\"\n        )\n        return False", "            f\"{self._registry[parser_name]}!\"\n        )\n        return True")),
    ("bug", B, PC, ("return self._registry[parser_name](dataset_id, file_id)", "return self._registry[parser_name](file_id, dataset_id)")),
    ("bug", B, PC, ("        raise ModuleNotFoundError(error_msg)", "        return self._registry[\"RED_PAJAMA\"](dataset_id, file_id)")),
    ("bug", B, PC, ("            del self._registry[parser_name]\n", "            self._registry.clear()\n")),
    # --- other factories
    ("bug", B, EX, ("return LocalPropertyCalculationExecutor(degree_of_parallelism, batch_size, setup_func, calc_func)", "return LocalPropertyCalculationExecutor(degree_of_parallelism, batch_size, calc_func, setup_func)")),
    ("bug", B, EX, ("        if mode == ExecutionMode.LOCAL:\n", "        if mode in (ExecutionMode.LOCAL, ExecutionMode.RAY):\n")),
    ("bug", B, EX, ("        if mode == ExecutionMode.LOCAL:\n", "        if mode == ExecutionMode.RAY:\n")),
    ("bug", B, FS, ("file_path.startswith(\"file://\") or file_path.startswith(\"/\")", "file_path.startswith(\"file://\") or \"/\" in file_path")),
    ("bug", B, FS, ("file_path.startswith(\"file://\") or file_path.startswith(\"/\")", "file_path.startswith(\"/\")")),
    ("bug", B, MC, ("isinstance(args[0], (str, Path))", "isinstance(args[0], str)")),
    ("bug", B, MC, ("            return object.__new__(ServerStub)", "            return object.__new__(LocalStub)"), ) if False else
    ("bug", B, MC, ("        if len(args) == 2 and isinstance(args[0], str) and isinstance(args[1], int):", "        if len(args) >= 2 and isinstance(args[0], str) and isinstance(args[1], int):")),
    ("bug", B, MC, ("        if len(args) == 1 and isinstance(args[0], tuple):\n            args = args[0]\n", "")),
    ("bug", B, MC, ("        if not args and mp.current_process().name != \"MainProcess\":", "        if not args:")),
    ("bug", B, MC, ("        return ServerStub(host, port)", "        return ServerStub(host, 6666)")),
    ("bug", B, MC, ("Literal[\"simple\", \"window\", \"token\"] = \"simple\"", "Literal[\"simple\", \"window\", \"token\", \"domain\"] = \"simple\"")),
    ("bug", B, RC, ("assert self._mixture_type in {\"simple\", \"window\", \"token\"}", "assert self._mixture_type in {\"simple\", \"window\"}")),
    # --- equivalent forms
    ("ok", B, SS, ("        if isinstance(loc, Path):\n            loc = str(loc)\n\n        return self.server_connection.register_dataset(\n            identifier, loc, dtype.type, parsing_func, metadata_parser_identifier\n        )", "        location = str(loc)\n        return self.server_connection.register_dataset(\n            identifier=identifier,\n            loc=location,\n            dtype=dtype.type,\n            parsing_func=parsing_func,\n            metadata_parser_identifier=metadata_parser_identifier,\n        )")),
    ("ok", B, DS, [("            dataset_type = DatasetType(type_id)\n\n            if dataset_type == DatasetType.JSONL_DATASET:\n                from mixtera.core.datacollection.datasets import JSONLDataset  # pylint: disable=import-outside-toplevel\n\n                return JSONLDataset\n            if dataset_type == DatasetType.WEB_DATASET:\n                from mixtera.core.datacollection.datasets import WebDataset  # pylint: disable=import-outside-toplevel\n\n                return WebDataset\n            if dataset_type == DatasetType.PARQUET_DATASET:\n                from mixtera.core.datacollection.datasets import (  # pylint: disable=import-outside-toplevel\n                    ParquetDataset,\n                )\n\n                return ParquetDataset\n            if dataset_type == DatasetType.GENERIC_DATASET:\n                return Dataset\n",
      "            from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset\n\n            dataset_type = DatasetType(type_id)\n            known = {\n                DatasetType.JSONL_DATASET: JSONLDataset,\n                DatasetType.WEB_DATASET: WebDataset,\n                DatasetType.PARQUET_DATASET: ParquetDataset,\n                DatasetType.GENERIC_DATASET: Dataset,\n            }\n            if dataset_type in known:\n                return known[dataset_type]\n")]),
    ("ok", B, DS, [("            dataset_type = DatasetType(type_id)\n\n            if dataset_type == DatasetType.JSONL_DATASET:\n                from mixtera.core.datacollection.datasets import JSONLDataset  # pylint: disable=import-outside-toplevel\n\n                return JSONLDataset\n            if dataset_type == DatasetType.WEB_DATASET:\n                from mixtera.core.datacollection.datasets import WebDataset  # pylint: disable=import-outside-toplevel\n\n                return WebDataset\n            if dataset_type == DatasetType.PARQUET_DATASET:\n                from mixtera.core.datacollection.datasets import (  # pylint: disable=import-outside-toplevel\n                    ParquetDataset,\n                )\n\n                return ParquetDataset\n            if dataset_type == DatasetType.GENERIC_DATASET:\n                return Dataset\n",
      "            from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset\n\n            dataset_type = DatasetType(type_id)\n            for known in (JSONLDataset, ParquetDataset, WebDataset, Dataset):\n                if known.type == dataset_type:\n                    return known\n")]),
    ("bug", B, DS, [("            dataset_type = DatasetType(type_id)\n\n            if dataset_type == DatasetType.JSONL_DATASET:\n                from mixtera.core.datacollection.datasets import JSONLDataset  # pylint: disable=import-outside-toplevel\n\n                return JSONLDataset\n            if dataset_type == DatasetType.WEB_DATASET:\n                from mixtera.core.datacollection.datasets import WebDataset  # pylint: disable=import-outside-toplevel\n\n                return WebDataset\n            if dataset_type == DatasetType.PARQUET_DATASET:\n                from mixtera.core.datacollection.datasets import (  # pylint: disable=import-outside-toplevel\n                    ParquetDataset,\n                )\n\n                return ParquetDataset\n            if dataset_type == DatasetType.GENERIC_DATASET:\n                return Dataset\n",
      "            from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset\n\n            dataset_type = DatasetType(type_id)\n            known = [Dataset, JSONLDataset, WebDataset, ParquetDataset]\n            return known[dataset_type]\n")]),
    ("ok", B, DS, [("            dataset_type = DatasetType(type_id)\n\n            if dataset_type == DatasetType.JSONL_DATASET:\n", "            dataset_type = DatasetType(type_id)\n            result = None\n\n            if dataset_type == DatasetType.JSONL_DATASET:\n"), ("                return WebDataset\n", "                result = WebDataset\n"), ("            if dataset_type == DatasetType.PARQUET_DATASET:", "            elif dataset_type == DatasetType.PARQUET_DATASET:"), ("                return ParquetDataset\n", "                result = ParquetDataset\n"), ("            raise NotImplementedError", "            if result is not None:\n                return result\n\n            raise NotImplementedError")]),
    ("ok", B, PC, ("        if parser_name not in self._registry or overwrite:\n            self._registry[parser_name] = parser\n            logger.info(f\"Registered medata parser {parser_name} with the \" f\"associated class {parser}\")\n            return True\n", "        exists = parser_name in self._registry\n        if not exists or overwrite:\n            self._registry.update({parser_name: parser}) if False else self._registry.__setitem__(parser_name, parser) if False else None\n            self._registry[parser_name] = parser\n            return True\n")),
    ("ok", B, PC, ("        if parser_name in self._registry:\n            return self._registry[parser_name](dataset_id, file_id)\n", "        parser = self._registry.get(parser_name)\n        if parser is not None:\n            return parser(dataset_id=dataset_id, file_id=file_id)\n")),
    ("ok", B, PC, ("        if parser_name in self._registry:\n            del self._registry[parser_name]\n            logger", "        if parser_name in self._registry:\n            self._registry.pop(parser_name)\n            logger")),
    ("ok", B, EX, ("        if mode == ExecutionMode.LOCAL:\n            # pylint: disable-next=import-outside-toplevel\n            from mixtera.core.processing.property_calculation import LocalPropertyCalculationExecutor\n\n            return LocalPropertyCalculationExecutor(degree_of_parallelism, batch_size, setup_func, calc_func)\n\n        raise NotImplementedError(f\"Mode {mode} not yet implemented.\")", "        if mode != ExecutionMode.LOCAL:\n            raise NotImplementedError(f\"Mode {mode} not yet implemented.\")\n        # pylint: disable-next=import-outside-toplevel\n        from mixtera.core.processing.property_calculation import LocalPropertyCalculationExecutor\n\n        return LocalPropertyCalculationExecutor(\n            degree_of_parallelism=degree_of_parallelism, batch_size=batch_size, setup_func=setup_func, calc_func=calc_func\n        )")),
    ("ok", B, FS, ("file_path.startswith(\"file://\") or file_path.startswith(\"/\")", "file_path.startswith((\"file://\", \"/\"))")),
    ("ok", B, MC, ("        if len(args) == 1 and isinstance(args[0], (str, Path)):", "        if len(args) == 1 and (isinstance(args[0], str) or isinstance(args[0], Path)):")),
    ("ok", B, SS, ("        return self.server_connection.remove_dataset(identifier)", "        removed = self.server_connection.remove_dataset(identifier)\n        if not removed:\n            logger.error(f\"Could not remove {identifier}\")\n        return removed")),
    ("ok", B, DT, ("    JSONL_DATASET = auto()\n    CROISSANT_DATASET = auto()\n    WEB_DATASET = auto()\n    PARQUET_DATASET = auto()", "    JSONL_DATASET = 1\n    CROISSANT_DATASET = 2\n    WEB_DATASET = 3\n    PARQUET_DATASET = 4")),
    ("ok", B, WD, ("    def iterate_files(loc: str)", "    def iterate_files(loc: str, extension: str = \"tar\")")),
]
