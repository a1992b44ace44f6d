SC = "mixtera/network/connection/server_connection.py"
SV = "mixtera/network/server/server.py"
V = [
    ("bug", ["C01"], SV, ("        num_workers = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)", "        num_workers = await read_int(NUM_BYTES_FOR_SIZES, reader)")),
    ("bug", ["C02"], SV, [("        dp_groups = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n", "        x = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n"),
                          ("        nodes_per_group = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n", "        dp_groups = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n        nodes_per_group = x\n")]),
    ("bug", ["C02"], SV, ('"parsing_func": parsing_dict', '"parsing_func": file_path_dict')),
    ("bug", ["C02"], SC, ("await write_int(int(on_disk), NUM_BYTES_FOR_IDENTIFIERS, writer)", "await write_int(int(not on_disk), NUM_BYTES_FOR_IDENTIFIERS, writer)")),
    ("bug", ["C01"], SV, ("for _ in range(worker_status_length):", "for _ in range(max(1, worker_status_length)):")),
    ("ok", [], SV, [("        dp_group_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n        node_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n",
                     "        dp_group_id, node_id = await self._read_pair(reader)\n"),
                    ("    async def _checkpoint_completed(", "    async def _read_pair(self, reader: asyncio.StreamReader) -> tuple[int, int]:\n        first = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n        second = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n        return first, second\n\n    async def _checkpoint_completed(")]),
    ("ok", [], SC, [("            await write_int(len(worker_status), NUM_BYTES_FOR_IDENTIFIERS, writer)\n", "            await self._send_count(worker_status, writer)\n"),
                    ("    def checkpoint_completed(", "    async def _send_count(self, items: list, writer: asyncio.StreamWriter) -> None:\n        count = len(items)\n        await write_int(count, NUM_BYTES_FOR_IDENTIFIERS, writer)\n\n    def checkpoint_completed(")]),
    ("ok", [], SV, [("""            if task == ServerTask.REGISTER_QUERY:
                await self._register_query(reader, writer)
            elif task == ServerTask.QUERY_EXEC_STATUS:
                await self._check_query_registration(reader, writer)
            elif""", """            handlers = {
                ServerTask.REGISTER_QUERY: self._register_query,
                ServerTask.QUERY_EXEC_STATUS: self._check_query_registration,
                ServerTask.LIST_DATASETS: lambda r, w: self._list_datasets(w),
            }
            if task in (ServerTask.REGISTER_QUERY, ServerTask.QUERY_EXEC_STATUS):
                handler = handlers[task]
                await handler(reader, writer)
            elif task == ServerTask.LIST_DATASETS:
                await handlers[task](reader, writer)
            elif""")]),
    ("ok", [], SV, [("        for _ in range(worker_status_length):\n            status = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n", "        i = 0\n        for _ in range(worker_status_length):\n            i += 1\n            status = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)\n")]),
    ("ok", [], SC, [("    async def _remove_dataset(", "    async def _flag(self, task: ServerTask, identifier: str) -> bool:\n        async with self._connect_to_server() as (reader, writer):\n            if reader is None or writer is None:\n                return False\n            await write_int(int(task), NUM_BYTES_FOR_IDENTIFIERS, writer)\n            await write_utf8_string(identifier, NUM_BYTES_FOR_IDENTIFIERS, writer)\n            return bool(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))\n\n    async def _remove_dataset("),
                    ("        return run_async_until_complete(self._remove_dataset(identifier))", "        return run_async_until_complete(self._flag(ServerTask.REMOVE_DATASET, identifier))"),
                    ("        return run_async_until_complete(self._check_dataset_exists(identifier))", "        return run_async_until_complete(self._flag(ServerTask.CHECK_DATASET_EXISTS, identifier))")]),
]
