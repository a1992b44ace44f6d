NUF = "mixtera/network/network_utils.py"
SC = "mixtera/network/connection/server_connection.py"
SV = "mixtera/network/server/server.py"
ST = "mixtera/core/client/server/server_stub.py"
LS = "mixtera/core/client/local/local_stub.py"
V = [
    # C03
    ("bug", ["C03"], SV, ("        except StopIteration:\n            pass", "        except StopIteration:\n            return")),
    ("bug", ["C03"], SV, ("        datasets = self._local_stub.list_datasets()\n", "        datasets = self._local_stub.list_datasets()\n        if not datasets:\n            return\n")),
    # C04
    ("bug", ["C04"], NUF, ("byteorder=\"big\", signed=True", "byteorder=\"big\", signed=False")),
    ("bug", ["C04"], NUF, ("    writer.write(len(training_id_bytes).to_bytes(size_bytes, \"big\"))", "    writer.write(len(string).to_bytes(size_bytes, \"big\"))")),
    ("bug", ["C04"], NUF, ("struct.unpack(\">d\", bytes_data)", "struct.unpack(\"<d\", bytes_data)")),
    ("bug", ["C04"], NUF, ("np.load(io.BytesIO(result), allow_pickle=False)", "np.load(io.BytesIO(result), allow_pickle=True)")),
    ("bug", ["C04"], NUF, ("    await write_int(1, id_bytes, writer, drain=False)", "    await write_int(1, size_bytes, writer, drain=False)")),
    ("ok", [], NUF, [("async def write_pickeled_object(", "async def _write_with_header(payload: bytes, size_bytes: int, writer: asyncio.StreamWriter) -> None:\n    header = len(payload).to_bytes(size_bytes, \"big\")\n    writer.write(header + payload)\n\n\nasync def write_pickeled_object("),
                     ("    writer.write(len(obj_bytes).to_bytes(size_bytes, \"big\"))\n    writer.write(obj_bytes)\n", "    await _write_with_header(obj_bytes, size_bytes, writer)\n")]),
    ("ok", [], NUF, [("        zero_len = 0\n        writer.write(zero_len.to_bytes(size_bytes, \"big\"))\n", "        writer.write((0).to_bytes(size_bytes, byteorder=\"big\"))\n")]),
    # C05
    ("bug", ["C05"], NUF, ("reader.read(num_bytes - len(buffer))", "reader.read(num_bytes)")),
    ("bug", ["C05"], NUF, ("    end_time = asyncio.get_event_loop().time() + timeout\n\n    while len(buffer) < num_bytes:\n", "    while len(buffer) < num_bytes:\n        end_time = asyncio.get_event_loop().time() + timeout\n")),
    ("bug", ["C05"], NUF, ("            if len(buffer) == 0:\n", "            if len(buffer) < num_bytes:\n")),
    ("bug", ["C05"], NUF, ("        if (string_data := await read_bytes(string_size, reader, timeout=timeout))", "        if (string_data := await read_bytes(string_size, reader))")),
    ("ok", [], NUF, [("    while len(buffer) < num_bytes:\n", "    remaining = num_bytes\n    while remaining > 0:\n"),
                     ("reader.read(num_bytes - len(buffer))", "reader.read(remaining)"),
                     ("        buffer.extend(chunk)\n", "        buffer += chunk\n        remaining -= len(chunk)\n")]),
    # C06
    ("bug", ["C06"], SC, ("            if reader is None or writer is None:\n                return []", "            if reader is None and writer is not None:\n                return []")),
    ("bug", ["C06"], SC, ("                if reader is None or writer is None:\n                    return False\n\n                # Step 2", "                # Step 2")),
    ("bug", ["C06"], SC, ("            logger.error(f\"[attempts = {attempts}] Error while connecting to server: {e}\")\n            yield None, None\n            yielded = True", "            logger.error(f\"[attempts = {attempts}] Error while connecting to server: {e}\")\n            if attempts > 1:\n                raise\n            yield None, None\n            yielded = True")),
    ("ok", [], SC, ("            if reader is None or writer is None:\n                return []", "            connected = reader is not None and writer is not None\n            if not connected:\n                return []")),
    # C07
    ("bug", ["C07"], SV, ("        success = self._local_stub.process_feedback(job_id, feedback)\n", "        self._local_stub.process_feedback(job_id, feedback)\n        success = True\n")),
    ("bug", ["C07"], SV, ("        self._query_registration.pop(query.job_id, None)  # Otherwise, we report the status of an earlier execution.\n", "")),
    ("bug", ["C07"], SV, ("        self._query_registration.pop(job_id, None)  # Otherwise, we immediately return True.\n", "")),
    ("bug", ["C07"], SC, ("                if status == 1:\n                    return True", "                if status != 0:\n                    return True")),
    ("bug", ["C07"], ST, ("        if status != 1:", "        if status == 2:")),
    ("bug", ["C07"], LS, ("no job with the id: {job_id}!\")\n            return False", "no job with the id: {job_id}!\")\n            return True")),
    ("bug", ["C07"], SV, ("        success = self._dataset_registration.get(job_id, None)", "        success = self._query_registration.get(job_id, None)")),
    ("ok", [], SV, ("        success = self._query_registration.get(job_id, None)\n", "        success = self._query_registration[job_id] if job_id in self._query_registration else None\n")),
    ("ok", [], ST, ("        if not self.server_connection.execute_query(query, args):\n", "        ok = self.server_connection.execute_query(query, args)\n        if ok is False:\n")),
]
