From 116cbd8e29296c0671dec20786137b4bf665c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 01/43] fix: report failure when the server becomes unreachable
 while polling dataset registration

---
 mixtera/network/connection/server_connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index 27d1435..ffe0296 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -348,6 +348,9 @@ class ServerConnection:
 
         while True:
             async with self._connect_to_server() as (reader, writer):
+                if reader is None or writer is None:
+                    return False
+
                 # Step 2: Poll for registration status every second.
                 await write_int(int(ServerTask.DATASET_REGISTRATION_STATUS), NUM_BYTES_FOR_IDENTIFIERS, writer)
                 await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
-- 
2.43.0


From 584d897cab2a1329ca66fd9f38ddc58ac30129f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 02/43] fix: report the actual outcome of processing feedback
 to remote clients

---
 mixtera/network/server/server.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5aa9572..0b87358 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -430,9 +430,7 @@ class MixteraServer:
         feedback.losses = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
         feedback.counts = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
 
-        self._local_stub.process_feedback(job_id, feedback)
-
-        success = True
+        success = self._local_stub.process_feedback(job_id, feedback)
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _dispatch_client(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From 60d6fb7620627530e3cd9eccaa4a943bb4e17e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 03/43] fix: do not report the outcome of an earlier execution
 when a query is registered again

---
 mixtera/network/server/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 0b87358..4b72a9d 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -86,6 +86,7 @@ class MixteraServer:
 
         query: Query = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
         logger.debug(f"Received query = {str(query)}. Launching execution task.")
+        self._query_registration.pop(query.job_id, None)  # Otherwise, we report the status of an earlier execution.
         asyncio.create_task(self._background_register_query(query, args))
         await write_utf8_string(query.job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-- 
2.43.0


From 6476a2bd63214ce286e3f68599eda83f09443d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 04/43] fix: tag cached queries with the database version read
 before executing them

---
 mixtera/core/client/local/local_stub.py | 3 ++-
 mixtera/core/query/query_cache.py       | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 442476f..6ba6ddd 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -89,8 +89,9 @@ class LocalStub(MixteraClient):
             query.results._key_id_map = {}  # reset map to trigger update of mixture id map
             query.results.update_mixture(args.mixture)
         else:
+            db_version = self._mdc.get_db_version()  # read before executing, to never tag old results as current
             query.execute(self._mdc, args.mixture, self.mixture_log_directory / query.job_id)
-            cache_path = self._query_cache.cache_query(query)
+            cache_path = self._query_cache.cache_query(query, db_version)
         return self._register_query(
             query, args.mixture, args.dp_groups, args.nodes_per_group, args.num_workers, cache_path
         )
diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index c909cc2..9359fb1 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -23,7 +23,7 @@ class QueryCache:
         query_string = str(query)
         return hashlib.sha256(query_string.encode()).hexdigest()
 
-    def cache_query(self, query: Query) -> None | Path:
+    def cache_query(self, query: Query, db_version: int | None = None) -> None | Path:
         if not self.enabled:
             return None
 
@@ -40,8 +40,9 @@ class QueryCache:
         query_dir = hash_dir / str(next_number)
         query_dir.mkdir()
 
-        # Prepare the cache metadata
-        db_ver = self._mdc.get_db_version()
+        # Prepare the cache metadata. The caller passes the database version it read before executing the query,
+        # since the database might have been updated while the query was running.
+        db_ver = self._mdc.get_db_version() if db_version is None else db_version
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
         # Save the metadata
-- 
2.43.0


From 0f1dd9bc80a0836bba7d2e7dc430508e2949ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 05/43] fix: only publish cached query metadata after the
 results have been written

---
 mixtera/core/query/query_cache.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index 9359fb1..81728ac 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -45,14 +45,16 @@ class QueryCache:
         db_ver = self._mdc.get_db_version() if db_version is None else db_version
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
-        # Save the metadata
-        meta_path = query_dir / "meta.pkl"
-        with meta_path.open("wb") as f:
-            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
-
         # Call the to_cache method on query.results to serialize it
         query.results.to_cache(query_dir)
 
+        # Save the metadata last and atomically, as it marks the entry as complete. If we fail or crash before,
+        # get_queryresults_if_cached must ignore this directory.
+        tmp_meta_path = query_dir / "meta.pkl.tmp"
+        with tmp_meta_path.open("wb") as f:
+            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
+        tmp_meta_path.rename(query_dir / "meta.pkl")
+
         logger.debug(f"QueryResult saved to {query_dir}")
         return query_dir
 
-- 
2.43.0


From 8daead0a6bf4ca1464c7f97f27337c97d603d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 06/43] fix: remove partially registered datasets when the
 registration fails

---
 .../core/datacollection/mixtera_data_collection.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 7f7dd4a..428b266 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -152,6 +152,20 @@ class MixteraDataCollection:
         if (dataset_id := self._insert_dataset_into_table(identifier, loc, dtype, parsing_func)) == -1:
             return False
 
+        registered = False
+        try:
+            registered = self._register_dataset_contents(dataset_id, identifier, loc, dtype, metadata_parser_type)
+        finally:
+            if not registered:
+                # Do not leave a partially registered dataset behind, it would also block registering it again.
+                logger.error(f"Failed to register dataset {identifier}, removing what has been inserted so far.")
+                self.remove_dataset(identifier)
+
+        return registered
+
+    def _register_dataset_contents(
+        self, dataset_id: int, identifier: str, loc: str, dtype: Type[Dataset], metadata_parser_type: str
+    ) -> bool:
         files = list(dtype.iterate_files(loc))
         if not files:
             logger.warning(f"No files found in {loc} for dataset {identifier}")
-- 
2.43.0


From 9f2cfd392740b75f81e146ed32cfca3ef7907435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 07/43] fix: keep the requested number of workers across
 checkpoint and restore

---
 mixtera/core/query/chunk_distributor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b0be975..c3d9ecc 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -367,6 +367,7 @@ class ChunkDistributor:
             "next_chunk": deepcopy(self._next_chunk),
             "_dp_groups": self._dp_groups,
             "_num_workers": self._num_workers,
+            "_og_num_workers": self._og_num_workers,
             "_nodes_per_group": self._nodes_per_group,
             "_checkpoint_id_counter": self._checkpoint_id_counter.value,
         }
@@ -619,6 +620,8 @@ class ChunkDistributor:
         chunk_distributor._chunk_cache = state["chunk_cache"]
         chunk_distributor._chunk_usage = state["chunk_usage"]
         chunk_distributor._next_chunk = state["next_chunk"]
+        # Older checkpoints do not contain the number of workers as requested by the user
+        chunk_distributor._og_num_workers = state.get("_og_num_workers", state["_num_workers"])
 
         # Reset checkpoint-related attributes
         chunk_distributor._checkpoint_info = {}
-- 
2.43.0


From 73100f023d856e985b7563738b8dcc523ba93fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 08/43] fix: create the directory for query results that have
 not been cached when checkpointing

---
 mixtera/core/query/chunk_distributor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index c3d9ecc..c133897 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -383,7 +383,9 @@ class ChunkDistributor:
                 directory_to_copy = self._cached_query
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
-                self._query_result.to_cache(chkpnt_dir / "queryresult")
+                query_result_dir = chkpnt_dir / "queryresult"
+                query_result_dir.mkdir(parents=True, exist_ok=True)
+                self._query_result.to_cache(query_result_dir)
             logger.debug("Handled pickling of QueryResult.")
 
         if hasattr(self._query_result, "_mixture") and self._query_result._mixture is not None:
-- 
2.43.0


From 2784577131ae6b50d2e909c6e0b354e73e149d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 09/43] fix: allow taking further checkpoints after one could
 not be started

---
 mixtera/core/query/chunk_distributor.py | 31 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index c133897..cdf179d 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -88,6 +88,7 @@ class ChunkDistributor:
         self._checkpoint_info: dict[str, dict[str, Any]] = {}  # Info for each checkpoint process on its status
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
+        self._query_result_stored = False  # Whether we already stored the QueryResult as part of a checkpoint
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -276,18 +277,20 @@ class ChunkDistributor:
             self._nodes_reported.add(key)
 
             if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:
-                # All nodes have reported; proceed to validation and checkpointing
-                worker_sample_ids = self._validate_checkpoint_state()
-
-                # Start checkpointing process
-                # By having this in the lock,
-                # we ensure we finish the checkpoint in-memory copy first before handling the next request.
-                self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
-
-                # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
-                self._worker_statuses = {}
-                self._nodes_reported = set()
-                self._current_checkpoint_id = None
+                try:
+                    # All nodes have reported; proceed to validation and checkpointing
+                    worker_sample_ids = self._validate_checkpoint_state()
+
+                    # Start checkpointing process
+                    # By having this in the lock,
+                    # we ensure we finish the checkpoint in-memory copy first before handling the next request.
+                    self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
+                finally:
+                    # Reset for next checkpoint (also if this one failed, otherwise we could never checkpoint again),
+                    # afterwards release the lock, allowing potentially for the next request.
+                    self._worker_statuses = {}
+                    self._nodes_reported = set()
+                    self._current_checkpoint_id = None
 
         return checkpoint_id
 
@@ -376,7 +379,7 @@ class ChunkDistributor:
         # the QueryResult will be pickled when we start another process.
         # This means we cannot store the result in another process - the expensive operation is the pickling.
         directory_to_copy = None
-        if self._checkpoint_id_counter.value == 1:
+        if not self._query_result_stored:
             logger.debug("This is the first checkpoint.")
             if self._cached_query is not None:
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
@@ -430,6 +433,7 @@ class ChunkDistributor:
         )
         self._checkpoint_info[checkpoint_id]["process"] = p
         p.start()
+        self._query_result_stored = True
 
     @staticmethod
     def _persist_checkpoint_process(
@@ -630,6 +634,7 @@ class ChunkDistributor:
         chunk_distributor._current_checkpoint_id = None
         chunk_distributor._worker_statuses = {}
         chunk_distributor._nodes_reported = set()
+        chunk_distributor._query_result_stored = True
         chunk_distributor._checkpoint_id_counter.value = state["_checkpoint_id_counter"]
 
         # Update the _checkpoint_id_counter.value to avoid overwriting existing checkpoints
-- 
2.43.0


From 293e083239c3a2bba78a989b1c7941fd7eef45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 10/43] fix: check for an existing query of a job and register
 the new one under the same lock

---
 mixtera/core/client/local/local_stub.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 6ba6ddd..6186c9b 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -155,11 +155,11 @@ class LocalStub(MixteraClient):
         num_workers: int,
         cache_path: Path | None = None,
     ) -> bool:
-        if query.job_id in self._training_query_map:
-            logger.warning(f"We already have a query for job {query.job_id}!")
-            return False
-
         with self._training_query_map_lock:
+            if query.job_id in self._training_query_map:
+                logger.warning(f"We already have a query for job {query.job_id}!")
+                return False
+
             self._training_query_map[query.job_id] = (
                 ChunkDistributor(
                     dp_groups, nodes_per_group, num_workers, query.results, query.job_id, cached_query=cache_path
-- 
2.43.0


From 20d4550502c54cfc8c374d3a90dc043b5f290b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 11/43] fix: only count actual chunks as returned, such that
 exhausted queries can be restored

---
 mixtera/core/query/query_result.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 7686459..f66b797 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -582,7 +582,6 @@ class QueryResult:
                     self._num_returns_gen == 0
                 ), f"Generator was not reset properly. Got {self._num_returns_gen} returns."
 
-            self._num_returns_gen += 1
             result = self._generator.send((self._mixture, chunk_target_index))
             if result is None:
                 # In case we reach end of chunks (for now),
@@ -593,6 +592,10 @@ class QueryResult:
                 if self.stop_on_none:
                     raise StopIteration
 
+                return result
+
+            # Only count actual chunks, since this is the number of chunks we need to replay
+            self._num_returns_gen += 1
             return result
 
     # SERIALIZATION ##
-- 
2.43.0


From abc71d546b209a4f676a00ce6c9874d806a1f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 12/43] fix: use the updated mixture when retrying to generate
 a chunk

---
 mixtera/core/query/query_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index f66b797..6df4bdc 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -500,7 +500,7 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
-                    yield None
+                    base_mixture, target_chunk_index = yield None
             else:
                 if previous_mixture is not None or current_chunk_index == 0:
                     logger.debug("Obtained new None mixture.")
-- 
2.43.0


From 000ad580925bcfe8a11bf7867a2886dcabdbd95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 13/43] fix: log a copy of mixtures without row counts, such
 that later updates do not change the log

---
 mixtera/core/query/query_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 6df4bdc..02f3387 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -507,7 +507,7 @@ class QueryResult:
                     mixture_id += 1
                     previous_mixture = None
                     if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, base_mixture))
+                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
                     self._persist_mixture_log()
 
                 chunk = None
-- 
2.43.0


From c9f58fcd6c20402113e2dca293413e6b846860b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 14/43] fix: replay all mixture changes logged for the same
 chunk

---
 mixtera/core/query/query_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 02f3387..0b25191 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -721,7 +721,8 @@ class QueryResult:
         # Replay the chunks
         for i in range(num_chunks_replay):
             # Update mixture if the current chunk index matches a mixture change point
-            if next_mixture_change_chunk_index is not None and i == next_mixture_change_chunk_index:
+            # (there can be several, if a mixture did not allow to generate the chunk)
+            while next_mixture_change_chunk_index is not None and i == next_mixture_change_chunk_index:
                 assert next_mixture is not None
                 self.update_mixture(next_mixture)
                 mixture_log_index += 1
-- 
2.43.0


From f7ce15825abaa63e9cf88b6aba50158a85b5079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 15/43] fix: checkpoint the current mixture and key ids of a
 job, not those of the job that cached the query

---
 mixtera/core/query/chunk_distributor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index cdf179d..946b888 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -414,6 +414,10 @@ class ChunkDistributor:
 
         returns_gen = self._query_result._num_returns_gen
 
+        # The stored QueryResult might stem from the cache and has then been created for the mixture of another job.
+        state_to_save["_mixture"] = deepcopy(getattr(self._query_result, "_mixture", None))
+        state_to_save["_key_id_map"] = deepcopy(getattr(self._query_result, "_key_id_map", None))
+
         logger.debug("Spinning up the persisting process.")
 
         self._checkpoint_info[checkpoint_id]["process"] = None
@@ -610,7 +614,13 @@ class ChunkDistributor:
         query_result._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
+        # Older checkpoints contain neither the mixture nor the key id map
+        if state.get("_key_id_map", None) is not None:
+            query_result._key_id_map = state["_key_id_map"]
         query_result.replay(query_result_state["num_returns_gen"])
+        if state.get("_mixture", None) is not None:
+            # Replaying ends with the mixture of the last chunk (or none). Continue with the current one.
+            query_result._mixture = state["_mixture"]
 
         logger.debug("Instantiating class.")
 
-- 
2.43.0


From de94eda0a1883a15889d88d54b1dd05fc4dc5fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 16/43] fix: only publish the copied query result of a
 checkpoint when it is complete

---
 mixtera/core/query/chunk_distributor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 946b888..6f0c9d8 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -469,7 +469,11 @@ class ChunkDistributor:
         try:
             if directory_to_copy is not None:
                 logger.debug("Starting to copy directory in process.")
-                shutil.copytree(directory_to_copy, chkpnt_dir / "queryresult")
+                # Copy and rename, such that a partial copy is never mistaken for the result by later checkpoints.
+                tmp_query_result_dir = chkpnt_dir / "queryresult.tmp"
+                shutil.rmtree(tmp_query_result_dir, ignore_errors=True)
+                shutil.copytree(directory_to_copy, tmp_query_result_dir)
+                tmp_query_result_dir.rename(chkpnt_dir / "queryresult")
                 logger.debug("Directory copied..")
 
             assert (
-- 
2.43.0


From a193dca071c100a6b3f169d8c6dab87f7eae44e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 17/43] fix: escape the temporary directory in the DuckDB
 configuration

---
 mixtera/core/datacollection/mixtera_data_collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 428b266..ed5d99f 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -70,7 +70,8 @@ class MixteraDataCollection:
         # Set tmpdir (to use fast SSD, potentially)
         duckdb_tmp_dir = self._directory / "duckdbtmp"
         duckdb_tmp_dir.mkdir(exist_ok=True)
-        self._connection.execute(f"PRAGMA temp_directory = '{duckdb_tmp_dir}'")
+        escaped_tmp_dir = str(duckdb_tmp_dir).replace("'", "''")
+        self._connection.execute(f"PRAGMA temp_directory = '{escaped_tmp_dir}'")
 
     def _load_db_from_disk(self) -> duckdb.DuckDBPyConnection:
         assert self._database_path.exists()
-- 
2.43.0


From 9326591e5587e6f94a862810725bc4d819c25fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 18/43] fix: escape enum options when creating their catalog
 type

---
 mixtera/core/datacollection/mixtera_data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index ed5d99f..b9fbee1 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -316,7 +316,7 @@ class MixteraDataCollection:
                     if result is None or result[0] == 0:
                         # It is important to sort here,
                         # otherwise across runs (e.g., in unit tests), we get inconsistent ordering.
-                        enum_values = "', '".join(sorted(prop.enum_options))
+                        enum_values = "', '".join(option.replace("'", "''") for option in sorted(prop.enum_options))
                         create_enum_query = f"CREATE TYPE {enum_type_name} AS ENUM ('{enum_values}');"
                         cur.execute(create_enum_query)
                     column_type = f"{enum_type_name}[]" if prop.multiple else enum_type_name
-- 
2.43.0


From fee330f40d36ead514fb567e54ad2193a6fe9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 19/43] fix: reject ImageNet samples without class label

The label was converted to a string before it was tested for None, so a
sample without .cls member was indexed with the class label 'None'.
---
 mixtera/core/datacollection/index/parser/parser_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/index/parser/parser_collection.py b/mixtera/core/datacollection/index/parser/parser_collection.py
index def585b..a5993ac 100644
--- a/mixtera/core/datacollection/index/parser/parser_collection.py
+++ b/mixtera/core/datacollection/index/parser/parser_collection.py
@@ -75,11 +75,11 @@ class ImagenetWebDatasetMetadataParser(MetadataParser):
         ]
 
     def parse(self, line_number: int, payload: Any, **kwargs: Optional[dict[Any, Any]]) -> None:
-        class_label = str(payload.get(".cls"))
+        class_label = payload.get(".cls")
         if class_label is None:
             raise RuntimeError("Property 'class_label' is not nullable and is missing.")
 
-        self.add_metadata(sample_id=line_number, class_label=class_label)
+        self.add_metadata(sample_id=line_number, class_label=str(class_label))
 
 
 class FineWebMetadataParser(MetadataParser):
-- 
2.43.0


From 59b85b31822d5ba0761146d8cda9dcd3e1cfa37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 20/43] fix: reject unsorted or overlapping parquet read ranges
 instead of dropping rows

---
 .../core/datacollection/datasets/parquet_dataset.py  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mixtera/core/datacollection/datasets/parquet_dataset.py b/mixtera/core/datacollection/datasets/parquet_dataset.py
index efbf26a..3b07189 100644
--- a/mixtera/core/datacollection/datasets/parquet_dataset.py
+++ b/mixtera/core/datacollection/datasets/parquet_dataset.py
@@ -53,6 +53,18 @@ class ParquetDataset(Dataset):
     ) -> Iterable[str]:
         del server_connection  # TODO(#137): We need a open interface with a regular file object to use that.
 
+        last_row_read = 0
+        last_r_start = -1
+        for r_start, r_end in range_list:
+            if r_start < last_r_start:
+                raise RuntimeError(f"Ranges not sorted by start ({last_r_start} vs {r_start})")
+
+            if last_row_read > r_start:
+                raise RuntimeError(f"Overlapping ranges: start at {r_start} but previous ended at {last_row_read}")
+
+            last_r_start = r_start
+            last_row_read = r_end
+
         with open(file, "rb") as f:
             parquet_file = pq.ParquetFile(f)
             total_row_groups = parquet_file.num_row_groups
-- 
2.43.0


From 02a1d044eb5f11a5834a4faee58eb3f6acb319e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:22 +0000
Subject: [PATCH 21/43] fix: do not loop forever over exhausted keys of an
 arbitrary mixture

---
 mixtera/core/query/query_result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 0b25191..727d765 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -511,11 +511,15 @@ class QueryResult:
                     self._persist_mixture_log()
 
                 chunk = None
+                num_skipped = 0
                 while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:
                     chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                     if chunker_index_keys_idx in empty_key_idx:
                         # Note that this can be removed but needs some adjustments in the tests (only impacts ordering)
-                        chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                        # We stop doing it after one round, since otherwise we might only ever visit empty keys.
+                        num_skipped += 1
+                        if num_skipped <= len(chunker_index_keys):
+                            chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                         continue
 
                     key = chunker_index_keys[chunker_index_keys_idx]
-- 
2.43.0


From 76cbfd6becbd8eaaf740aee2ba1be6c9598b9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 22/43] fix: first-item prefetcher passes failures (and a first
 item None) on to its consumer

---
 mixtera/utils/prefetch_iterator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mixtera/utils/prefetch_iterator.py b/mixtera/utils/prefetch_iterator.py
index 8aae563..47d8f58 100644
--- a/mixtera/utils/prefetch_iterator.py
+++ b/mixtera/utils/prefetch_iterator.py
@@ -10,14 +10,16 @@ class PrefetchFirstItemIterator(Iterator[T]):
         self.prefetch_event = Event()
         self.first_item_consumed = False
         self.first_item: T | None = None
+        self.error: BaseException | None = None
         self.prefetch_thread = Thread(target=self._prefetch)
         self.prefetch_thread.start()
 
     def _prefetch(self) -> None:
         try:
             self.first_item = next(self.iterator)
-        except StopIteration:
-            self.first_item = None
+        except BaseException as e:  # pylint: disable=broad-exception-caught
+            # Raised to the consumer, for which both the end of the iterator and failures would otherwise be lost.
+            self.error = e
         finally:
             self.prefetch_event.set()
 
@@ -25,9 +27,9 @@ class PrefetchFirstItemIterator(Iterator[T]):
         if not self.first_item_consumed:
             self.prefetch_event.wait()
             self.first_item_consumed = True
-            if self.first_item is not None:
-                return self.first_item
+            if self.error is not None:
+                raise self.error
 
-            raise StopIteration()
+            return self.first_item  # type: ignore[return-value]
 
         return next(self.iterator)
-- 
2.43.0


From cf64da869ae7bf9e00691bdb78fb2e58ce343f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 23/43] fix: a failing background tokenizer thread wakes up its
 consumer and reports the failure

---
 mixtera/utils/tokenizing_iterator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 5ff8a71..3d770cf 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -128,6 +128,7 @@ class ThreadedTokenizingIterator:
         self.chunk_index = 0
         self.eos = False
         self.yielded_samples = 0
+        self.error: BaseException | None = None
 
         self.lock = threading.Lock()
         self.condition = threading.Condition(self.lock)
@@ -138,6 +139,16 @@ class ThreadedTokenizingIterator:
         return self
 
     def prefetch_loop(self) -> None:
+        try:
+            self._prefetch_batches()
+        except BaseException as e:  # pylint: disable=broad-exception-caught
+            # Without this, a waiting consumer would never be woken up, and would not learn about the failure.
+            with self.lock:
+                self.error = e
+                self.eos = True
+                self.condition.notify_all()
+
+    def _prefetch_batches(self) -> None:
         while not self.eos:
             texts = []
             local_eos = False
@@ -187,6 +198,9 @@ class ThreadedTokenizingIterator:
                     return chunk
 
                 if self.eos:
+                    if self.error is not None:
+                        raise self.error
+
                     if self.yielded_samples == 0 and current_length > 0 and self.at_least_one_sample:
                         # Pad the remaining tokens to reach the desired length
                         needed_tokens = self.sequence_length + 1 - current_length
-- 
2.43.0


From 0090949ec44ab528e687a98215914ec12742ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 24/43] fix: a reader process that dies before its end of
 stream makes the chunk fail instead of silently dropping its samples

---
 mixtera/core/query/result_chunk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 728d208..4e2fdbf 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -371,8 +371,9 @@ class ResultChunk:
                 except Empty as exc:
                     if not proc.is_alive():
                         proc.join()
-                        processes_to_remove.append((queue, proc))
-                        continue
+                        raise RuntimeError(
+                            f"Reader process exited (exit code {proc.exitcode}) before it delivered all of its samples."
+                        ) from exc
                     raise RuntimeError(
                         "Queue timeout reached but process is still alive. Something went wrong."
                     ) from exc
-- 
2.43.0


From ee896f27a0a890548fb190341353bd23d38d449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:06 +0000
Subject: [PATCH 25/43] fix: the end of a reader process is signalled out of
 band, such that no sample can be mistaken for it

---
 mixtera/core/query/result_chunk.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 4e2fdbf..14a5795 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -34,7 +34,13 @@ Workloads = list[Workload]
 Sample = str | list[int]
 
 MULTIPROCESSING_TIMEOUT = 90
-END_OF_STREAM_OBJECT = "END_OF_STREAM"
+
+
+class EndOfStream:
+    """Signals the end of a reader process. It has its own type such that no sample can be mistaken for it."""
+
+
+END_OF_STREAM_OBJECT = EndOfStream()
 
 original_start = mp.Process.start
 
@@ -377,7 +383,7 @@ class ResultChunk:
                     raise RuntimeError(
                         "Queue timeout reached but process is still alive. Something went wrong."
                     ) from exc
-                if instance == END_OF_STREAM_OBJECT:
+                if isinstance(instance, EndOfStream):
                     proc.join()
                     processes_to_remove.append((queue, proc))
                     continue
-- 
2.43.0


From 6edc7c66979d6c54ec7a1bb73931708d88f9b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 26/43] fix: a data worker that stops early does not unlink the
 shared memory other workers still use

---
 mixtera/torch/mixtera_torch_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index e8819e2..851562f 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -279,4 +279,6 @@ class MixteraTorchDataset(IterableDataset):
                     )
                     self._cleanup_shared_memory(False)
         finally:
-            self._cleanup_shared_memory(True)
+            # If we end early (e.g., due to an exception), other workers may still need the shared memory.
+            # It is unlinked by the last worker that completes or by the atexit handler of the creating process.
+            self._cleanup_shared_memory(False)
-- 
2.43.0


From 4b3af8b17442de0b3446ce55f8fb0f8706642fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 27/43] fix: no uninitialized memory is reported as worker
 status once the shared segment is closed

---
 mixtera/torch/mixtera_torch_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index 851562f..a0bbe37 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -238,7 +238,9 @@ class MixteraTorchDataset(IterableDataset):
 
     @property
     def worker_status(self) -> list[int] | None:
-        if self._status_shm is None:
+        # Copies of the dataset in the same process share the segment, i.e., another copy may have closed it already.
+        # Note that numpy would allocate uninitialized memory for a closed segment.
+        if self._status_shm is None or self._status_shm.buf is None:
             return None
 
         try:
-- 
2.43.0


From a2948d3d85d6219cb25e15c0c18b9db2e5e30093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 28/43] fix: hashing a mixture key neither reorders its values
 nor fails for numbers

---
 mixtera/utils/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index a879db4..7b8ab8c 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -111,9 +111,10 @@ def hash_list(string_list: list[str]) -> int:
     return hash_result
 
 
-def hash_dict(d: dict[str, list[str]]) -> int:
+def hash_dict(d: dict[str, list[str | int | float]]) -> int:
     """
-    Generate a hash from a dictionary with string keys and list of strings as values using xxhash.
+    Generate a hash from a dictionary with string keys and list of values using xxhash.
+    Neither the order of the keys nor the order of the values influences the hash.
 
     Args:
         d: A dictionary to be hashed.
@@ -125,9 +126,8 @@ def hash_dict(d: dict[str, list[str]]) -> int:
 
     # Process each key in sorted order for deterministic hashing
     for key in sorted(d.keys()):
-        # Get and sort the list of strings associated with the key
-        value_list = d[key]
-        value_list.sort()
+        # Sort the values associated with the key (without changing the list of the caller)
+        value_list = sorted(str(value) for value in d[key])
 
         # Concatenate the sorted list of strings with a separator
         concatenated_values = "\0".join(value_list)
-- 
2.43.0


From 5f2b513b4084ab38753e32ed2f541e55c6025cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 29/43] fix: adjusting the chunk size of a wrapped mixture also
 adjusts its quotas

---
 mixtera/core/query/mixture/dynamic_mixture.py             | 5 +++++
 mixtera/core/query/mixture/hierarchical_static_mixture.py | 4 ++++
 mixtera/core/query/mixture/mixture.py                     | 6 ++++++
 mixtera/core/query/mixture/mixture_schedule.py            | 6 ++++++
 mixtera/core/query/mixture/static_mixture.py              | 4 ++++
 5 files changed, 25 insertions(+)

diff --git a/mixtera/core/query/mixture/dynamic_mixture.py b/mixtera/core/query/mixture/dynamic_mixture.py
index cc9db86..d237feb 100644
--- a/mixtera/core/query/mixture/dynamic_mixture.py
+++ b/mixtera/core/query/mixture/dynamic_mixture.py
@@ -34,6 +34,7 @@ class DynamicMixture(Mixture):
                 + f"initial_mixture chunk size is {initial_mixture.chunk_size}. Adjusting."
             )
             initial_mixture.chunk_size = chunk_size
+            initial_mixture.chunk_size_adjusted()
 
         self._current_mixture = initial_mixture
         self._mixing_alg = mixing_alg
@@ -56,6 +57,10 @@ class DynamicMixture(Mixture):
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._current_mixture.mixture_in_rows()
 
+    def chunk_size_adjusted(self) -> None:
+        self._current_mixture.chunk_size = self.chunk_size
+        self._current_mixture.chunk_size_adjusted()
+
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         # Mostly useful for using an InferringMixture as the initial mixture.
         self._current_mixture.process_index(chunker_index)
diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 0cb51df..3317a25 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -36,6 +36,7 @@ class HierarchicalStaticMixture(Mixture):
             Component(values=["medicine"], weight=0.5)])
         """
         super().__init__(chunk_size, strict=strict)
+        self._root_node = mixture
         self._mixture = self.parse_mixture_node(chunk_size, mixture)
 
     def __str__(self) -> str:
@@ -71,5 +72,8 @@ class HierarchicalStaticMixture(Mixture):
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._mixture
 
+    def chunk_size_adjusted(self) -> None:
+        self._mixture = self.parse_mixture_node(self.chunk_size, self._root_node)
+
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         del chunker_index
diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index 84caef4..68405d5 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -49,6 +49,12 @@ class Mixture(ABC):
         """
         raise NotImplementedError("Method must be implemented in subclass!")
 
+    def chunk_size_adjusted(self) -> None:
+        """
+        Function that is called after the chunk size of an existing mixture has been adjusted, e.g., because it
+        is part of another mixture. Mixtures need to update everything that depends on the chunk size.
+        """
+
     @abstractmethod
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index b8f3a0f..c78b9f1 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -39,6 +39,7 @@ class MixtureSchedule(Mixture):
                     f"{idx}({entry.mixture.chunk_size}) does not match the schedule chunk size. Adjusting it."
                 )
                 entry.mixture.chunk_size = self.chunk_size
+                entry.mixture.chunk_size_adjusted()
 
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
@@ -52,6 +53,11 @@ class MixtureSchedule(Mixture):
         """
         return self.current_mixture.mixture_in_rows()
 
+    def chunk_size_adjusted(self) -> None:
+        for entry in self.schedule:
+            entry.mixture.chunk_size = self.chunk_size
+            entry.mixture.chunk_size_adjusted()
+
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
         Inform the current mixture about the overall chunker index.
diff --git a/mixtera/core/query/mixture/static_mixture.py b/mixtera/core/query/mixture/static_mixture.py
index 0eadf6d..14a6faa 100644
--- a/mixtera/core/query/mixture/static_mixture.py
+++ b/mixtera/core/query/mixture/static_mixture.py
@@ -35,6 +35,7 @@ class StaticMixture(Mixture):
         # Renormalize to reduce deviance from 1.0 further
         mixture = {key: val / total_weight for key, val in mixture.items()}
 
+        self._weights = mixture
         self._mixture = StaticMixture.parse_user_mixture(chunk_size, mixture)
 
     @staticmethod
@@ -76,5 +77,8 @@ class StaticMixture(Mixture):
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._mixture
 
+    def chunk_size_adjusted(self) -> None:
+        self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, self._weights)
+
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         del chunker_index
-- 
2.43.0


From 68f10ba294289dc6c51600d40081d5219f5ce127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 30/43] fix: a hierarchical mixture whose weights do not sum to
 1 is rejected instead of filled up with its first component

---
 mixtera/core/query/mixture/hierarchical_static_mixture.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 3317a25..57e9c27 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -1,4 +1,5 @@
 from dataclasses import dataclass
+from math import isclose
 from typing import TYPE_CHECKING, List
 
 from mixtera.core.query.mixture.mixture import Mixture
@@ -49,6 +50,13 @@ class HierarchicalStaticMixture(Mixture):
             assert val >= 0, "Mixture values must be non-negative."
             assert isinstance(key, MixtureKey), "Mixture keys must be of type MixtureKey."
 
+        total_weight = sum(formatted_user_mixture.values())
+        if not isclose(total_weight, 1.0, rel_tol=1e-3):
+            raise ValueError(f"Your mixture sums up to {total_weight} != 1.0")
+
+        # Renormalize to reduce deviance from 1.0 further
+        formatted_user_mixture = {key: val / total_weight for key, val in formatted_user_mixture.items()}
+
         mixture = {key: int(chunk_size * val) for key, val in formatted_user_mixture.items()}
 
         # Ensure approximation errors do not affect final chunk size
-- 
2.43.0


From fdb46aea2f7f73940da9342a6b2d67732010e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 31/43] fix: a mixture schedule informs all its mixtures and
 answers with the strictness of, and forwards losses to, the one in force

---
 mixtera/core/query/mixture/dynamic_mixture.py |  8 ++++++
 mixtera/core/query/mixture/mixture.py         |  6 +++++
 .../core/query/mixture/mixture_schedule.py    | 27 +++++++++++++++++--
 mixtera/core/query/query_result.py            |  2 +-
 4 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/query/mixture/dynamic_mixture.py b/mixtera/core/query/mixture/dynamic_mixture.py
index d237feb..06f4801 100644
--- a/mixtera/core/query/mixture/dynamic_mixture.py
+++ b/mixtera/core/query/mixture/dynamic_mixture.py
@@ -57,6 +57,14 @@ class DynamicMixture(Mixture):
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._current_mixture.mixture_in_rows()
 
+    def all_keys(self) -> set[MixtureKey]:
+        return self._current_mixture.all_keys()
+
+    def _update_training_step(self, training_steps: int) -> None:
+        super()._update_training_step(training_steps)
+        # Required for using a MixtureSchedule as the initial mixture.
+        self._current_mixture._update_training_step(training_steps)
+
     def chunk_size_adjusted(self) -> None:
         self._current_mixture.chunk_size = self.chunk_size
         self._current_mixture.chunk_size_adjusted()
diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index 68405d5..53b2f54 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -49,6 +49,12 @@ class Mixture(ABC):
         """
         raise NotImplementedError("Method must be implemented in subclass!")
 
+    def all_keys(self) -> set[MixtureKey]:
+        """
+        Returns all keys this mixture might use, including those that are not part of the mixture currently in force.
+        """
+        return set(self.mixture_in_rows().keys())
+
     def chunk_size_adjusted(self) -> None:
         """
         Function that is called after the chunk size of an existing mixture has been adjusted, e.g., because it
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index c78b9f1..135ec6e 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -1,6 +1,7 @@
 from dataclasses import dataclass
 from typing import TYPE_CHECKING
 
+import numpy as np
 from loguru import logger
 
 from mixtera.core.query.mixture import Mixture, MixtureKey
@@ -43,6 +44,7 @@ class MixtureSchedule(Mixture):
 
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
+        self.strict = self.current_mixture.strict
 
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
@@ -60,12 +62,33 @@ class MixtureSchedule(Mixture):
 
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
-        Inform the current mixture about the overall chunker index.
+        Inform all mixtures about the overall chunker index.
 
         Args:
             chunker_index: The chunker index.
         """
-        self.current_mixture.process_index(chunker_index)
+        for entry in self.schedule:
+            entry.mixture.process_index(chunker_index)
+
+    def all_keys(self) -> set[MixtureKey]:
+        return set().union(*(entry.mixture.all_keys() for entry in self.schedule))
+
+    def process_id_map(self, key_id_map: dict[MixtureKey, int]) -> None:
+        for entry in self.schedule:
+            entry.mixture.process_id_map(key_id_map)
+
+    def _update_training_step(self, training_steps: int) -> None:
+        super()._update_training_step(training_steps)
+        for entry in self.schedule:
+            entry.mixture._update_training_step(training_steps)
+        self.strict = self.current_mixture.strict
+
+    def _process_losses(self, losses: np.ndarray, counts: np.ndarray, mixture_id: int) -> None:
+        self.current_mixture._process_losses(losses, counts, mixture_id)
+
+    def write_logs(self) -> None:
+        for entry in self.schedule:
+            entry.mixture.write_logs()
 
     @property
     def current_mixture(self) -> Mixture:
diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 727d765..f184eb6 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -96,7 +96,7 @@ class QueryResult:
         initial_setup = len(self._key_id_map.keys()) == 0
         current_id = 0 if initial_setup else max(self._key_id_map.values()) + 1
 
-        keys = set(self._mixture.mixture_in_rows().keys())
+        keys = self._mixture.all_keys()
 
         if initial_setup:
             # This allows us to have a ID available whenever we switch to a None mixture.
-- 
2.43.0


From 553773c458205c8afd4cddfb7d21697a053dbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 32/43] fix: scaling law parameters are resized with the other
 per-domain state when domains are added

---
 mixtera/core/algo/ado/ado.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index cb006d6..43904c1 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -617,6 +617,11 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
                 self.pi_bar_t_minus_1 = np.concatenate(
                     [self.pi_bar_t_minus_1, np.zeros(size_diff, dtype=self.pi_bar_t_minus_1.dtype)]
                 )
+            if self.scaling_law_params is not None:
+                # Until the next fit, the new domains have a zero derivative
+                self.scaling_law_params = np.concatenate(
+                    [self.scaling_law_params, np.zeros((size_diff, 3), dtype=self.scaling_law_params.dtype)]
+                )
 
         # Keep track of per-step counts and losses
         # Adjust the lengths if necessary
-- 
2.43.0


From a15deec60ca69dbd7c9ec4a7f1ff7e87ff563000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 33/43] fix: feedback that does not cover all known domains
 does not break the ADO algorithm

---
 mixtera/core/algo/ado/ado.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index 43904c1..46072eb 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -593,6 +593,11 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
             losses: A numpy array of losses per domain.
             counts: A numpy array of counts per domain.
         """
+        if (size_diff := max(len(self.losses), len(self.initial_mixture)) - len(losses)) > 0:
+            # The feedback does not cover all known domains
+            losses = np.concatenate([losses, np.zeros(size_diff, dtype=losses.dtype)])
+            counts = np.concatenate([counts, np.zeros(size_diff, dtype=counts.dtype)])
+
         # We first need to catch the number of internal domains, otherwise we will not trigger the following condition.
         num_incoming_domains = len(losses)
         num_internal_domains = len(self.losses)
-- 
2.43.0


From 2e59ad71d0f3ce6747841623a25356e71f688c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 34/43] fix: a failed fit of the scaling laws keeps the
 previous parameters and releases its shared memory

---
 mixtera/core/algo/ado/ado.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index 46072eb..4a2004c 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -361,8 +361,7 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
         """
         logger.debug("Re-fitting scaling laws.")
         num_domains = len(self.counts)
-        self.scaling_law_params = np.zeros((num_domains, 3))  # [log_beta_k, log_epsilon_k, alpha_k]
-        assert self.scaling_law_params is not None
+        scaling_law_params = np.zeros((num_domains, 3))  # [log_beta_k, log_epsilon_k, alpha_k]
 
         logger.debug("Creating initial numpy arrays")
         counts_over_time = np.array(self.per_step_counts)
@@ -406,20 +405,24 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
         num_workers = max(num_cores - 4, 1)
         num_workers = max(min(num_workers, len(args_list)), 1)
 
-        with mp.Pool(num_workers) as pool:
-            results = pool.map(fit_scaling_law_for_domain, args_list)
-
-        counts_shm.close()
-        counts_shm.unlink()
-        losses_shm.close()
-        losses_shm.unlink()
+        try:
+            with mp.Pool(num_workers) as pool:
+                results = pool.map(fit_scaling_law_for_domain, args_list)
+        finally:
+            counts_shm.close()
+            counts_shm.unlink()
+            losses_shm.close()
+            losses_shm.unlink()
 
         for result in results:
             k, best_params, domain_log = result
-            self.scaling_law_params[k] = best_params
+            scaling_law_params[k] = best_params
             if domain_log is not None and self.logging_path is not None:
                 self.log_scaling_laws.append(domain_log)
 
+        # Only replace the previous parameters after all fits succeeded
+        self.scaling_law_params = scaling_law_params
+
         logger.debug("Finished fitting scaling laws.")
 
     @staticmethod
-- 
2.43.0


From daacc7e710f104c040fed03133a25cb055f0f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 35/43] fix: a new mixture is informed about the ids of its
 keys even if all of them are known

---
 mixtera/core/query/query_result.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index f184eb6..6008c08 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -91,8 +91,9 @@ class QueryResult:
             query_log_dir.mkdir(exist_ok=True)
         self._is_replay = False
 
-    def _update_key_id_map(self) -> None:
-        updated = False
+    def _update_key_id_map(self, new_mixture: bool = False) -> None:
+        # A new mixture needs to be informed, even if all its keys already have IDs
+        updated = new_mixture
         initial_setup = len(self._key_id_map.keys()) == 0
         current_id = 0 if initial_setup else max(self._key_id_map.values()) + 1
 
@@ -273,7 +274,7 @@ class QueryResult:
         with self._lock:
             self._mixture = mixture
             self._mixture.process_index(self._chunker_index)
-            self._update_key_id_map()
+            self._update_key_id_map(new_mixture=True)
 
     def _chunk_generator(self) -> Generator[ResultChunk, tuple[Mixture, int], None]:
         """
-- 
2.43.0


From 074f0970c3f1221fcf12a0de4e10faa87c85dbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:18 +0000
Subject: [PATCH 36/43] fix: jobs using the same mixture object do not share
 its state

---
 mixtera/core/client/local/local_stub.py | 3 ++-
 mixtera/core/query/query.py             | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 6186c9b..cb3aed7 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -1,4 +1,5 @@
 import multiprocessing as mp
+from copy import deepcopy
 from pathlib import Path
 from typing import Callable, Generator, Type
 
@@ -87,7 +88,7 @@ class LocalStub(MixteraClient):
             query.results._query_log_dir = self.mixture_log_directory / query.job_id
             query.results._query_log_dir.mkdir(exist_ok=True)
             query.results._key_id_map = {}  # reset map to trigger update of mixture id map
-            query.results.update_mixture(args.mixture)
+            query.results.update_mixture(deepcopy(args.mixture))  # not shared with other jobs
         else:
             db_version = self._mdc.get_db_version()  # read before executing, to never tag old results as current
             query.execute(self._mdc, args.mixture, self.mixture_log_directory / query.job_id)
diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d92c269..cb5e10e 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from pathlib import Path
 from typing import Any
 
@@ -153,7 +154,7 @@ class Query:
         self.results = QueryResult(
             mdc,
             mdc._connection.execute(full_query, parameters).fetch_arrow_table(),
-            mixture,
+            deepcopy(mixture),  # the results must not share state with other users of the mixture object
             query_log_dir=query_log_dir,
         )
 
-- 
2.43.0


From edd80351eaced5e599285782d4f5925535e2ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 37/43] fix: compute the per-window share of each mixture key
 with integer arithmetic

int(window * (rows / chunk)) rounds 100 * (29 / 100) down to 28, so a strict
window over a {71, 29} chunk delivered 99 of its 100 samples.
---
 mixtera/core/query/result_chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 14a5795..5094abf 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -483,7 +483,7 @@ class ResultChunk:
 
         # Determine the per-property combination batch counts
         initial_counts = [
-            (key, int(self._window_size * (value / self._chunk_size))) for key, value in self._mixture.items()
+            (key, (self._window_size * value) // self._chunk_size) for key, value in self._mixture.items()
         ]
         total_counts = sum(count for _, count in initial_counts)
         remainder = self._window_size - total_counts
-- 
2.43.0


From 251cfca1a2c0b82ccd6a6b10fd62a2fc0dea43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 38/43] fix: deliver combinations too rare for a share of the
 window instead of looping forever

With a mixture of {9, 1} and a window of 2, the second combination gets no
share. Once the first one was exhausted, best effort reading never ended.
---
 mixtera/core/query/result_chunk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 5094abf..87d81af 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -447,6 +447,10 @@ class ResultChunk:
                 if nothing_yielded_window:
                     break
 
+            if items_yielded == 0:
+                # Only combinations that are too rare to get a share of the window are left.
+                element_counts = [(property_key, max(count, 1)) for property_key, count in element_counts]
+
     def _iterate_overall_mixture(
         self, active_iterators: dict[MixtureKey, Iterator[Sample]]
     ) -> Iterator[tuple[int, Sample]]:
-- 
2.43.0


From 25aacafb85e3606ee0591224a5b28e6cadda4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:50 +0000
Subject: [PATCH 39/43] fix: infer the same mixture regardless of the order of
 the chunker index

---
 mixtera/core/datacollection/index/index_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/index/index_utils.py b/mixtera/core/datacollection/index/index_utils.py
index 1bd6659..daeb7e0 100644
--- a/mixtera/core/datacollection/index/index_utils.py
+++ b/mixtera/core/datacollection/index/index_utils.py
@@ -19,7 +19,8 @@ def infer_mixture_from_chunkerindex(chunker_index: ChunkerIndex) -> tuple[int, d
         )
         return mass
 
-    for property_combination, partition_entry in chunker_index.items():
+    # The order of the index differs between runs, but the order of the mixture decides, e.g., rounding.
+    for property_combination, partition_entry in sorted(chunker_index.items(), key=lambda x: x[0]):
         partition_mass = calculate_partition_mass(partition_entry)
         partition_masses[property_combination] = partition_mass
         total_count += partition_mass
-- 
2.43.0


From 80258830d766a60b957995875af941c343e33295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:13 +0000
Subject: [PATCH 40/43] fix: seed and shuffle without interference of other
 threads

The random number generators are process-wide, and a server generates chunks for several jobs in threads.
---
 mixtera/core/query/query_result.py |  6 ++----
 mixtera/core/query/result_chunk.py | 12 ++++--------
 mixtera/utils/__init__.py          |  2 ++
 mixtera/utils/utils.py             | 21 +++++++++++++++++++++
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 6008c08..8feb321 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -2,7 +2,6 @@ import json
 import multiprocessing as mp
 import os
 import pickle
-import random
 from collections import defaultdict
 from copy import deepcopy
 from pathlib import Path
@@ -26,7 +25,7 @@ from mixtera.utils.utils import (
     deserialize_chunker_index,
     distribute_by_ratio,
     merge_sorted_lists,
-    seed_everything_from_list,
+    seeded_shuffle,
     serialize_chunker_index,
 )
 
@@ -293,9 +292,8 @@ class QueryResult:
         # Here we shuffle the chunker index keys,
         # which determines the order of keys considered when two MixtureKeys are equal.
         # Hence, this depends on the hash function.
-        seed_everything_from_list(chunker_index_keys)
         chunker_index_keys.sort()  # Otherwise, despite seeding, a shuffle is not reproducible.
-        random.shuffle(chunker_index_keys)
+        seeded_shuffle(chunker_index_keys, chunker_index_keys)
 
         # Initialize component iterators
         component_iterators = {
diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 87d81af..66e1c7e 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -2,7 +2,6 @@ import ast
 import inspect
 import multiprocessing as mp
 import os
-import random
 import textwrap
 import typing
 from itertools import islice
@@ -22,7 +21,7 @@ from mixtera.utils import (
     ThreadedTokenizingIterator,
     TokenizingIterator,
     is_on_github_actions,
-    seed_everything_from_list,
+    seeded_shuffle,
 )
 
 if TYPE_CHECKING:
@@ -402,8 +401,7 @@ class ResultChunk:
         element_counts = self._get_element_counts()
 
         # Shuffle the results to ensure that the order of the property combinations is (reproducibly) random
-        seed_everything_from_list(element_counts)
-        random.shuffle(element_counts)
+        seeded_shuffle(element_counts, element_counts)
 
         # This assertion here makes sure our chunk matches the mixture, which is the underlying assumption
         # of the implementation below. There cannot be more than one key in the chunk we use per mixture key
@@ -460,8 +458,7 @@ class ResultChunk:
         """
         # Shuffle the results to ensure that the order of the property combinations is (reproducibly) random
         property_names = list(active_iterators.keys())
-        seed_everything_from_list(property_names)
-        random.shuffle(property_names)
+        seeded_shuffle(property_names, property_names)
 
         deleted_keys: set[MixtureKey] = set()
 
@@ -626,8 +623,7 @@ class ResultChunk:
                     workloads[property_combination].append((dataset_id, file_id, ranges))
 
             #  Shuffle the workloads to ensure that the order of the files is (reproducibly) random
-            seed_everything_from_list([property_combination])
-            random.shuffle(workloads[property_combination])
+            seeded_shuffle(workloads[property_combination], [property_combination])
 
         return workloads
 
diff --git a/mixtera/utils/__init__.py b/mixtera/utils/__init__.py
index a3daf05..2495b27 100644
--- a/mixtera/utils/__init__.py
+++ b/mixtera/utils/__init__.py
@@ -17,6 +17,7 @@ from .utils import (  # noqa: F401
     numpy_to_native_type,
     run_async_until_complete,
     seed_everything_from_list,
+    seeded_shuffle,
     serialize_chunker_index,
     wait_for_key_in_dict,
 )
@@ -30,6 +31,7 @@ __all__ = [
     "wait_for_key_in_dict",
     "hash_dict",
     "seed_everything_from_list",
+    "seeded_shuffle",
     "is_on_github_actions",
     "merge_sorted_lists",
     "numpy_to_native",
diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index 7b8ab8c..743721b 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -3,6 +3,7 @@ import multiprocessing as mp
 import os
 import pickle
 import random
+import threading
 import time
 from collections import defaultdict
 from copy import deepcopy
@@ -178,6 +179,26 @@ def seed_everything(seed: int) -> None:
     np.random.seed(seed)
 
 
+# The random number generators are shared by all threads, e.g., of a server that generates chunks for several jobs.
+_shuffle_lock = threading.Lock()
+os.register_at_fork(
+    before=_shuffle_lock.acquire, after_in_parent=_shuffle_lock.release, after_in_child=_shuffle_lock.release
+)
+
+
+def seeded_shuffle(to_shuffle: list[Any], seed_list: list[Any]) -> None:
+    """
+    Shuffle a list in place, such that the result only depends on the list and on the seed.
+
+    Args:
+        to_shuffle: the list to shuffle
+        seed_list: a list from which the seed is generated
+    """
+    with _shuffle_lock:
+        seed_everything_from_list(seed_list)
+        random.shuffle(to_shuffle)
+
+
 def is_on_github_actions() -> bool:
     # https://docs.github.com/en/actions/learn-github-actions/variables
     if "CI" in os.environ or os.environ["CI"] or "GITHUB_RUN_ID" in os.environ:
-- 
2.43.0


From e93ec583553b2d8a7610b708bdb14d29a4438700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:24 +0000
Subject: [PATCH 41/43] fix: claim a chunk's index under the lock that
 serializes its generation

QueryResult.__next__ claimed the index before acquiring the lock. Two threads
could then reach the generator in another order than they claimed, upon which
the generator skipped the earlier chunk for good and the thread waiting for it
consumed the remaining data.
---
 mixtera/core/query/query_result.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 8feb321..6fcbfb3 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -570,11 +570,13 @@ class QueryResult:
 
     def __next__(self) -> ResultChunk:
         """Iterate over the results of the query."""
-        with self._index.get_lock():
-            chunk_target_index = self._index.get_obj().value
-            self._index.get_obj().value += 1
-
         with self._lock:
+            # Claim the index under the lock that serializes the generator. Otherwise, two threads could reach the
+            # generator in another order than they claimed their index, and the generator never goes back to a chunk.
+            with self._index.get_lock():
+                chunk_target_index = self._index.get_obj().value
+                self._index.get_obj().value += 1
+
             #  The generator is created lazily since the QueryResult object might be pickled
             # (and the generator was deleted from the state)
             if self._generator is None:
-- 
2.43.0


From e6d2c39b632e45a70c55ae3bcc4245b3a0235c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:58 +0000
Subject: [PATCH 42/43] fix: end the chunk if no key that is left has a share
 of it

If a best-effort mixture ran out of data for a key and all the keys left had a
share of zero samples of a chunk (e.g., weights of 0.99 and 0.01 with a chunk
size of 10), redistributing the missing samples divided by zero and the job
crashed instead of running out of data.
---
 mixtera/core/query/query_result.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 6fcbfb3..aa4a107 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -436,8 +436,11 @@ class QueryResult:
                                     )
                                     mixture[mixture_key] -= num_missing_samples
 
-                                if not remaining_sizes:
+                                if not any(mixture[key] for key in remaining_sizes):
+                                    # None of the keys that are left (if any) has a share of this chunk,
+                                    # i.e., there is no key that can take over the missing samples.
                                     logger.debug("Not enough data, ending chunk generation")
+                                    remaining_sizes.clear()
                                 else:
                                     # Redistribute missing samples among other mixture keys that are not finished
                                     # Note that remaining_sizes includes keys with current value 0,
-- 
2.43.0


From b3dd432679f3de4726edf7897375d324376952f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:34 +0000
Subject: [PATCH 43/43] fix: do not request zero samples of a key that has no
 share of the chunk

The splitter answers such a request with an empty range, so the chunk had a key
that its mixture lacks and the reader rejected the chunk.
---
 mixtera/core/query/query_result.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index aa4a107..47a1e60 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -358,6 +358,10 @@ class QueryResult:
                     # Sort to guarantee same handling for semantically same mixtures
                     for mixture_key in sorted(remaining_sizes.keys()):
                         # logger.debug(f"Handling key {mixture_key}, remaining sizes: {remaining_sizes}")
+                        if remaining_sizes[mixture_key] == 0:
+                            # Requesting zero samples would put an empty range of the key into the chunk,
+                            # and the keys of a chunk have to match the keys with a share of it.
+                            continue
 
                         for component_key, iterator in sorted(component_iterators.items(), key=lambda x: x[0]):
                             # logger.debug(f"Checking component key {component_key}")
-- 
2.43.0

