#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one JSON object per line) from the compact table below."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        anchors["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    assert len({id} & {x["id"] for x in P}) == 0
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=anchors))


SC = "mixtera/network/connection/server_connection.py"
SV = "mixtera/network/server/server.py"
NU = "mixtera/network/network_utils.py"
LS = "mixtera/core/client/local/local_stub.py"
SS = "mixtera/core/client/server/server_stub.py"
MC = "mixtera/core/client/mixtera_client.py"
QC = "mixtera/core/query/query_cache.py"
QR = "mixtera/core/query/query_result.py"
CD = "mixtera/core/query/chunk_distributor.py"
RC = "mixtera/core/query/result_chunk.py"
DC = "mixtera/core/datacollection/mixtera_data_collection.py"

prop("C01", "Client and server exchange the same field sequence for every request",
     "For every request type, the ordered sequence of fields a client sends (kind and size encoding of each, including every optional or repeated part) is exactly the sequence the server consumes, and the sequence the server answers with is exactly what the client consumes. Neither side ever blocks waiting for a field the other does not send, nor leaves unread fields that a later read would misinterpret.",
     ["inputs", "programs"], "all request types, all argument values that steer optional/repeated parts, all branches of each handler and of each client call",
     "Client tests script a mocked reader/writer and server tests script another one; no stable test ever runs both ends against each other, and each samples one or two branches per request.",
     [SC, SV, NU, "mixtera/network/server_task.py"],
     [("request encoders/decoders on the client", SC + ": ServerConnection coroutines"),
      ("request handlers and dispatcher", SV + ": MixteraServer handlers"),
      ("primitive codecs", NU)], observe=["bytes on the socket"])
prop("C02", "Every request argument reaches the same server-side operation parameter",
     "Whatever value a caller passes for a parameter of a client operation against a remote server is the value the corresponding local operation on the server receives for that same parameter, and the result of that operation is what the caller gets back. No argument or result component is swapped with another, dropped, replaced by a constant, or altered on the way.",
     ["inputs"], "every remote client operation, every parameter and every value of it",
     "Mock-based tests compare the calls of one side with hand-written expectations using a few sample values; a consistent swap on one side, or a lossy conversion for other values, is invisible.",
     [SS, SC, SV, LS, MC],
     [("stub methods", SS + ": ServerStub"), ("write positions", SC), ("read positions and local calls", SV)])
prop("C03", "Every request gets an answer and one failing request never harms the server",
     "The server has a matching handler for every request a client can issue, each handler that runs to completion has sent its answer, and a request that fails for any reason ends only its own connection. Each connection is closed on every way out of request processing, and the accept loop keeps serving other clients.",
     ["inputs", "fault_sequences"], "all request types, all failures (including cancellation and truncated requests) inside a handler",
     "Tests exercise one handler at a time with mocks and cover one failure per suite; the space of request x failure point is not sampled.",
     [SV, SC, "mixtera/network/server_task.py"],
     [("dispatcher", SV + ": _dispatch_client"), ("task identifiers", "mixtera/network/server_task.py")])
prop("C04", "Every value written to the wire is decoded back to the same value",
     "For every primitive the network layer offers (integers, floats, strings, objects, non-empty or absent raw bytes, arrays), encoding and decoding use the same width, byte order, signedness, length header and presence marker, so the decoder consumes exactly the bytes the encoder produced and never deserialises executable content for arrays.",
     ["inputs"], "all values and header sizes of each primitive",
     "Tests check a few small values per primitive, mostly against mocks; negative, multi-byte and absent values and the byte-exact consumption for all header sizes are not covered.",
     [NU], [("codec pairs", NU + ": read_*/write_* functions")])
prop("C05", "Fragmented, stalled or truncated transmissions never yield wrong data",
     "A read of N bytes from the network returns exactly N bytes however the transport fragments them; if the peer closes in the middle it raises a connection error instead of returning partial data (if it closes before the first byte, the read reports that there is no data), and if the peer stalls it gives up after the requested timeout measured over the whole read. Data already received is never discarded, duplicated or reordered.",
     ["schedules", "fault_sequences", "inputs"], "all fragmentations, all close points, all stall points",
     "Tests feed one or two fragmentations through a mock reader; closing at each byte boundary and timing are not explored.",
     [NU], [("bounded read loop", NU + ": read_bytes, read_bytes_obj")])
prop("C06", "Connection failures are reported, never dereferenced, by client requests",
     "When a connection to the server cannot be established, every client request recognises it before using the connection and reports failure the documented way; it never crashes on the missing connection. This holds at every point where a request opens a connection, including reconnects while polling.",
     ["fault_sequences"], "every client request x connection failing at each attempt to connect",
     "Tests of the client connection do not run in the stable suite and only ever fail the first attempt of a few requests.",
     [SC], [("connection acquisition and checks", SC + ": _connect_to_server call sites")])
prop("C07", "A client is told success only if the server-side operation succeeded",
     "The status a remote client receives for an operation (registration, query execution, feedback, checkpointing, restoring, property computation) reflects the outcome of that very operation: failures, exceptions and still-running work are never reported as success, and results of an earlier operation on the same job are never reported for a later one.",
     ["fault_sequences", "histories"], "all handlers, all outcomes of the wrapped operation, all earlier requests of the same job",
     "Tests mock the wrapped operation with one successful outcome; failing outcomes and re-registration histories are not exercised.",
     [SV, SC], [("background registration bookkeeping", SV + ": _register_query_bg, _register_dataset_bg"),
                ("direct handlers", SV)], state=[("registration status tables", "job/dataset -> pending/success/failure")])
prop("C08", "A cached query result is served only for the same query on the same catalog",
     "A query is answered from the cache only when a stored entry carries exactly the same query text and was computed against exactly the current catalog version; any other entry is never served. A cached result is bound to the job, mixture and log directory that asked for it. Two queries that select different data never share a query text.",
     ["histories", "inputs"], "all sequences of queries and catalog changes, all pairs of queries",
     "Tests check one hit and one miss; distinguishing all query pairs and all interleavings with catalog changes is out of reach.",
     [QC, "mixtera/core/query/query.py", "mixtera/core/query/operators/select.py", LS],
     [("lookup", QC + ": QueryCache.get_queryresult_if_cached"), ("entry writing", QC + ": cache_query"),
      ("query text", "mixtera/core/query/operators/*.py: string methods")])
prop("C09", "Every catalog change invalidates previously cached query results",
     "Every operation that changes the catalog's datasets, files or samples (registering, removing, adding properties) advances the persistent catalog version before it reports success, on every path on which data changed; the version never moves backwards and is shared by all processes using the catalog.",
     ["histories", "inputs"], "all catalog-changing operations and all their successful paths",
     "Tests check the version after one registration; removal, partial registration and property computation are not all sampled.",
     [DC], [("version counter", DC + ": get_db_version, _db_incr_version"), ("mutators", DC)])
prop("C10", "A crash during writing never leaves a cache entry or checkpoint that looks valid",
     "An entry in the query cache becomes visible to lookups only after the whole result has been stored, and a checkpoint is reported as completed only after everything belonging to it has been written. A crash at any point in between leaves nothing that a later lookup or restore would accept as complete.",
     ["crash_points"], "every point during writing a cache entry or a checkpoint",
     "No test crashes mid-write; the order of writes is never observed.",
     [QC, CD, QR], [("publication order", QC + ": cache_query"), ("checkpoint writer", CD + ": _persist_checkpoint_process")])
prop("C11", "A checkpoint stores and restores the complete distribution state",
     "Everything that determines which data a training job receives next (positions, cached and partially consumed chunks, usage counts, consumption progress, mixture history, identifiers, worker layout) is contained in a checkpoint and is put back under the same meaning on restore, so a restored job continues as if it had not stopped. No persisted field is ignored, defaulted or exchanged with another on restore.",
     ["histories", "configurations"], "all checkpoint/restore histories and job layouts (including zero workers per node)",
     "Tests restore one configuration right after creation and compare a few fields; repeated checkpoint/restore and zero-worker layouts are not covered.",
     [CD, QR, LS], [("distributor state", CD + ": checkpoint, from_checkpoint"), ("query result state", QR + ": to_cache/from_cache, __getstate__/__setstate__")])
prop("C12", "A checkpoint is an isolated snapshot of one instant",
     "The data written by a checkpoint is exactly the state at the moment the checkpoint was taken: distributing further chunks or processing feedback while the checkpoint is being written in the background never changes what ends up in it; what is handed to the background writer shares no mutable object with the live job.",
     ["schedules", "histories"], "all interleavings of background writing with chunk distribution and feedback",
     "Tests wait for the writer before continuing and so never overlap it with mutation.",
     [CD, QR, LS], [("snapshot creation", CD + ": checkpoint")])
prop("C13", "Checkpoint identifiers are unique and completion reports are truthful",
     "A checkpoint is reported complete only after all nodes and workers contributed and its background writer finished successfully; a crashed writer is reported as an error rather than success. Every new checkpoint of a job gets an identifier never used before by that job, including after restores, and a rejected checkpoint request does not block later ones.",
     ["histories", "fault_sequences"], "all sequences of checkpoint requests by nodes, writer outcomes, restores",
     "Tests take one checkpoint in a fixed node order with a writer that succeeds.",
     [CD, LS], [("checkpoint coordination", CD + ": checkpoint, checkpoint_completed"), ("id choice", CD)])
prop("C14", "Restoring a job resumes at exactly the next undelivered chunk",
     "The progress recorded for a job counts exactly the chunks handed out, and the recorded mixture history holds, for every chunk index, the mixture that was in force, unaffected by later changes to live mixtures. Replaying that record reproduces the same chunks, so that no chunk is skipped, repeated or built from a different mixture after a restore.",
     ["histories", "inputs"], "all histories of chunk requests, mixture changes, exhausted sources and restores",
     "Tests replay one short history with a static mixture and never restore after exhaustion or a failed strict chunk.",
     [QR, "mixtera/core/query/mixture/mixture_schedule.py"], [("generation and replay", QR + ": _chunk_generator, __next__, replay")])
prop("C15", "All nodes of a data-parallel group see the same chunks, each exactly once",
     "Within one data-parallel group all nodes receive the same sequence of chunks per worker, different groups never share a chunk, and a chunk is dropped from memory only after every node of the group has received it. No chunk is skipped or handed out twice to the same worker, whatever order the nodes ask in.",
     ["schedules", "histories", "configurations"], "all request orders of nodes and workers, all group/node/worker counts",
     "Tests use a handful of layouts and request orders.",
     [CD], [("chunk hand-out", CD + ": next_chunk_for")], state=[("chunk cache / usage / cursors", "per group bookkeeping")])
prop("C16", "Shared distribution state is only touched under its lock",
     "Chunk production, the active mixture and the progress counters of a job are modified only while the job's lock is held, also when several processes or threads share the job, and locks are always taken in one fixed order and released on every exit. Creation of per-job server state happens at most once per job under concurrent requests.",
     ["schedules"], "all interleavings of concurrent requests/threads/processes",
     "Thread tests sample a few schedules and cannot show absence of races or deadlocks.",
     [QR, SV, LS, "mixtera/torch/mixtera_torch_dataset.py"], [("query-result lock and index lock", QR), ("server/stub maps", SV)])
prop("C17", "Same catalog, query and seed give the same chunks in the same order",
     "Executing the same query with the same mixture and seed on the same catalog yields the same sequence of chunks and the same samples inside them, in every process and on every run. Nothing on the path from query execution to sample delivery depends on unseeded randomness, hash or set ordering, time, or process identity.",
     ["inputs", "schedules", "histories"], "all queries, mixtures, seeds, processes (hash seeds) and repeated runs",
     "Tests run in one process with one hash seed and compare at most two runs.",
     [QR, RC, "mixtera/utils/utils.py", CD], [("seeding", "mixtera/utils/utils.py: seed_everything_from_list"), ("shuffles", QR + ", " + RC)])
prop("C18", "Splitting and merging sample ranges never loses or duplicates a sample",
     "Whenever the system splits a range of samples between the current chunk and the remainder, or merges partial ranges of the same file, the pieces are half-open, adjacent and non-overlapping, and together cover exactly the original samples. The number of samples a chunk claims equals the number its ranges contain, and a chunk contains exactly the keys that have a share of it.",
     ["inputs"], "all ranges, file layouts and requested sample counts",
     "Tests use small hand-picked intervals; arbitrary splits over several files and keys are not enumerated.",
     [QR, RC, "mixtera/utils/utils.py"], [("chunk assembly", QR + ": _generate_per_mixture_component_chunks"), ("merging", "mixtera/utils/utils.py")])
prop("C19", "Mixture quotas are non-negative whole numbers adding up to the chunk size",
     "For every mixture and chunk size, the per-component sample counts handed to chunk generation add up to exactly the chunk size in force, also after the chunk size or the weights of the mixture were changed or inferred; generating chunks never changes the quotas of a mixture. A mixture whose weights do not describe a whole is rejected at construction.",
     ["inputs", "configurations"], "all weight assignments, chunk sizes and mixture kinds, including mixtures nested in others",
     "Tests check a few friendly weights; rounding and nested chunk sizes are not covered.",
     ["mixtera/core/query/mixture/*.py", "mixtera/utils/utils.py"], [("row computation", "mixtera/core/query/mixture/mixture.py, static_mixture.py, hierarchical_static_mixture.py, dynamic_mixture.py")])
prop("C20", "Mixtures wrapping other mixtures behave like the wrapped mixture in force",
     "A scheduled or dynamic mixture answers every question chunk generation asks (quotas and keys; strictness unless the wrapping mixture is configured with its own) as the mixture in force at the current training step would, and every notification the wrapped mixtures' answers depend on reaches them: index, key ids, training step, chunk size and logging all of them, losses the one in force; key ids and logs of a mixture driven by its own algorithm stay with that algorithm. Switching takes place at the configured step and never earlier or later.",
     ["histories", "configurations"], "all schedules, wrapped mixture kinds and feedback histories",
     "Tests check schedules of plain static mixtures only.",
     ["mixtera/core/query/mixture/mixture_schedule.py", "mixtera/core/query/mixture/dynamic_mixture.py", "mixtera/core/query/mixture/mixture.py"],
     [("delegation", "mixtera/core/query/mixture/mixture_schedule.py"), ("interface", "mixtera/core/query/mixture/mixture.py")])
prop("C21", "Training feedback updates mixtures consistently and never goes backwards",
     "Feedback for a job only changes that job's mixture and never rolls its training step back; losses and sample counts are always accumulated together for the same domains. A mixture proposed by an algorithm is adopted only if there is one, each weight going to the key with that domain's id; a failed update leaves what was in force before, and the per-domain state of an algorithm always covers the same domains. Chunks made from an adopted mixture carry a new mixture id.",
     ["histories", "inputs"], "all feedback sequences, algorithms and domain sets (including domains discovered late)",
     "Tests feed one or two updates with a fixed domain set.",
     ["mixtera/core/algo/dynamic_mixing/dynamic_mixing.py", "mixtera/core/query/mixture/dynamic_mixture.py", "mixtera/core/algo/ado/ado.py", "mixtera/core/algo/loss_avg/loss_avg.py"],
     [("feedback processing", "mixtera/core/algo/dynamic_mixing/dynamic_mixing.py: process_losses"), ("step handling", "mixtera/core/query/mixture/dynamic_mixture.py")])
prop("C22", "Equal mixture keys hash equally and domain ids stay stable",
     "Keys with the same properties and values, in whatever order given, compare equal, hash equally and sort equally in every process; hashing, comparing and printing never change a key or the lists it was built from, and a changed key hashes by its new properties. Comparison is decided by the properties alone: a key matches another exactly if the other has all its properties, each with a common value (or both without values). Every domain key of a job keeps the one numeric id first given to it, no two keys share an id, and each sample is labelled with the id of its own key.",
     ["inputs", "histories"], "all pairs of keys, all mutation and id-assignment histories",
     "Tests compare a few key pairs; hash/equality coherence over all keys cannot be sampled.",
     ["mixtera/core/query/mixture/mixture_key.py", QR], [("equality and hash", "mixtera/core/query/mixture/mixture_key.py"), ("id assignment", QR)])
prop("C23", "Dataset readers return exactly the requested samples, in order, for every format",
     "For every supported dataset format, reading a list of half-open sample ranges yields exactly the samples with those row numbers, in the numbering used when the file was indexed (for a file unchanged since), with no sample added, dropped, repeated or taken from another row. Requests that a forward-only reader cannot serve (unsorted or overlapping ranges) are rejected instead of silently served wrongly.",
     ["inputs"], "all files, range lists and formats, local or tunnelled through the server",
     "Tests read one or two ranges from one tiny file per format.",
     ["mixtera/core/datacollection/datasets/*.py", "mixtera/utils/webdataset_utils.py"], [("range readers", "read_ranges_from_files of each dataset type"), ("indexing", "inform_metadata_parser of each dataset type")])
prop("C24", "All client and dataset variants implement the same complete interface",
     "Local and remote clients offer every operation of the client interface with the same parameters and defaults, and every dataset type, parser and mixing algorithm that can be registered or selected by name or id resolves to exactly one implementation that provides all required operations. Type identifiers are unique and convert back to the type they came from; identifiers, names and modes nothing implements are refused.",
     ["programs", "configurations"], "all operations x variants; all dataset type ids; all registered names",
     "Tests construct some variants only; missing or mismatching operations show only when called.",
     [MC, LS, SS, "mixtera/core/datacollection/datasets/*.py", "mixtera/core/datacollection/index/parser/*.py"], [("client interface", MC), ("type registry", "mixtera/core/datacollection/datasets/dataset.py: from_type_id")])
prop("C25", "User-supplied query values can only ever act as data",
     "Values, names of datasets, keys and files supplied by users or read from data never become part of the text of a catalog statement as anything but bound parameters; for every query the number and order of placeholders equal those of the bound values, and each condition filters on the property, operator and value the user gave. Every condition on a known column with a supported operator takes effect (conditions on unknown columns, unknown operators and empty value lists are ignored by design).",
     ["inputs"], "all queries, operators, values, nesting of conditions",
     "Tests compare a few generated SQL strings; arbitrary values and nested condition combinations are not covered.",
     ["mixtera/core/query/operators/select.py", "mixtera/core/query/query.py", "mixtera/core/query/query_plan.py", DC],
     [("SQL generation", "mixtera/core/query/operators/select.py: generate_sql"), ("execution", "mixtera/core/query/query.py: execute"), ("catalog statements", DC)])
prop("C26", "Indexing records each sample once, complete and under its own row number",
     "For every indexed file each sample is recorded exactly once, under its own row number, with values only for properties the parser declares and with every mandatory property present; a sample that violates this makes indexing fail instead of being stored partially. The collected columns always have equal length.",
     ["inputs"], "all parsers, all payloads (missing/null/extra fields)",
     "Tests parse one or two complete records per parser.",
     ["mixtera/core/datacollection/index/parser/metadata_parser.py", "mixtera/core/datacollection/index/parser/parser_collection.py", DC],
     [("record validation", "mixtera/core/datacollection/index/parser/metadata_parser.py: add_metadata"), ("parsers", "mixtera/core/datacollection/index/parser/parser_collection.py")])
prop("C27", "Background producers never hide failures or leave the consumer waiting",
     "When a background prefetcher or tokenizer thread ends, for whatever reason, its consumer is woken up: after normal exhaustion it sees the end of the stream after all items, and after a failure it receives the failure. No item is lost, repeated or reordered: the token windows handed out are full, consecutive and advance by the configured step.",
     ["schedules", "fault_sequences"], "all interleavings of producer and consumer, failure at every item",
     "Tests iterate healthy sources; none fails a producer or abandons a consumer.",
     ["mixtera/utils/tokenizing_iterator.py", "mixtera/utils/prefetch_iterator.py"], [("thread loop", "mixtera/utils/tokenizing_iterator.py: prefetch_loop"), ("first item prefetch", "mixtera/utils/prefetch_iterator.py")])
prop("C28", "Parallel readers deliver every sample or fail, never end early in silence",
     "With parallel reading, the workloads of a chunk are divided among the reader processes completely and without overlap, each reader signals its end exactly once after all its samples, and a reader that dies or fails makes the consumer fail. No sample value can be mistaken for the end of the stream.",
     ["schedules", "fault_sequences", "inputs"], "all reader counts, reader crashes, sample values",
     "Tests run healthy readers with benign samples, mostly single-process.",
     [RC], [("partitioning", RC + ": reader workload division"), ("end-of-stream protocol", RC + ": _reader_process, multi-process iteration")])
prop("C29", "Window and mixture order inside a chunk follow the chunk's mixture",
     "Iterating a chunk with a mixture yields, in each full window, the configured number of samples per domain; when a domain is exhausted the remaining domains continue (best effort) or the chunk ends (strict) and no sample is dropped in best-effort mode. The number and order of samples of each domain are those of its ranges.",
     ["inputs", "configurations"], "all mixtures, window sizes, exhaustion orders",
     "Tests cover a few sample sets.",
     [RC], [("window iteration", RC + ": best-effort and strict iterators")])
prop("C30", "Worker status and completion of a training epoch are tracked truthfully",
     "A training data worker publishes its progress before handing over the corresponding sample, marks itself completed exactly when its stream is exhausted, and releases shared resources on every way out of iteration; resources shared by workers are destroyed only when all workers completed. Copies of the dataset in worker processes behave as the original.",
     ["schedules", "fault_sequences"], "all worker counts, interleavings and early exits",
     "The torch and Hugging Face tests are not in the stable suite and use a single worker.",
     ["mixtera/torch/mixtera_torch_dataset.py", "mixtera/hf/mixtera_hf_dataset.py"], [("worker iteration", "mixtera/torch/mixtera_torch_dataset.py")])
prop("C31", "Only the designated rank writes checkpoints ids and sends feedback",
     "In distributed training exactly one rank stores the data-loader checkpoint id next to the model checkpoint, every rank takes part in the checkpoint once and waits for the checkpoint of all ranks to be completed before continuing, and feedback about losses is sent once, by the rank at position 0 of the data- and tensor-parallel dimensions only. Exactly one rank starts or restores a job, what was stored is what is used for restoring, and all ranks wait for the job to be executed.",
     ["configurations", "schedules"], "all rank layouts",
     "The checkpoint/feedback helper tests do not run in the stable suite.",
     ["mixtera/utils/checkpoint.py", "mixtera/utils/feedback.py"], [("checkpoint helper", "mixtera/utils/checkpoint.py"), ("feedback helper", "mixtera/utils/feedback.py")])
prop("C32", "Failed operations on the catalog leave no trace and are reported",
     "An operation on the catalog that fails (duplicate name, missing files, unknown parser, failing insertion) reports failure and leaves neither rows nor a changed set of datasets behind; removal of a dataset removes its samples, files and entry together.",
     ["fault_sequences", "inputs"], "all failure points of registering/removing",
     "Tests check some failing inputs but not the catalog contents after a failure at each step.",
     [DC], [("registration", DC + ": register_dataset"), ("removal", DC + ": remove_dataset")])
prop("C33", "Mixture proportions of emitted chunks match the requested weights",
     "Over a job, the fraction of samples of each domain in emitted chunks equals the requested weight up to rounding of one sample per chunk and domain.",
     ["inputs", "configurations"], "all indexes, weights and chunk sizes",
     "Only tiny examples are sampled.", [QR], [("chunk assembly", QR)])
prop("C34", "Adaptive data optimisation converges to the published scaling-law weights",
     "The adaptive algorithm's weights equal those its published update equations give for the same loss history, for every history, up to floating-point error.",
     ["inputs", "histories"], "all loss histories",
     "Reference values for a few steps only.", ["mixtera/core/algo/ado/ado.py"], [("weight update", "mixtera/core/algo/ado/ado.py")])
prop("C35", "The native chunk-index builder produces the index of the Python reference",
     "For every query result table the native builder assigns every sample range to exactly the key made of its property values, for every number of threads.",
     ["inputs", "schedules"], "all tables and thread counts",
     "The native extension is not built in this environment.", ["mixtera/core/query/chunker/chunker_extension.cpp"], [("builder", "chunker_extension.cpp")])
prop("C36", "Tokenised streams contain exactly the tokens of the samples in order",
     "The concatenation of the token windows a training job receives equals the tokenisation of its samples in order with the configured separators, up to the documented overlap and the final incomplete window.",
     ["inputs"], "all sample texts and tokenizers", "A few strings only.",
     ["mixtera/utils/tokenizing_iterator.py"], [("windows", "mixtera/utils/tokenizing_iterator.py")])
prop("C37", "Chunk generation always makes progress and uses up all matching data",
     "While data matching the mixture in force remains, asking for the next chunk finishes after finitely many steps; the search for a key with samples left never loops forever, a key is given up only after its source reported that it is exhausted, and generation ends only when all keys are exhausted or a chunk of the mixture cannot be completed. A key whose share of a chunk is zero samples does not make generation fail.",
     ["inputs", "histories"], "all chunk indexes, chunk sizes, mixtures and exhaustion orders of keys",
     "Tests use few keys of equal size; non-termination needs particular exhaustion patterns.",
     [QR], [("chunk generator", QR + ": QueryResult._chunk_generator")])
prop("C38", "A query result covers exactly the selected samples, each with its own properties",
     "The rows of sample intervals computed for a query contain exactly the samples its conditions select, each exactly once, half-open, and under the data set, file and combination of property values of that very sample; samples that were not selected never become part of an interval, whatever the order of the rows in the catalog and however the selected samples are spread over files.",
     ["inputs", "configurations"], "all catalogs, selections, property schemas and physical row orders",
     "Tests use small catalogs whose rows are stored in order and whose selections have few gaps.",
     ["mixtera/core/query/query.py", QR], [("interval statement", "mixtera/core/query/query.py: Query.execute")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
