T = "custom static analysis on an inlined control-flow graph: "
N = "Structural necessary condition decided on all paths of the current source; trusts the analyser's Python lowering (no eval/exec, no monkey-patching) and inlines project-local helpers up to depth 7. "
CHECKS = {
    "C01": (T + "session-type extraction and automata comparison", N + "Decides field order, codec and header width per request on both ends; failures raised by transport are outside the words."),
    "C02": (T + "value provenance (reaching definitions) composed across client and server", N + "Lossless conversions are an explicit table; parser source transfer is recognised as exec of the received text."),
    "C03": (T + "path exploration of the connection callback (replies, escaping exceptions, close on every exit)", N),
    "C04": (T + "matching of every encoder byte layout (dataflow terms) against the reads of the decoder", N + "Widths/orders/lengths as dataflow terms; values stay uninterpreted."),
    "C05": (T + "typestate of the read loop (outstanding size, append-once, end-of-stream, deadline)", N + "asyncio's reader/wait_for semantics are trusted."),
    "C06": (T + "path exploration with each connection absent (null-dereference typestate)", N),
    "C07": (T + "constant propagation of operation outcomes through background tasks, status tables, replies and client verdicts", N),
    "C08": (T + "value provenance of cache keys/versions, path exploration of lookup scenarios, field accounting of query texts", N),
    "C09": (T + "path exploration with an effect model of the executed SQL: every committed mutation bumps the version", N + "SQL effects are decided from statement text with a small parser; DuckDB transactions are trusted."),
    "C10": (T + "write-then-publish ordering on all paths incl. exceptional ones, over the set of files opened and renamed", N + "rename is taken to be atomic, as POSIX says."),
    "C11": (T + "field accounting and value provenance between checkpoint writer and restore", N + "pickle/dill/deepcopy are taken to be faithful."),
    "C12": (T + "resource/process-boundary analysis of the checkpoint write path (what the background writer receives, aliasing with live state)", N + "Immutability is decided from constructors and annotations; multiprocessing semantics are trusted."),
    "C13": (T + "path exploration of checkpoint validation and seek on restore, value provenance of chunk/sample positions", N),
    "C14": (T + "path exploration of chunk hand-out, generator and replay (typestate of progress counters, mixture history and chunk index), alias analysis of recorded mixtures", N + "A failed strict attempt is a recorded finding."),
    "C15": (T + "path exploration of chunk hand-out with the chunk in memory, missing, or none left (abstract bookkeeping effects), role consistency of group/node/worker ids at all call sites", N),
    "C16": (T + "lockset analysis (must/may) of all lock-free entry points, critical-section identity for read-modify-write and check-then-create, lock-order graph", N + "Single-threaded event-loop handlers are only required to hold the declared locks."),
    "C24": (T + "class-hierarchy completeness and signature compatibility of all variants, parameter forwarding by dataflow terms, constant propagation through every dispatch (type ids, names, modes, paths, argument shapes)", N),
    "C25": (T + "abstract evaluation of the condition loop for every operator, kind of value and kind of column; taint analysis of statement texts; placeholder/parameter accounting", N + "DuckDB's own evaluation of a bound statement is trusted."),
    "C26": (T + "abstract evaluation of record validation for every kind of property and value; path exploration of parsers, file readers and column assembly (exactly-once typestate, row-number provenance)", N + "pyarrow/polars/DuckDB calls are trusted."),
    "C23": (T + "abstract interpretation of loop bodies in a linear-constraint (polyhedral) domain: position invariants, interval coverage", N + "pyarrow's slice/row-group and wids' tar access are trusted."),
    "C17": (T + "order-taint analysis: function summaries over undetermined iteration order per container level, entropy and scheduling, post-dominator control dependence, must-seed typestate and lock regions for draws", N + "Draws of user code, of other libraries and of threads that use the global generator outside of the analysed lock are not excluded; the number of CPUs counts as configuration."),
    "C18": (T + "inductive loop invariants over linear integer expressions, inferred from the loop variables and proved on every path between cut points", N + "Assumes requested sizes are non-negative and indexed ranges are not reversed."),
    "C37": (T + "ranking argument per loop path (key position, exhausted set, counters, progress flag)", N),
    "C38": (T + "rules over the parsed text of the interval statement (stages, windows, grouping, bounds; gaps and islands)", N),
    "C27": (T + "exploration of all producer paths including failures, lock-set analysis, linear arithmetic over the token window", N),
    "C28": (T + "typestate of the end marker and of received values over all paths of reader and consumer, interval arithmetic over the division of workloads", N),
    "C30": (T + "typestate of hand-over, completion mark, lock and segment release over all paths of the worker iteration (also early exits); layout and hand-on accounting of shared state", N + "shared_memory/numpy/multiprocessing semantics are trusted."),
    "C31": (T + "path exploration per rank with constant propagation of the rank numbers", N),
    "C22": (T + "truth-table evaluation of the comparison, order-dependence (taint) analysis of hash/order/text, mirror-image comparison of order verdicts, typestate and linear arithmetic over id assignment", N + "xxhash is trusted; collisions of the 64-bit hash only make a dict compare the keys."),
    "C19": (T + "abstract interpretation with container sums over linear inequalities (loops summarised by inductive linear invariants), typestate of chunk-size changes, alias/mutation analysis of the rows", N + "weights are treated as exact reals: floating-point rounding of N*w is taken not to lift a sum of floors above N."),
    "C20": (T + "discovery of wrapping mixtures, decision of the selector by linear facts over its loop paths, all-elements notification paths, typestate of strictness against step changes", N),
    "C21": (T + "abstract interpretation of array lengths and accumulated contents in mixing algorithms (linear expressions, None-ness partitioning), linear facts on step and flag paths, dataflow of weights to keys, ownership of mixtures, path exploration of the chunk generator", N + " The values of weights are not checked (C34)."),
    "C29": (T + "typestate over the loop nest of the window and overall iterators with linear branch facts, best effort and strict separately; formula analysis of the shares of a window", N),
    "C32": (T + "path exploration of registration/removal with an effect model of the executed SQL", N),
}
NA = {
    "C33": "Quantifies over numerical proportions of emitted samples for all indexes and weights; rounding/exhaustion behaviour is a runtime quantity no sound static argument in reach bounds. The structural parts are C18, C19 and C29.",
    "C34": "Numerical agreement with published update equations is a runtime quantity; structural parts of the feedback pipeline are in C21.",
    "C35": "The native builder is C++ against Arrow headers that are not available here, and table-to-index equality is a runtime relation.",
    "C36": "Depends on tokenizer output and buffer arithmetic for all inputs; round-trip equality is not decidable from shape. Failure propagation of the same code is C27.",
}
