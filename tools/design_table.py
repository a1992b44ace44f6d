LIMITS = {
"C01": "Words are compared as languages, unboundedly many loop turns included; loop *counts* are tied to the count field transferred just before. A transport failure in the middle ends both words and is C03/C06's subject.",
"C02": "Conversions that keep the value (enum by value, str/int round trips, list/tuple, dict rebuilt key by key, serialise/deserialise of a mixture or query by dill/pickle) are an explicit table. A value passing through an unrecognised function is UNDECIDED for that field, not a violation.",
"C03": "Exceptions are those of `Exception` (plus cancellation for closing the connection). `_read_file` with an empty path answers nothing; the client never sends one.",
"C04": "Values are uninterpreted; header sizes and widths are terms or enumerated from the code. Arrays: `np.load` has to be called without pickle.",
"C05": "asyncio's `read(n)`/`wait_for` are trusted. `get_file_iterable` on the client ends with what it received when a fetch fails at the very beginning (documented upstream).",
"C06": "'Reported the documented way' is: None, False, an empty iterable, or a RuntimeError raised on purpose. `_connect_to_server`'s retry is trusted to be tenacity's.",
"C07": "Outcomes are propagated as constants through tasks, tables and replies; the operations themselves count as successful iff they return truthy/do not raise, plus rule E for what they did.",
"C08": "Two different queries with the same text are excluded by field accounting over operator attributes that influence SQL; equality of str() of unequal values of one attribute is excluded by requiring unabridged repr/str of it.",
"C09": "Effects are read off the SQL text; statements whose text cannot be recovered make the check refuse. Upstream's unfinished `add_property` changes the schema of samples and is treated like every other mutator.",
"C10": "Order of effects on all paths, not durability: no fsync is required (a process crash, not a power failure).",
"C11": "Field accounting is over attributes read or written by hand-out and generation, found by the analysis itself; pickle/dill/deepcopy are taken to be faithful.",
"C12": "Deep copies and immutable values only; an object with its own `__deepcopy__` sharing state would be missed (none exists).",
"C13": "Uniqueness is decided through the counter; ids of other jobs live in other directories (per-job directory is part of the rule).",
"C14": "A mixture with equal rows but different chunk size/strictness is not logged again (equality as upstream defines it). The failed-attempt history is a recorded finding.",
"C15": "Request orders are covered by deciding one step from any state (the bookkeeping invariant is per step), not by enumerating orders.",
"C16": "Lock identity is by attribute; state reachable only from one event loop is required to hold its declared locks only where the declaration exists.",
"C17": "Values that differ only in their order are followed per container level (at most four). Fields and parameters are joined by name over all instances. Code outside of the analysed modules is taken as determined, as are the rows DuckDB returns beyond the ORDER BY and the intervals of the C++ extension (only the order of its maps is distrusted). Draws other threads make from the global generators outside of the lock (user code, torch) are not excluded. The number of CPUs is configuration. Which data-parallel group gets which chunk follows the order of requests and is not covered.",
"C18": "Invariants are inferred over the loop variables; requested sizes non-negative and indexed ranges not reversed are assumed. `<` for `<=` in the splitter is equivalent and accepted.",
"C19": "Float rounding is not modelled: the sum of floor(N*w) is taken to lie in [N - #entries, N], which holds for doubles unless N exceeds about 2^50. Distribution by other methods than floors plus remainder (e.g. cumulative rounding) is UNDECIDED. A negative weight multiplied by a negative one in a hierarchical mixture is not seen (products are checked, not factors). An InferringMixture recomputes its rows when it is told an index, not when its chunk size changes.",
"C20": "A selector by `bisect`/`max` instead of a scan of the entries is UNDECIDED. A DynamicMixture configured with its own `strict` keeps it, and key ids and logs are handled by its own algorithm.",
"C22": "Upstream documents `==` as a match relation that need not be symmetric (TODO #112); the property follows that. Value lists are taken to be sortable. A comparison written with a nested search loop instead of set operations/all/any is UNDECIDED.",
"C23": "Integer rows, arbitrary numbers of ranges/groups. The two-pointer walk over row groups must keep its shape as a loop over two positions; other shapes are UNDECIDED. The Parquet and web dataset readers ignore the server connection by design (no tunnelling for them).",
"C24": "What an operation does is the subject of the other properties; here only that it exists, is reached with its arguments in place and is the one asked for. Classes defined outside the project are not seen. Dataset types no exported class implements (CROISSANT) have to be refused.",
"C25": "DuckDB's evaluation of bound values is trusted; type mismatches between bound value and column raise there and are not silent.",
"C26": "pyarrow/polars calls are trusted; two parsers declaring one property name with different types fail in DuckDB (loudly). A parser declaring `sample_id` fails loudly in pyarrow.",
"C27": "Failures are those of `Exception`; compaction of the token buffer makes the window rule UNDECIDED; batch size ≥ 1 and tokenizers not raising StopIteration are assumed.",
"C28": "A reader whose parent is gone may report an end nobody reads. A dead reader is noticed after the queue's timeout, as upstream designed. Markers that are None or text count as in-band.",
"C30": "After all workers completed, the dataset cannot be iterated again (the segments are gone by design); a status of None after completion makes a later checkpoint fail loudly.",
"C31": "Ranks are abstracted to zero/non-zero for each dimension. `is_on_github_actions` only affects logging and is not followed.",
"C21": "Lengths and what is accumulated, not the numbers: the update equations are C34. Assumes that losses and counts of one report have the same length (the server protocol sends them together; nothing validates it). `reset_state` is never called by the library; the ADO subclass does not override it, so calling it from outside would leave the other per-domain arrays at their old length. An algorithm writing arrays through aliases the analysis does not follow is UNDECIDED.",
"C29": "Within a window samples may come in any interleaving; in strict mode the rest of the window of the first exhaustion may be delivered or not, as upstream designed. Counters kept in other shapes than local counters/containers, or windows not kept as a nest of three loops, are reported undecided. Shares computed with Fraction/Decimal: undecided. The rows of the chunk's mixture are taken to add up to its chunk size (C22).",
"C32": "Failures at every call. DuckDB's transaction semantics are trusted.",
"C37": "Termination is by ranking per turn; that sources themselves end follows from C18 (each yields at most its samples).",
"C38": "Only the gaps-and-islands form of the statement is judged; another formulation is reported as not recognised. DuckDB's semantics of windows and grouping, and the native builder that reads the rows (C35), are trusted.",
}
NOTES = """## 4. False alarms met while building, and what was done
 * C15's role rule flagged calls that pass values of unknown role; it now reports only if both roles are known and differ.
 * C14 took a mixture handed to the generator by an inlined helper for an unrecorded one; the rule now follows the value, not the site.
 * C08 required equality tests on the version; a lookup that compares in either order or through a helper is now evaluated for each outcome of the comparison.
 * C30 inlined `num_workers` and no longer recognised the number of slots; properties that are the interface are not inlined.
 * Negation (`not x`) was missed as a term in four checks (equivalent refactorings raised alarms in the self test); fixed in all.
 * C05 first demanded that a read closing before its first byte raises; upstream's callers rely on None there. The property says so now.
 * C25 first demanded that every condition takes effect; conditions on unknown columns are ignored by design (documented upstream and tested).

## 5. Not attempted
 * Numerical claims (C33, C34), the native builder against Arrow headers that are not installed (C35) and tokenisation round trips (C36).
 * Liveness of the whole system (deadlines of the network, fairness of queues) beyond the local progress arguments of C27/C28/C37.
"""
