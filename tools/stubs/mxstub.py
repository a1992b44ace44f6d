"""Pure-Python stand-in for the C++ chunker extension (which cannot be built offline).

Only used to validate fixes and planted bugs against the repository's own code; no check imports it."""
import sys
import types


def create_chunker_index_cpp(table, num_threads=1):
    from mixtera.core.query.mixture import MixtureKey

    skip = {"dataset_id", "file_id", "group_id", "interval_start", "interval_end"}
    props = [c for c in table.column_names if c not in skip]
    index = {}
    for row in table.to_pylist():
        vals = {}
        for p in props:
            v = row[p]
            if v is None or (isinstance(v, list) and not v):
                continue
            vals[p] = [str(x) for x in v] if isinstance(v, list) else [str(v)]
        key = MixtureKey(vals)
        index.setdefault(key, {}).setdefault(row["dataset_id"], {}).setdefault(row["file_id"], []).append(
            (row["interval_start"], row["interval_end"])
        )
    return index


def install():
    patch_versions()
    import mixtera.core.datacollection  # noqa: F401

    m = types.ModuleType("mixtera.core.query.chunker.chunker_extension")
    m.create_chunker_index = create_chunker_index_cpp
    m.create_chunker_index_cpp = create_chunker_index_cpp
    sys.modules["mixtera.core.query.chunker.chunker_extension"] = m


class _Proxy:
    """The installed duckdb no longer has fetch_arrow_table."""

    def __init__(self, con):
        object.__setattr__(self, "_con", con)

    def __getattr__(self, name):
        return getattr(self._con, name)

    def execute(self, *a, **k):
        return _Proxy(self._con.execute(*a, **k))

    def cursor(self):
        return _Proxy(self._con.cursor())

    def fetch_arrow_table(self, *a):
        return self._con.to_arrow_table(*a)


def patch_versions():
    """Bridge API differences between the pinned requirements and the packages installed here."""
    import duckdb
    import xxhash

    try:
        xxhash.xxh64_intdigest("a")
    except TypeError:
        orig = xxhash.xxh64_intdigest
        xxhash.xxh64_intdigest = lambda s, *a: orig(s.encode() if isinstance(s, str) else s, *a)
    if not hasattr(duckdb.DuckDBPyConnection, "fetch_arrow_table"):
        connect = duckdb.connect
        duckdb.connect = lambda *a, **k: _Proxy(connect(*a, **k))
