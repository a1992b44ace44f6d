PROPERTY = "C08"
NEEDS = "a catalog change followed by re-executing the query twice: the first re-execution must not see the outdated entry"
BREAKS = "entries of newer catalog versions are compared with <, so after restoring an older catalog file (or a version that differs in any other direction) outdated entries are served"
EDITS = [("mixtera/core/query/query_cache.py", "                    if db_ver != self._mdc.get_db_version():\n", "                    if db_ver < self._mdc.get_db_version():\n")]
DEMO = '''
from mxdemo import *
import shutil


def main(d):
    c = make_client(d)
    catalog = d / "srv" / "mixtera.duckdb"
    catalog = catalog if catalog.exists() else next(p for p in (d / "srv").iterdir() if p.suffix in (".duckdb", ".db"))
    c._mdc._connection.execute("CHECKPOINT")
    c._mdc._connection.close()
    shutil.copy(catalog, d / "backup")
    c = MixteraClient.from_directory(d / "srv")
    (d / "more").mkdir()
    write_data(d / "more" / "x.jsonl", 100)
    c.register_dataset("more", str(d / "more"), JSONLDataset, get_text, "RED_PAJAMA")
    c.execute_query(Query.for_job("a").select(None), QueryExecutionArgs(mixture=static(), num_workers=0))
    c._mdc._connection.close()
    shutil.copy(d / "backup", catalog)  # restore the backup of the catalog
    c = MixteraClient.from_directory(d / "srv")
    c.execute_query(Query.for_job("b").select(None), QueryExecutionArgs(mixture=static(), num_workers=0))
    n = len(c._get_query_result("b").file_path)
    if n != 1:
        return f"the query was answered from {n} files, but the catalog has 1"


run_demo(main)
'''
