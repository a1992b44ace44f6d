PROPERTY = "C09"
NEEDS = "a query executed while a dataset is being registered, between inserting its files and its samples"
BREAKS = "the version does not change when the samples are inserted, so results computed before that are served from the cache for ever"
EDITS = [("mixtera/core/datacollection/mixtera_data_collection.py", "        logger.info(\"All tasks finished.\")\n\n        self._db_incr_version()\n        self._vacuum()\n", "        logger.info(\"All tasks finished.\")\n\n        self._vacuum()\n")]
DEMO = '''
from mxdemo import *


def main(d):
    c = make_client(d)
    (d / "more").mkdir()
    write_data(d / "more" / "x.jsonl", 50)
    mdc = c._mdc
    orig = mdc._insert_samples_with_metadata

    def insert(*a, **k):
        c.execute_query(Query.for_job("a").select(None), QueryExecutionArgs(mixture=static(), num_workers=0))
        return orig(*a, **k)

    mdc._insert_samples_with_metadata = insert
    assert c.register_dataset("more", str(d / "more"), JSONLDataset, get_text, "RED_PAJAMA")
    c.execute_query(Query.for_job("b").select(None), QueryExecutionArgs(mixture=static(), num_workers=0))
    n = len(c._get_query_result("b").file_path)
    if n != 2:
        return f"the query was answered from {n} files, but the catalog has 2"


run_demo(main)
'''
