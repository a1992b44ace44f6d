PROPERTY = "C32"
NEEDS = "removing one of several datasets, followed by a query"
BREAKS = "the samples are deleted after the dataset they are selected by, so they stay in the catalog and are still found by queries"
EDITS = [("mixtera/core/datacollection/mixtera_data_collection.py", "            cur = self._connection.cursor()\n            cur.execute(delete_samples_query, (identifier,))\n\n            delete_files_query", "            cur = self._connection.cursor()\n\n            delete_files_query"),
         ("mixtera/core/datacollection/mixtera_data_collection.py", "            cur.execute(delete_dataset_query, (identifier,))\n            self._connection.commit()\n", "            cur.execute(delete_dataset_query, (identifier,))\n            cur.execute(delete_samples_query, (identifier,))\n            self._connection.commit()\n")]
DEMO = '''
from mxdemo import *


def main(d):
    c = make_client(d)
    (d / "more").mkdir()
    write_data(d / "more" / "x.jsonl", 50)
    assert c.register_dataset("more", str(d / "more"), JSONLDataset, get_text, "RED_PAJAMA")
    assert c.remove_dataset("more")
    n = c._mdc._connection.execute("SELECT COUNT(*) FROM samples").fetchone()[0]
    if n != 200:
        return f"{n} samples are in the catalog, the remaining dataset has 200"


run_demo(main)
'''
