PROPERTY = "C26"
NEEDS = "a parquet file with more rows than one batch (65536)"
BREAKS = "the row number restarts with every batch, so samples are recorded under the row number of another one"
EDITS = [("mixtera/core/datacollection/datasets/parquet_dataset.py", "            row_id = 0\n            for batch in parquet_file.iter_batches():\n                records = batch.to_pylist()\n                for record in records:\n                    metadata_parser.parse(row_id, record)\n                    row_id += 1\n", "            for batch in parquet_file.iter_batches():\n                records = batch.to_pylist()\n                for row_id, record in enumerate(records):\n                    metadata_parser.parse(row_id, record)\n")]
DEMO = '''
from mxdemo import *
import pyarrow as pa
import pyarrow.parquet as pq
from mixtera.core.datacollection.datasets import ParquetDataset


class Rec:
    def __init__(self):
        self.rows = []

    def parse(self, line, payload, **kw):
        self.rows.append((line, payload["x"]))


def main(d):
    pq.write_table(pa.table({"x": list(range(70000))}), d / "a.parquet")
    r = Rec()
    ParquetDataset.inform_metadata_parser(d / "a.parquet", r)
    if r.rows != [(i, i) for i in range(70000)]:
        return "rows are recorded under other row numbers"


run_demo(main)
'''
