PROPERTY = "C23"
NEEDS = "a parquet file whose row groups have different sizes, and a range beyond the first group"
BREAKS = "all row groups are taken to be as large as the first one, so other rows than the requested ones are read"
EDITS = [("mixtera/core/datacollection/datasets/parquet_dataset.py", "                num_rows = parquet_file.metadata.row_group(i).num_rows\n", "                num_rows = parquet_file.metadata.row_group(0).num_rows\n")]
DEMO = '''
from mxdemo import *
import pyarrow as pa
import pyarrow.parquet as pq
from mixtera.core.datacollection.datasets import ParquetDataset


def main(d):
    schema = pa.schema([("x", pa.int64())])
    with pq.ParquetWriter(d / "a.parquet", schema) as w:
        w.write_table(pa.table({"x": list(range(10))}))
        w.write_table(pa.table({"x": list(range(10, 40))}))
        w.write_table(pa.table({"x": list(range(40, 45))}))
    got = list(ParquetDataset.read_ranges_from_files({str(d / "a.parquet"): [(5, 15), (30, 44)]}, lambda r: r["x"], None))
    want = list(range(5, 15)) + list(range(30, 44))
    if got != want:
        return f"read {got}"


run_demo(main)
'''
