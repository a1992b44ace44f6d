PROPERTY = "C18"
NEEDS = "a sample range whose remainder after filling a chunk is exactly one sample"
BREAKS = "the last sample of a range is dropped when it would be alone in the next chunk"
EDITS = [("mixtera/core/query/query_result.py", "                            # Stop if range has been exhausted perfectly\n                            continue_processing = current_range[1] > current_range[0]\n", "                            # Stop if range has been exhausted perfectly\n                            continue_processing = current_range[1] - current_range[0] > 1\n")]
DEMO = '''
from mxdemo import *


def main(d):
    c = make_client(d, 21)
    (d / "more").mkdir()
    write_data(d / "more" / "x.jsonl", 21, rec=lambda i: record(i, "Rust", "MIT"))
    c.register_dataset("more", str(d / "more"), JSONLDataset, get_text, "RED_PAJAMA")
    c.execute_query(Query.for_job("k").select(("language", "==", "Rust")), QueryExecutionArgs(mixture=ArbitraryMixture(5), num_workers=0))
    n = sum(1 for _ in c.stream_results(ResultStreamingArgs(job_id="k")))
    if n != 21:
        return f"{n} samples of 21 were delivered"


run_demo(main)
'''
