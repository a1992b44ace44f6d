PROPERTY = "C28"
NEEDS = "parallel reading of a chunk whose number of files is not a multiple of the number of processes"
BREAKS = "the files left over after an even split get no reader process and are silently missing"
EDITS = [("mixtera/core/query/result_chunk.py", "            for i in range(1, len(partition_ranges)):\n", "            for i in range(1, min(len(partition_ranges), process_count + 1)):\n")]
DEMO = '''
from mxdemo import *


def main(d):
    c = make_client(d, 8, files=3)
    c.execute_query(Query.for_job("j").select(("language", "==", "HTML")), QueryExecutionArgs(mixture=ArbitraryMixture(100), num_workers=0))
    got = sorted(s for _, _, s in c.stream_results(ResultStreamingArgs(job_id="j", chunk_reading_degree_of_parallelism=2)))
    c.execute_query(Query.for_job("k").select(("language", "==", "HTML")), QueryExecutionArgs(mixture=ArbitraryMixture(100), num_workers=0))
    want = sorted(s for _, _, s in c.stream_results(ResultStreamingArgs(job_id="k")))
    if got != want:
        return f"{len(got)} samples with 2 readers, {len(want)} with one"


run_demo(main)
'''
