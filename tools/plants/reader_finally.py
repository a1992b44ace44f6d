PROPERTY = "C28"
NEEDS = "parallel reading with a parsing function (or file) that fails in the middle of a workload"
BREAKS = "a failing reader process announces its normal end, so the rest of its samples is silently missing"
EDITS = [("mixtera/core/query/result_chunk.py", "            for instance in instance_iterator:\n                queue.put(instance)\n", "            try:\n                for instance in instance_iterator:\n                    queue.put(instance)\n            except Exception as ex:  # pylint: disable=broad-exception-caught\n                logger.error(f\"Error while reading {filename_dict}: {ex}\")\n")]
DEMO = '''
from mxdemo import *
import mixtera.core.query.result_chunk as rc

rc.MULTIPROCESSING_TIMEOUT = 5


def parse(s):
    import json

    t = json.loads(s)["text"]
    if t == "5":
        raise ValueError("broken sample")
    return t


def main(d):
    c = make_client(d, register=False)
    assert c.register_dataset("ds", str(d / "data"), JSONLDataset, parse, "RED_PAJAMA")
    c.execute_query(Query.for_job("j").select(None), QueryExecutionArgs(mixture=ArbitraryMixture(100), num_workers=0))
    n = 0
    try:
        for _ in c.stream_results(ResultStreamingArgs(job_id="j", chunk_reading_degree_of_parallelism=2)):
            n += 1
    except Exception:
        return None
    return f"reading a broken sample went unnoticed, {n} of 200 samples were delivered"


run_demo(main)
'''
