PROPERTY = "C11"
NEEDS = "a checkpoint with at least two data loader workers whose progress differs, taken in the middle of a chunk, then a restore"
BREAKS = "the progress recorded for a chunk is that of worker 0 for all workers, so others repeat or lose samples after a restore"
EDITS = [("mixtera/core/query/chunk_distributor.py", "chunk._samples_to_skip = worker_sample_ids[(dp_group, worker_id)]", "chunk._samples_to_skip = worker_sample_ids[(dp_group, node)]")]
DEMO = '''
from mxdemo import *


def main(d):
    c = make_client(d)
    c.execute_query(Query.for_job("j").select(None), QueryExecutionArgs(mixture=static(), num_workers=2))
    cd = c._get_query_chunk_distributor("j")
    for w in (0, 1):
        cd.next_chunk_for(0, 0, w, False)
    ck = cd.checkpoint(0, 0, [3, 7], d / "ck", True)
    while not cd.checkpoint_completed(ck, True):
        time.sleep(0.05)
    cd2 = type(cd).from_checkpoint(d / "ck", ck, "j", None)
    skips = [cd2.next_chunk_for(0, 0, w, True)._samples_to_skip for w in (0, 1)]
    if skips != [3, 7]:
        return f"samples to skip after the restore are {skips}, consumed were 3 and 7"


run_demo(main)
'''
