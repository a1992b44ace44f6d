PROPERTY = "C13"
NEEDS = "a checkpoint directory from which old checkpoints were removed, then a restore and a new checkpoint"
BREAKS = "the counter is derived from the number of checkpoints instead of the highest id, so an existing one is overwritten"
EDITS = [("mixtera/core/query/chunk_distributor.py", "            chunk_distributor._checkpoint_id_counter.value = max(checkpoint_numbers)\n", "            chunk_distributor._checkpoint_id_counter.value = len(checkpoint_numbers) - 1\n")]
DEMO = '''
from mxdemo import *
import shutil


def main(d):
    c = make_client(d)
    c.execute_query(Query.for_job("j").select(None), QueryExecutionArgs(mixture=static(), num_workers=1))
    cd = c._get_query_chunk_distributor("j")
    ids = []
    for _ in range(3):
        cd.next_chunk_for(0, 0, 0, False)
        ck = cd.checkpoint(0, 0, [1], d / "ck", True)
        while not cd.checkpoint_completed(ck, True):
            time.sleep(0.05)
        ids.append(ck)
    shutil.rmtree(d / "ck" / ids[0])
    cd2 = type(cd).from_checkpoint(d / "ck", ids[2], "j", None)
    cd2.next_chunk_for(0, 0, 0, False)
    ck = cd2.checkpoint(0, 0, [1], d / "ck", True)
    if ck in ids:
        return f"the identifier {ck} is given to a second checkpoint"


run_demo(main)
'''
