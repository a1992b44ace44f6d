PROPERTY = "C15"
NEEDS = "two nodes per data-parallel group and several workers: one node gets ahead of the other by one worker's chunk"
BREAKS = "a chunk is evicted although the other node has not received it yet, so that node gets another chunk instead"
EDITS = [("mixtera/core/query/chunk_distributor.py", "(chunk_to_delete := next_chunk_id - self._num_workers) >= 0", "(chunk_to_delete := next_chunk_id - 1) >= 0")]
DEMO = '''
from mxdemo import *
import dill


def main(d):
    c = make_client(d)
    c.execute_query(Query.for_job("j").select(None), QueryExecutionArgs(mixture=static(), num_workers=2, nodes_per_group=2))
    cd = c._get_query_chunk_distributor("j")

    def get(node, worker):
        return repr(dill.loads(cd.next_chunk_for(0, node, worker, False))._result_index)

    a0 = get(0, 0)
    a1 = get(0, 1)
    b1 = get(1, 1)
    b0 = get(1, 0)
    if a0 != b0 or a1 != b1:
        return "the two nodes of the group got different chunks"


run_demo(main)
'''
