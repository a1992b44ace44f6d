PROPERTY = "C12"
NEEDS = "a checkpoint of a job with a dynamic mixture"
BREAKS = "the copy of the mixture history shares its mixtures with the live job, so checkpointing rewrites the live history"
EDITS = [("mixtera/core/query/chunk_distributor.py", "        mixture_log = deepcopy(self._query_result._mixture_log)\n", "        mixture_log = list(self._query_result._mixture_log)\n")]
DEMO = '''
from mxdemo import *
import numpy as np
from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm
from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
from mixtera.network.client.client_feedback import ClientFeedback


class Alg(DynamicMixingAlgorithm):
    def calc_mixture(self, updated_at_client):
        return None


def main(d):
    c = make_client(d)
    mix = DynamicMixture(10, static(10), Alg())
    c.execute_query(Query.for_job("j").select(None), QueryExecutionArgs(mixture=mix, num_workers=0))
    cd = c._get_query_chunk_distributor("j")
    cd.next_chunk_for(0, 0, 0, False)
    c.process_feedback("j", ClientFeedback(training_steps=1, mixture_id=0, losses=np.array([1.0, 2.0], dtype=np.float32), counts=np.array([1, 1])))
    log = cd._query_result._mixture_log
    before = str(log[-1][1]._mixing_alg.losses)
    cd.checkpoint(0, 0, [1], d / "ck", True)
    after = str(log[-1][1]._mixing_alg.losses)
    if before != after:
        return f"taking a checkpoint changed the mixture history of the job from {before} to {after}"


run_demo(main)
'''
