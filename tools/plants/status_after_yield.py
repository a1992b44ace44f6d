PROPERTY = "C30"
NEEDS = "a checkpoint in the middle of a chunk"
BREAKS = "the worker status is updated only when the next sample is requested, so it reports the previous sample"
EDITS = [("mixtera/torch/mixtera_torch_dataset.py", "                status_array[self.worker_id] = sample_chnk_idx\n                yield self._yield_func(key_id, sample)\n", "                yield self._yield_func(key_id, sample)\n                status_array[self.worker_id] = sample_chnk_idx\n")]
DEMO = '''
from mxdemo import *
from mixtera.torch import MixteraTorchDataset


def main(d):
    c = make_client(d)
    ds = MixteraTorchDataset(c, Query.for_job("j").select(None), QueryExecutionArgs(mixture=static(), num_workers=0), ResultStreamingArgs(job_id="j"))
    it = iter(ds)
    for _ in range(3):
        next(it)
    st = ds.worker_status
    it.close()
    if st != [2]:
        return f"three samples were delivered but the status is {st}"


run_demo(main)
'''
