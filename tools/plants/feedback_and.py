PROPERTY = "C31"
NEEDS = "training with both data and tensor parallelism"
BREAKS = "every rank of the first row and the first column sends the feedback, so losses are counted several times"
EDITS = [("mixtera/utils/feedback.py", "    if dp_rank != 0 or tp_rank != 0:\n        return\n", "    if dp_rank != 0 and tp_rank != 0:\n        return\n")]
DEMO = '''
from mxdemo import *
import mixtera.utils.feedback as fb


class C:
    current_mixture_id = 0
    sent = 0

    def process_feedback(self, job, feedback):
        self.sent += 1
        return True


class DS:
    pass


def main(d):
    ds = DS()
    ds._client = C()
    ds._query = Query.for_job("j")
    fb._recover_mixtera_dataset = lambda x: ds
    for dp in range(2):
        for tp in range(2):
            fb.handle_mixtera_feedback(ds, 1, None, None, dp, tp)
    if ds._client.sent != 1:
        return f"{ds._client.sent} ranks sent the feedback"


run_demo(main)
'''
