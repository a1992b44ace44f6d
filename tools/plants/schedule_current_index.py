PROPERTY = "C20"
NEEDS = "a schedule whose later entry infers its mixture from the data, and training that reaches that entry"
BREAKS = "only the mixture in force at the start learns about the data, later entries stay without a mixture"
EDITS = [("mixtera/core/query/mixture/mixture_schedule.py", "        for entry in self.schedule:\n            entry.mixture.process_index(chunker_index)\n", "        self.current_mixture.process_index(chunker_index)\n")]
DEMO = '''
from mxdemo import *
from mixtera.core.query.mixture import InferringMixture, MixtureSchedule, ScheduleEntry
from mixtera.network.client.client_feedback import ClientFeedback


def main(d):
    c = make_client(d)
    mix = MixtureSchedule(10, [ScheduleEntry(0, static(10)), ScheduleEntry(5, InferringMixture(10))])
    c.execute_query(Query.for_job("j").select(None), QueryExecutionArgs(mixture=mix, num_workers=0))
    qr = c._get_query_result("j")
    next(qr)
    c.process_feedback("j", ClientFeedback(training_steps=7))
    if sum(qr._mixture.mixture_in_rows().values()) != 10:
        return "the inferring mixture of step 5 has not been informed about the data"


run_demo(main)
'''
