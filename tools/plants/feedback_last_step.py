PROPERTY = "C21"
NEEDS = "feedback of two training steps that arrives out of order"
BREAKS = "the late feedback sets the training step back, so an earlier mixture is used again"
EDITS = [("mixtera/core/query/mixture/mixture.py", "        self.current_step = max(self.current_step, training_steps)\n", "        self.current_step = training_steps if training_steps > 0 else self.current_step\n")]
DEMO = '''
from mxdemo import *
from mixtera.network.client.client_feedback import ClientFeedback


def main(d):
    m = static()
    m.process_client_feedback(ClientFeedback(training_steps=7))
    m.process_client_feedback(ClientFeedback(training_steps=5))
    if m.current_step != 7:
        return f"the training step went back from 7 to {m.current_step}"


run_demo(main)
'''
